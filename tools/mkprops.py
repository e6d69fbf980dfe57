#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
H = "include/salticidae/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(obs), hook_needed=hook)))

p("C01", "Byte stream returns exactly what was written and never reads past its end",
  "Integers of every width, byte ranges and strings appended to a byte stream are stored little-endian/verbatim in append order, and reading them back yields the same values in the same order while the unread size shrinks by exactly the bytes read. A read that asks for more bytes than remain unread fails with an error, exposes no byte outside the stream and leaves the stream's content and read position unchanged. Copies, moves, swaps, clearing and conversions of a stream to bytes or text carry exactly its unread content.",
  ["inputs"], "all stream contents, read positions, value widths and values, and all requested lengths up to the maximum of the size type",
  "test_msg/test_bits push a handful of values through streams; no test asks for more than is there, none uses a length near the top of the size type and none converts a partly-read stream.",
  [H+"stream.h"], [("bounds check before every read", "stream.h DataStream::operator>>, get_data_inplace"), ("append", "stream.h DataStream::operator<<, put_data")],
  [("buffer/offset","bytes held and read position","stream.h DataStream")], ["DataStream public methods"])
p("C02", "Hex text conversion is exact and rejects malformed text",
  "Converting bytes to hex yields exactly two lower-case hex digits per byte in order, and converting that text back yields the same bytes. Text of odd length or containing any character that is not a hex digit is rejected with an error, never silently decoded to something else.",
  ["inputs"], "all byte strings and all text strings of any length",
  "Tests only print hex or decode one well-formed constant; no malformed text is ever supplied.",
  [H+"stream.h"], [("get_hex/load_hex", "stream.h DataStream")], (), ["get_hex, from_hex"])
p("C03", "256-bit identifiers: exact bytes, equality, total order, null state",
  "An identifier built from 32 bytes serialises to exactly those bytes and parsing them back gives an equal identifier; two identifiers are equal exactly when their bytes are equal. The less-than relation is a strict total order consistent with equality (the numeric order of the little-endian value). A default identifier is null and serialises to zeros, any loaded or parsed one is not null, a byte array of any other length is rejected, and equal identifiers hash equally.",
  ["inputs"], "all 32-byte values, all pairs and triples of them, all byte-array lengths",
  "test_msg prints a few hashes; ordering, null state and wrong lengths are not exercised.",
  [H+"stream.h"], [("Blob::load/serialize/unserialize/operator</operator==","stream.h Blob")], (), ["Blob public methods"])
p("C04", "Bit vectors: single-bit operations, loading and serialisation are exact",
  "Setting, clearing or flipping one bit of a bit vector changes exactly that bit to the required value and no other, and reading returns the current value. Loading from bytes makes bit i equal to bit (i mod 8) of byte (i div 8), and serialising then parsing, copying or moving a vector reproduces its size and every bit. Parsing never yields a vector whose advertised size exceeds the bits it stores, and a default-constructed vector is empty and one created with a given size starts all zero.",
  ["inputs"], "all vector sizes, all bit indices inside the size, all byte inputs, all (hostile) serialised inputs",
  "test_bits uses one 80-bit vector and only prints it; loading from bytes, hostile serialised sizes and default vectors are never tried.",
  [H+"stream.h"], [("_Bits::get/set/unset/flip/load/serialize/unserialize","stream.h _Bits")], (), ["Bits public methods"])
p("C05", "Message wire format round-trips and corruption is detected",
  "A message serialises to magic, opcode, payload length and checksum (integers little-endian, in that order, with no padding) followed by the payload verbatim, and parsing the header and attaching the payload reproduces magic, opcode, length and payload. The checksum carried by a freshly built message always verifies, and verification succeeds only when the stored checksum equals the digest prefix of the attached payload. The payload can be taken once; taking it again or checking a message with no payload is an error; hash lists written to a payload are read back identically and a list count larger than the data present is an error (without allocating more than the data can hold).",
  ["inputs"], "all magics, opcodes, payloads of all lengths and contents, all checksums, all hash lists",
  "test_msg builds one message and parses its payload once in-process; header bytes, checksums and malformed headers are not checked.",
  [H+"msg.h"], [("MsgBase::serialize / MsgBase(DataStream&&) / set_payload / set_checksum / verify_checksum","msg.h")], (), ["MsgBase public methods"])
p("C06", "Segmented receive buffer is an exact byte FIFO",
  "Popping n bytes returns exactly the first min(n, available) bytes of everything pushed (or put back in front) and not yet removed, in order, however the bytes were split into segments, and removes exactly those bytes. The reported size always equals the number of bytes that can still be popped. Copying, moving, swapping, clearing and taking the first segment keep content and size exact.",
  ["inputs","histories"], "all segmentations of all byte contents, all pop lengths, all operation histories",
  "The network tests exercise only whatever fragmentation loopback TCP happens to produce, with whole messages.",
  [H+"buffer.h"], [("SegBuffer::push/rewind/pop/move_pop","buffer.h")], [("buffer,_size","segment list and cached size","buffer.h SegBuffer")], ["SegBuffer public methods"])
p("C07", "Message framing is independent of how the stream is fragmented",
  "Whatever pieces the incoming byte stream arrives in, the receiver queues for delivery exactly the complete messages it contains, each once, in stream order, with their own opcode and payload; a message whose checksum does not match is skipped without losing or delaying any complete message behind it. A header announcing a payload above the configured maximum ends that connection (by the error path, never by crashing the process) and nothing of it is delivered. When the delivery queue is full the message being delivered is retried while the connection stays up, neither lost nor duplicated, and reading resumes afterwards.",
  ["inputs","schedules","histories"], "all byte streams, all fragmentations, all points at which the delivery queue is full",
  "Tests send small well-formed messages over loopback; corrupt, oversized and queue-full cases and adversarial fragmentation never occur.",
  [H+"network.h", H+"buffer.h", H+"msg.h"], [("on_read state machine","network.h MsgNetwork::on_read"),("retry timer","network.h MsgNetwork::on_worker_setup")],
  [("msg_state, msg, msg_sleep, recv_buffer","parser state of a connection","network.h MsgNetwork::Conn")], ["messages queued for delivery", "connection termination"])
p("C08", "Queues deliver every element exactly once in FIFO order",
  "For every history of operations, an element accepted by a queue is handed out exactly once and in the order accepted, across any number of internal block boundaries; dequeuing reports empty only when nothing is stored, and a put-back element is the next one handed out. A bounded enqueue either stores the element or reports failure and stores nothing; an unbounded enqueue always succeeds. Elements handed out equal the elements put in.",
  ["histories","inputs"], "all sequential histories of enqueue/dequeue/put-back/set-capacity from every well-formed queue state, at every block position",
  "test_queue counts deliveries of racing threads; it never checks order, values or put-back order, nor bounded failure.",
  [H+"queue.h"], [("block list + free list","queue.h MPMCQueue::_enqueue/try_dequeue, MPSCQueue::try_dequeue/rewind, FreeList")],
  [("Block.head/tail/avail/next, head, tail, blks","queue representation","queue.h")], ["enqueue/try_dequeue/rewind results"])
p("C09", "A consumer is never left asleep while its queue holds elements",
  "Whenever an element has been accepted by an event-driven queue with a registered handler and has not been handed out, either the consumer's notification is pending, or a handler run that will see the element is still to drain the queue, or the enqueuing thread is still about to post the notification. This holds at every interleaving of any number of producers with the consumer, and a handler that asks to be called again is called again.",
  ["schedules"], "all interleavings (at the granularity of atomic operations and notification-descriptor operations) of any number of producers with one consumer",
  "A lost wake-up needs an interleaving a stress test meets rarely; tests would only hang.",
  [H+"event.h"], [("wait_sig exchange protocol + eventfd","event.h MPSCQueueEventDriven::enqueue/reg_handler")], [("wait_sig","consumer wants a notification","event.h")], ["eventfd writes, handler runs"])
p("C10", "Cross-thread calls run exactly once, in order, and return their outcome",
  "Every call posted to a thread is executed exactly once, in posting order, on that thread's loop, and its resources are released once. A synchronous call returns exactly the value its function set, or rethrows exactly the exception it threw; an exception from one call neither stops nor reorders later calls. After the target has been stopped or destroyed, each pending call is refused with the not-available error instead of being executed.",
  ["histories","schedules"], "all sequences of posted calls, results and thrown exceptions, any burst limit",
  "Tests use a few calls that succeed; throwing, stopped and burst-boundary cases are unreached.",
  [H+"event.h"], [("ThreadCall handler loop, Handle::exec/set_result/return_sync","event.h ThreadCall")], (), ["callbacks executed, results returned"])
p("C11", "Reference-counted and unique pointers destroy their object exactly once",
  "An object held by unique, shared or atomic-shared pointers is destroyed exactly once, precisely when the last owning pointer to it is destroyed, reassigned or reset, for every sequence of copies, moves, assignments (including self-assignment), casts, swaps and releases; no pointer access happens after that. A weak pointer never keeps the object alive and converts to an owning pointer exactly when an owner still exists, otherwise to null. The bookkeeping block is freed exactly once, when neither owners nor weak pointers remain, and the reported count equals the number of owners.",
  ["histories"], "all owner/weak counts and all operation sequences (each operation verified from every well-formed state)",
  "No unit test targets the pointers; leaks or double frees in moved/cast/weak combinations are not observed by the suite.",
  [H+"ref.h"], [("_RCCtl/_ARCCtl release_ref/release_weak","ref.h"),("_BoxObj/_RcObjBase/_WeakObjBase special members and casts","ref.h")], [("ref_cnt, weak_cnt","owner and weak counts","ref.h")], ["destructor calls, get_cnt, frees"])
p("C12", "Outgoing bytes reach the socket in order, exactly once",
  "Bytes written to a connection are handed to the transport in write order, each exactly once, whatever partial, zero or would-block results the transport returns, for plain and TLS connections alike. After a would-block or partial result the unsent remainder stays first in line and sending is resumed when the socket is writable; when everything is sent, write interest is dropped and re-armed by the next write. Any other transport error ends the connection.",
  ["fault_sequences","inputs","histories"], "all queued segments, all sequences of transport results (any accepted count, would-block, errors)",
  "Loopback sockets rarely return partial sends, and the tests compare message counts rather than bytes.",
  ["src/conn.cpp", H+"conn.h", H+"buffer.h"], [("_send_data / _send_data_tls","conn.cpp"),("enable_send_buffer","conn.h Worker")], [("send_buffer, ready_send","pending output and writability","conn.h Conn")], ["send()/SSL_write calls"])
p("C13", "Incoming bytes are buffered in order and always passed on",
  "Bytes read from the transport are appended to the connection's receive buffer in order, each exactly once, and the upper layer is told about every batch received, also when the receive buffer reaches its configured limit. At the limit reading is suspended and no more is read until the upper layer drains the buffer, after which reading resumes. End of stream or a hard error ends the connection; would-block does not.",
  ["fault_sequences","inputs","histories"], "all sequences of transport results (any byte count up to the chunk size, end of stream, would-block, errors), any chunk size and buffer limit",
  "Loopback tests rarely hit the limit or would-block at a chunk boundary; the bounded-buffer program is not part of the stable tests.",
  ["src/conn.cpp", H+"network.h"], [("_recv_data / _recv_data_tls","conn.cpp"),("resume in on_read","network.h")], [("recv_buffer, ready_recv","pending input and suspension","conn.h Conn")], ["recv()/SSL_read calls, on_read notifications"])
p("C14", "A connection is torn down exactly once and completely",
  "However many times and from whichever side a connection is terminated (errors, end of stream, user request, peer removal), its teardown runs exactly once: its events are released, its descriptor is closed exactly once, it leaves the connection table, its worker's load count is decremented once, and a user who was told that it is up is told exactly once that it is down (at most once when the whole network is being stopped). No callback touches the connection's events after teardown. A connection that was never assigned to a worker is torn down by the dispatcher with the same effects.",
  ["histories","fault_sequences"], "all sequences of termination requests and pending callbacks, with and without a worker",
  "Double termination needs racing errors; tests end connections one way at a time.",
  ["src/conn.cpp", H+"conn.h"], [("set_terminated test-and-set","conn.h Conn"),("worker_terminate/disp_terminate/del_conn/release_conn","conn.cpp")], [("terminated, pool","termination flag and connection table","conn.h")], ["close(), connection callback, event handles"])
p("C15", "With TLS no application data flows before the user accepts the peer",
  "On a TLS connection, application bytes are neither read from the transport nor delivered until the handshake has completed, the peer's certificate has been recorded and the user's connection callback has accepted the connection. If the callback rejects it, the connection is terminated and nothing received on it is delivered. A failed handshake terminates the connection; an incomplete one waits for exactly the direction the TLS layer asks for. The configured verification callback is consulted unless the CA check is skipped, and a private key that does not match the certificate is refused.",
  ["inputs","histories","fault_sequences"], "all handshake outcomes, callback verdicts and socket event orders",
  "TLS tests always accept and always complete the handshake.",
  ["src/conn.cpp", H+"conn.h", H+"crypto.h"], [("_recv_data_tls_handshake, _recv_data_dummy, update_conn","conn.cpp, conn.h")], [("recv_data_func/send_data_func","current I/O handlers","conn.h Conn")], ["SSL_read calls, on_read, terminations"])
p("C16", "Each delivered message runs exactly the handler registered for its opcode",
  "Every queued message is handed, exactly once and in queue order, to the handler last registered for its opcode together with the connection it came from; a message with an unregistered opcode is skipped without effect on others. A handler or parser that throws a standard exception terminates the connection the message came from and does not prevent later messages from being dispatched. A message sent is written to its connection once, as a header carrying the network's configured magic followed by the payload. The statistics count each message handed to a handler, and each accepted for sending, and its payload bytes once.",
  ["inputs","histories"], "all registration histories, all queued message sequences, any burst limit, handlers that throw",
  "Tests register two handlers and never send unknown opcodes or unparsable payloads.",
  [H+"network.h"], [("incoming_msgs handler, reg_handler/set_handler","network.h MsgNetwork")], [("handler_map, incoming_msgs","handlers and delivery queue","network.h")], ["handler invocations"])
p("C17", "Both ends of a peer pair settle on the same single connection",
  "When two peers dial each other, then for every pair of handshake nonces and every order of handshake messages both ends reach the same verdict on each connection: it is kept exactly when its dialler's nonce is smaller than the acceptor's. With distinct nonces exactly one of the two crossing connections is kept, the same one at both ends, the one dialled by the end with the smaller nonce; with equal nonces neither is. An end that is not dialling (never asked to, attempts used up, told to stop, or no address known) answers with a nonce larger than any dialling nonce and so accepts the inbound connection. A handshake that crossed the agreed connection and arrives late is closed and does not displace the agreed one.",
  ["inputs","schedules","histories"], "all nonce pairs and all handshake message orders at both ends",
  "Tests see random nonces; the tie and order cases occur with probability about 1/65536 or need a precise interleaving.",
  [H+"network.h"], [("ping_handler/pong_handler nonce comparison","network.h PeerNetwork")], [("nonce, chosen_conn, state","handshake state of a peer","network.h Peer")], ["connections kept/terminated, MsgPing/MsgPong contents"])
p("C18", "Only registered peers are admitted and each has at most one live link",
  "A connection becomes a peer's established link only after a handshake whose identity (address or certificate, as configured) matches a registered peer; a handshake from an unregistered identity is reported to the user and the connection is terminated. At any time a registered peer has at most one established link, the user is told about each establishment and about each loss other than by removal of the peer, and a new handshake for an established peer takes over only after the old link is gone. Messages queued for a peer on a dead link move to the new link in order, once and whole (a message already partly sent on the dead link is not continued on the new one).",
  ["histories","schedules","inputs"], "all dispatcher-event sequences over a peer (handshake messages, connection setup and teardown, user requests), from every state satisfying the peer-table invariant",
  "Tests drive one or two scripted sequences; crossing handshakes, late messages and reconnections at each point are not enumerated.",
  [H+"network.h"], [("finish_handshake, ping_handler, pong_handler, on_dispatcher_setup/teardown","network.h PeerNetwork")], [("known_peers, pending_peers, Peer.state/conn/chosen_conn/inbound_conn/outbound_conn","peer table","network.h")], ["peer callbacks, terminations"])
p("C19", "Peer management requests take effect or report their own error",
  "Registering, removing, addressing, connecting and messaging a peer either has its documented effect or reports, exactly once and tagged with the identifier returned to the caller, the documented error: already exists, does not exist, not ready (no address), or connection not ready. A peer is dialled as often as requested: the given number of attempts, indefinitely for a negative number, not at all for zero, starting afresh after each established link. Removing a peer terminates every connection belonging to it and leaves no connection referring to it. Queries (is registered, number of pending connections, current connection) return the true current value.",
  ["histories","inputs"], "all peer-table states and all request sequences",
  "Tests check two error cases; removal while dialling, repeated connection requests and counts above one are not covered.",
  [H+"network.h"], [("add_peer/del_peer/set_peer_addr/conn_peer/get_peer_conn/has_peer/get_npending/multicast","network.h PeerNetwork")], (), ["error callback, peer table"])
p("C20", "Heartbeats keep a live link up and a silent one is dropped",
  "On an established link a ping is sent, and the link's timeout restarted, exactly when the link is established and then whenever both the ping period has elapsed and the previous ping was answered; every heartbeat ping received is answered with one pong on the same connection. A link whose pings are not answered within the timeout is terminated, and so is a connection that never completes a handshake; a pong on a connection that is nobody's link is ignored.",
  ["histories","schedules"], "all orders of timer expiries and pongs, from every heartbeat state",
  "Tests use default periods longer than their run time.",
  [H+"network.h"], [("ping_timer, send_ping, pong_handler, tcall_reset_timeout, on_worker_setup","network.h PeerNetwork")], [("ping_timer_ok, pong_msg_ok","heartbeat state","network.h Peer")], ["pings/pongs sent, timers"])
p("C21", "Network addresses parse, compare, hash, print and serialise consistently",
  "An \"ip:port\" text is accepted exactly when it has a colon, a resolvable host part and a decimal port between 0 and 65535, and then yields that address and port in network order; anything else is rejected with the invalid-address error. Serialising an address (4 address bytes then 2 port bytes, network order) and parsing it back gives an equal address; equality and inequality are complementary, equal addresses hash equally, and only the all-zero address is null.",
  ["inputs"], "all texts, all addresses",
  "Tests use a few well-formed literals.",
  [H+"netaddr.h"], [("NetAddr constructors, operator==, serialize","netaddr.h")], (), ["NetAddr public methods"])
p("C22", "Option and string utilities do exactly what they say",
  "Splitting a string by a delimiter yields pieces that contain no delimiter and that rejoin to the original; trimming removes exactly the leading and trailing characters of the given set. Formatting yields the complete formatted text for any length. An option value is set, appended or switched exactly as registered, numbers that are malformed or out of range are rejected with the invalid-value error, duplicate option names are rejected, and unknown names in a configuration file are ignored.",
  ["inputs","configurations"], "all strings, delimiters and character sets, all formatted lengths, all option tables and values",
  "No unit test covers these utilities; programs use a few flags.",
  ["src/util.cpp", H+"util.h"], [("split/trim/vstringprintf/Config","util.cpp")], (), ["returned strings, option values, thrown errors"])
p("C23", "The C interface mirrors the C++ one and reports every failure",
  "Each C function has exactly the effect and result of the C++ operation it names on the same object. Failures are reported through the return value or error out-parameter, success is reported only when the operation succeeded, and no C++ exception leaves a function that has a way to report failure. Every error code has its own non-empty description and any integer outside the code range is described as invalid.",
  ["inputs"], "all C calls with all argument values, including failing ones",
  "test_msgnet_c uses the success paths of a dozen functions.",
  ["src/stream.cpp","src/msg.cpp","src/netaddr.cpp","src/type.cpp","src/network.cpp","src/util.cpp"], [("C wrappers","src/*.cpp")], (), ["C API results"])
p("C24", "Event objects own their loop handle exactly once across moves",
  "For descriptor, timer, timed-descriptor, signal and check events, an event object created, moved, swapped or move-assigned in any order has its callback delivered to the object currently owning the handle, with the callback and descriptor it was created with. Each underlying handle is stopped and closed exactly once, when its owner is cleared, overwritten or destroyed, and never used afterwards; deleting or clearing an empty event does nothing. Times given in seconds are armed as the corresponding number of milliseconds, and a failed poll is reported to the callback as an error.",
  ["histories"], "all operation sequences (each operation verified from every well-formed event state)",
  "Tests only create events in place.",
  [H+"event.h"], [("FdEvent/TimerEvent/TimedFdEvent/SigEvent/CheckEvent special members","event.h")], [("ev_*->data","back pointer to owner","event.h")], ["uv_* calls"])
p("C25", "Client network routes a message to the current connection of an address",
  "A server message addressed to a client goes to the connection most recently established from that address, and to no other; once that connection is no longer up the sender gets the client-not-exist error. Losing an older connection from an address never unroutes a newer one, and a deferred message refused by a full send buffer is reported.",
  ["histories"], "all sequences of connection set-ups and tear-downs per address",
  "No test uses this network class at all.",
  [H+"network.h"], [("addr2conn maintenance","network.h ClientNetwork")], [("addr2conn","address table","network.h ClientNetwork")], ["messages written, errors"])
p("C26", "Lock-free queues are linearizable under every interleaving",
  "Under any interleaving of any number of producers and consumers the queues behave as if each operation took effect atomically: no element is lost, duplicated or handed out twice, per-producer order is kept, and no block is reused while another thread still uses it.",
  ["schedules"], "all interleavings of all numbers of threads, on the C++ memory model",
  "A stress test samples a vanishing fraction of interleavings.",
  [H+"queue.h"], [("reference-counted block reuse","queue.h FreeList, MPMCQueue")], (), ["enqueue/try_dequeue histories"])
p("C27", "A reachable registered peer is eventually (re)connected",
  "While a peer is registered for connection with retries left and is reachable, a link to it is eventually established after any finite number of failures.",
  ["schedules","fault_sequences"], "all fault sequences with finitely many failures under a fair scheduler",
  "Liveness over unbounded time.", [H+"network.h"], [("retry timer","network.h PeerNetwork")], (), ["peer callback"])
p("C28", "Work is spread to the least-loaded worker and shutdown is complete",
  "A new connection is given to a worker none of the others of which has fewer connections at that moment, and the worker's count goes up by one when it takes it. Starting twice or stopping twice has the effect of doing it once; after stop every connection still in the table has been torn down, its descriptor closed, the listening descriptor closed, and all threads joined.",
  ["histories","configurations"], "all worker counts and load vectors, all call orders of start and stop, any number of live connections",
  "Tests run one worker or look only at throughput.",
  [H+"conn.h"], [("select_worker, start, stop_workers, stop","conn.h ConnPool")], [("nconn, system_state, pool","loads, life-cycle state, table","conn.h")], ["threads started/joined, close()"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
