"""known_findings.json: fixed and known findings.  Run by hand; checks only read the file."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, commit subject (prefix), what failed
 ('C01', 'get_data_inplace must reject', 'get_data_inplace(len) with a length close to SIZE_MAX wrapped the bounds test and returned a pointer past the buffer'),
 ('C01', 'a moved-from DataStream', 'a moved-from DataStream kept its old read offset: size() underflowed'),
 ('C01', 'converting a DataStream rvalue', 'converting a partly read DataStream rvalue to bytes returned the already consumed prefix'),
 ('C02', 'load_hex must reject text', 'load_hex accepted text containing non-hex characters and stored garbage'),
 ('C04', 'Bits::load must shift', 'Bits::load shifted bytes as int: words with byte 4..7 set were corrupted'),
 ('C04', 'default and sized Bits', 'Bits() left the bit count uninitialised and Bits(n) left its words uninitialised'),
 ('C04', 'Bits word count must not', 'Bits bit counts near 2^32 overflowed the word count: nothing allocated, out-of-bounds access'),
 ('C05', 'parse_hash_list must check', 'parse_hash_list allocated as many hashes as the peer advertised before looking at the data'),
 ('C06', 'SegBuffer::move_pop must', 'move_pop after a partial pop returned the consumed bytes again and made size() wrap'),
 ('C11', 'casting a BoxObj rvalue', 'static_pointer_cast of a BoxObj rvalue left both boxes owning the object: double delete'),
 ('C11', 'a moved-from shared pointer', 'a moved-from RcObj/ArcObj still compared non-null and handed out the object it no longer owned'),
 ('C11', 'indexing a shared array', 'indexing RcObj<T[]> did not compile'),
 ('C11', 'atomic reference counts must', 'concurrent release of owners/weak pointers leaked the control block; concurrent weak upgrade revived a destroyed object'),
 ('C10', 'destroying a ThreadCall must', 'destroying a ThreadCall with queued synchronous calls left their callers blocked forever'),
 ('C21', 'NetAddr must reject ports', 'NetAddr accepted ports with leading blanks/signs or trailing garbage ("1.2.3.4: +80x")'),
 ('C22', 'vstringprintf must not', 'vstringprintf dropped the last character of text longer than its first buffer'),
 ('C22', 'numeric options must', 'numeric options accepted trailing garbage and silently truncated out-of-range values'),
 ('C22', 'split with an empty', 'split with an empty delimiter looped forever and exhausted memory'),
 ('C23', 'SalticidaeError must init', 'SalticidaeError left its OS error code uninitialised for non-OS errors'),
 ('C12', 'TLS writes that would block', 'a TLS write that would block was retried from another buffer: OpenSSL reports bad write retry and the connection is torn down with output unsent'),
 ('C13', 'a full receive buffer', 'a receive buffer that filled up was masked before the upper layer was told: reading never resumed'),
 ('C13', 'bytes received right before', 'bytes received in the same event as the end of the stream were dropped'),
 ('C07', 'a message with a bad checksum', 'after a message with a bad checksum the parser stopped: complete messages already buffered behind it were not delivered until more bytes arrived'),
 ('C07', 'a framing error found when delivery', 'an over-long header found while resuming from the retry timer threw out of the event loop and ended the process'),
 ('C16', 'Config::msg_magic must', 'MsgNetwork::Config::msg_magic() had no return statement (undefined behaviour when used)'),
 ('C16', 'a message refused by a full', 'a message refused by a full bounded send buffer was still counted as sent'),
 ('C14', 'terminating a connection that is just', 'terminating a connection that had been handed to a worker whose set-up had not yet run tore it down from the wrong thread; the worker then armed events on the closed descriptor'),
 ('C14', 'a socket whose set-up fails', 'a socket whose option set-up failed after accept/socket() was never closed'),
 ('C15', 'tls_skip_ca_check must', 'ConnPool::Config::tls_skip_ca_check took a non-const reference and could not be called with a value'),
 ('C28', 'stopping must not tear down', 'stopping while a connection was already torn down by its worker ran its teardown a second time'),
 ('C28', 'stopping a network must also', 'stop() left the listening socket open until destruction'),
 ('C17', 'the passive nonce must be greater', "the nonce of an end that is not dialling could be smaller than the dialler's: the dialler kept and the acceptor refused the only connection"),
 ('C20', 'a parsed heartbeat must not', 'a parsed heartbeat carried an uninitialised nonce'),
 ('C20', 'a pong on a connection that is not', 'a heartbeat pong on a dialling or pending connection dereferenced a null link and used uninitialised heartbeat flags'),
 ('C18', 'an unexpected handshake pong must', 'a handshake pong a remote sent at an unexpected moment aborted the process (assert)'),
 ('C19', 'an abandoned connection attempt must', 'an abandoned connection attempt still acted for its peer: use after free after removal, assertion, null inbound connection on takeover'),
 ('C19', 'a pending connection must be dropped', 'tearing down any connection removed another pending connection of the same address from the table'),
 ('C19', 'peer queries must return', 'get_npending was read back as another type (wrong value)'),
 ('C18', 'losing a link made by a manual', 'losing a link made by a manual connection was never noticed: the peer stayed connected for ever'),
 ('C19', 'a peer must be dialed as often', 'attempts were not counted: a peer with a finite number of tries was dialled for ever, and a restart request was lost'),
 ('C17', 'a crossing handshake must not', 'a late crossing handshake displaced the connection both ends had agreed on'),
 ('C18', 'messages moved to a new link', 'messages moved to a new link could be dropped by a bounded buffer, or continue a partly sent message'),
 ('C25', 'losing an old client', 'losing an older connection from an address unrouted the newer one'),
 ('C25', 'a deferred client message', 'a deferred client message refused by a full buffer was silently lost'),
 ('C23', 'a failed C stream read', 'datastream_get_* left *succ true when the stream was too short'),
 ('C23', 'the C send functions must', 'msgnetwork/peernetwork/clientnetwork_send_msg reported success for a refused message'),
 ('C07', 'an incomplete message must not', 'an incomplete message that arrived in max_recv_buff_size or more pieces suspended reading for ever'),
 ('C23', 'encoding failures must not', 'a certificate or key that could not be encoded threw a C++ exception through the C interface'),
]
KNOWN = json.load(open(f'{V}/tools/known.json')) if os.path.exists(f'{V}/tools/known.json') else []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
for i, (p, pre, what) in enumerate(FIXED):
    c = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('fix: ' + pre)]
    assert len(c) == 1, (pre, c)
    out.append(dict(id=f'F{i+1:02d}', property=p, status='fixed', commit=c[0], what=what, line=f'fixed: property={p} {c[0]} {what}'))
out += KNOWN
json.dump(dict(findings=out), open(f'{V}/known_findings.json', 'w'), indent=1)
