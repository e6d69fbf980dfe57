import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seed import make
SH='include/salticidae/stream.h'; MH='include/salticidae/msg.h'
HEAD='#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include "salticidae/msg.h"\n#include "salticidae/stream.h"\nusing namespace salticidae;\n#define CHECK(c) do { if (!(c)) { fprintf(stderr, "failed: %s\\n", #c); return 1; } } while (0)\n'
make('s01-copy-offset', 'C01', [(SH, "        buffer(other.buffer),\n        offset(other.offset) {}", "        buffer(other.buffer),\n        offset(0) {}")],
 HEAD+'''int main() { DataStream s; s << (uint8_t)1 << (uint8_t)2 << (uint32_t)77; uint8_t x; s >> x; DataStream c(s); CHECK(c.size() == s.size()); c >> x; CHECK(x == 2); uint32_t y; c >> y; CHECK(y == 77); return 0; }''',
 'copying a stream after part of it has been read', 'a copy of a partly read stream rereads the consumed prefix')
make('s02-blob-order', 'C03', [(SH, "for (size_t i = _len - 1; i > 0; i--)", "for (size_t i = _len - 1; i > 1; i--)")],
 HEAD+'''int main() { bytearray_t a(32, 0), b(32, 0); a[8] = 1; b[0] = 5; uint256_t x(a), y(b); CHECK(y < x); CHECK(!(x < y)); return 0; }''',
 'two blobs that differ only in their two lowest words', 'ordering ignores the second word: unequal blobs compare in the wrong order')
make('s03-swap-checksum', 'C05', [(MH, "        std::swap(length, other.length);\n#ifndef SALTICIDAE_NOCHECKSUM\n        std::swap(checksum, other.checksum);\n#endif\n        std::swap(payload, other.payload);", "        std::swap(length, other.length);\n        std::swap(payload, other.payload);")],
 HEAD+"""struct M { static const uint8_t opcode = 3; DataStream serialized; }; const uint8_t M::opcode;
int main() { M m; m.serialized << (uint32_t)5; MsgBase<uint8_t> b(m, 7), c; memset((void *)&c, 0, 0); M e; MsgBase<uint8_t> d(e, 9); d = b; CHECK(d.get_length() == 4); CHECK(d.verify_checksum()); return 0; }""",
 'assigning one message to another', 'the assigned message keeps the old checksum: an intact message fails verification')
make('s04-bits-clear', 'C04', [(SH, "memset(data.get(), 0, ndata * sizeof(_impl_type));", "memset(data.get(), 0, nbits / 8);")],
 HEAD+"""int main() { Bits b(100); for (unsigned i = 0; i < 100; i++) b.set(i); b.clear(); for (unsigned i = 0; i < 100; i++) CHECK(b[i] == 0); return 0; }""",
 'clearing a vector whose size is not a multiple of 8', 'the last bits survive clear()')
make('s05-hash-prefix', 'C05', [(SH, "    d.update(buffer.begin() + offset, size());", "    d.update(buffer.begin() + offset / 2 * 2, size());")],
 HEAD+'''int main() { DataStream s; s << (uint8_t)1 << (uint8_t)2 << (uint8_t)3; uint8_t x; s >> x; DataStream t; t << (uint8_t)2 << (uint8_t)3; CHECK(s.get_hash() == t.get_hash()); return 0; }''',
 'digesting a stream of which an odd number of bytes has been read', 'the digest covers the wrong bytes')
