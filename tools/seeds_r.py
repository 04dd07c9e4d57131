R = "include/altruct/io/reader.h"
W = "include/altruct/io/writer.h"
F = "include/altruct/io/fast_io.h"
D = '#include <cstring>\n#include <string>\n#include <cstdio>\n#include <limits>\n#include "altruct/io/reader.h"\n#include "altruct/io/writer.h"\n#include "altruct/io/fast_io.h"\nusing namespace altruct::io;\nstruct bits_of : reader { std::string s; size_t p = 0, k; bits_of(std::string s, size_t k) : s(s), k(k) {} int read_char() override { return p < s.size() ? (unsigned char)s[p++] : -1; } size_t read(char* b, size_t n) override { n = std::min(std::min(n, k), s.size() - p); memcpy(b, s.data() + p, n); p += n; return n; } operator bool() const override { return true; } };\nstruct all_to : writer { std::string s; writer& write_char(int c) override { s.push_back((char)c); return *this; } writer& write(const char* b, size_t n) override { s.append(b, n); return *this; } writer& flush() override { return *this; } };\n'
def S(id, f, edits, needs, breaks, main, **k): return dict(id=id, property="C30", edits=[(f, a, b) for a, b in edits], needs=needs, breaks=breaks, demo=D + "int main() { " + main + " return 0; }\n", **k)
SEEDS = [
    S("c30-refill-short", R, [("            end += len;\n        }\n        *end = 0;", "            end += len;\n            if (available >= 16 && len < 16) break;\n        }\n        *end = 0;")], "an underlying reader that delivers in small pieces and a request for most of a larger buffer", "the refill gives up after a short piece, so that bytes that are there are reported missing", 'bits_of in(std::string(50, "z"[0]), 5); buffered_reader r(in, 64); if (!r.data(40)) return 1;'),
    S("c30-str-nul", W, [("write(s.c_str(), s.size());", "write(s.c_str(), strlen(s.c_str()));")], "a std::string with an embedded NUL", "what follows the NUL is dropped", 'all_to o; { simple_writer w(o, 4); std::string s("ab"); s.push_back(0); s += "cd"; w.write_string(s); } if (o.s.size() != 5) return 1;'),
    S("c30-tc-short", F, [("static char tc[50];", "static char tc[18];")], "numbers of 19 and more digits", "the leading digits are dropped", 'char* b; size_t n; FILE* f = open_memstream(&b, &n); { fast_write w(f, 64); w.write_ll(-9223372036854775807LL); } fclose(f); if (std::string(b, n) != "-9223372036854775807") return 1; free(b);'),
    S("c30-move-one", F, [("std::copy(ptr, end, buff);", "if (available > 1) std::copy(ptr, end, buff);")], "a refill with exactly one byte left over in the buffer", "that byte is replaced by an older one", 'std::string s = "abcdefgh"; FILE* f = fmemopen((void*)s.data(), s.size(), "r"); { fast_read r(f, 4); r.read_char(); r.read_char(); r.read_char(); const char* d = r.data(3); if (!d || memcmp(d, "def", 3)) return 1; } fclose(f);'),
    S("c30-stream-long", R, [("v = in.read_l(); return *this;", "v = in.read_int(); return *this;")], "values beyond 32 bits through the stream interface", "the value is read as an int", 'bits_of in("123456789012 7", 3); simple_reader r(in, 4); simple_reader_stream s(r); long v; s >> v; if (v != 123456789012L) return 1;'),
]
