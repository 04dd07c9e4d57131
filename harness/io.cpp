#include "h.h"
#include <cstring>
#include <altruct/io/reader.h>
#include <altruct/io/writer.h>
#include <altruct/io/fast_io.h>
#include <sstream>
using namespace vh; using namespace altruct::io;
typedef std::string S;
static std::string ops; // the history
static void st(const char* f, i128 a = 0, i128 b = 0, i128 c = 0) { setx(f, &ops, a, b, c); }
// an underlying reader that hands out short pieces; once exhausted, nothing
struct chunks : reader { S s; size_t pos = 0; int mx; chunks(const S& s, int mx) : s(s), mx(mx) {}
  int read_char() override { return pos < s.size() ? (unsigned char)s[pos++] : -1; }
  size_t read(char* b, size_t n) override { n = std::min(n, s.size() - pos); if (mx && n > (size_t)mx) n = 1 + rng.below(mx); memcpy(b, s.data() + pos, n); pos += n; return n; }
  operator bool() const override { return true; } };
struct sink : writer { S s; int flushes = 0; writer& write_char(int c) override { s.push_back((char)c); return *this; } writer& write(const char* b, size_t n) override { s.append(b, n); return *this; } writer& flush() override { flushes++; return *this; } };
static S bytes(size_t n, int kind) { S s; for (size_t i = 0; i < n; i++) s.push_back(kind == 0 ? (char)rng.any() : kind == 1 ? "\xff\x00\x80 \n7-+a\x7f"[rng.below(10)] : "0123456789 -\n+a"[rng.below(15)]); return s; }
template<typename R> static void drain(R& r, const S& s, size_t& p) { while (true) { int c = r.read_char(); if (p < s.size()) { CHECK(c == (unsigned char)s[p]); p++; } else { CHECK(c == -1); CHECK(r.read_char() == -1); break; } } }
// plain readers: read_char and read in any order
template<typename R> static void plain(const char* nm, R& r, const S& s) { size_t p = 0; ops = ""; bool ok = true;
  for (int k = 0; k < 6; k++) if (rng.below(2)) { st(nm, s.size(), p); int c = r.read_char(); if (p < s.size()) { CHECK(c == (unsigned char)s[p]); p++; } else { CHECK(c == -1); ok = false; } if (ok) CHECK(bool(r)); else CHECK(!bool(r)); }
    else { size_t n = rng.below(3) ? rng.below(5) : rng.below(s.size() + 2); char b[600]; memset(b, 'x', sizeof b); st(nm, s.size(), p, n); size_t m = std::min(n, s.size() - p); CHECK(r.read(b, n) == m); CHECK(memcmp(b, s.data() + p, m) == 0); CHECK(b[m] == 'x'); p += m; if (m < n) ok = false; if (ok) CHECK(bool(r)); else CHECK(!bool(r)); if (!ok) return; }
  if (ok) drain(r, s, p); }
static void buffered(const S& s, size_t cap, int mx) { chunks in(s, mx); buffered_reader r(in, cap); size_t p = 0; bool can = false, ok = true; ops = "cap=" + std::to_string(cap) + " chunk=" + std::to_string(mx);
  for (int k = 0; k < 12; k++) { size_t n = rng.below(4) ? rng.below(cap + 2) : rng.below(3 * cap + 4); size_t left = s.size() - p; int o = (int)rng.below(6);
    ops += " " + std::to_string(o) + ":" + std::to_string(n); st("buffered_reader", s.size(), p);
    if (o == 0) { int c = r.read_char(); if (left) { CHECK(c == (unsigned char)s[p]); p++; can = true; } else { CHECK(c == -1); ok = can = false; } }
    else if (o == 1) { S b(n + 1, 'x'); size_t w = std::min(n, left), m = r.read(&b[0], n); CHECK(m == w || (m < w && m >= cap)); CHECK(b.compare(0, m, s, p, m) == 0 && b[m] == 'x'); p += m; if (m < n) ok = false; can = false; }
    else if (o == 2) { size_t a = r.reserve(n); CHECK(a <= left && (a >= n || a >= std::min(cap, left)) ); size_t m = r.skip(n); CHECK(m == std::min(n, a)); p += m; can = false; }
    else if (o == 3) { const char* d = r.data(n); if (n <= cap && n <= left) { CHECK(d != nullptr && memcmp(d, s.data() + p, n) == 0); } else { CHECK(d == nullptr); ok = false; } can = false; }
    else if (o == 4) { if (can) { r.unread_char(); p--; can = false; } }
    else { size_t a = r.reserve(std::min(n, cap)); r.counter() = (int)std::min(n, a); r.advance(); CHECK(r.counter() == 0); p += std::min(n, a); can = false; }
    CHECK(bool(r) == ok); }
  st("buffered_reader.rest", s.size(), p); drain(r, s, p); CHECK(!bool(r)); }
static bool ws(int c) { return c >= 0 && c <= 0x20; }
template<typename R> static void tokens(const char* nm, R& r, const S& s) { size_t p = 0; 
  for (int k = 0; k < 8; k++) { int o = (int)rng.below(3); ops += " " + std::to_string(o); st(nm, s.size(), p); auto at = [&](size_t i) { return i < s.size() ? (int)(unsigned char)s[i] : -1; };
    if (o == 0) { while (ws(at(p))) p++; S w; while (at(p) > 0x20) w.push_back(s[p++]); CHECK(r.read_string() == w); }
    else if (o == 1) { while (ws(at(p))) p++; r.skip_whitespaces(); }
    else { int c = r.read_char(); CHECK(c == at(p)); if (c != -1) { p++; if (rng.below(2)) { r.unread_char(); p--; } } } }
  st(nm, s.size(), p); drain(r, s, p); }
static void lines(const S& s, size_t cap, int mx, char d) { chunks in(s, mx); simple_reader r(in, cap); size_t p = 0; ops = "cap=" + std::to_string(cap); while (p <= s.size()) { st("read_line", s.size(), p, d); size_t e = s.find(d, p); S w = s.substr(p, e == S::npos ? S::npos : e - p); CHECK(r.read_line(d) == w); p = e == S::npos ? s.size() + 1 : e + 1; } CHECK(r.read_char() == -1); }
template<typename I> static I rnd() { I v = (I)rng.any(); int k = (int)rng.below(6); if (k == 0) v = std::numeric_limits<I>::min(); if (k == 1) v = std::numeric_limits<I>::max(); if (k == 2) v = (I)(std::numeric_limits<I>::min() + (I)rng.below(20)); if (k == 3) v = (I)rng.below(20); if (k == 4) v = (I)(v >> rng.below(8 * sizeof(I))); return v; }
template<typename I> static S dec(I v, int len) { i128 x = v; bool ng = x < 0; if (ng) x = -x; S d; while (x > 0 || (int)d.size() < len) { d.insert(d.begin(), (char)('0' + (int)(x % 10))); x /= 10; } return (ng ? "-" : "") + d; }
template<typename I> static void ints(const char* nm, size_t cap) { std::vector<I> v; for (int i = 0; i < 5; i++) v.push_back(rnd<I>()); S want; sink o; int len = (int)rng.below(3) ? 1 : 1 + (int)rng.below(40); ops = "cap=" + std::to_string(cap); char* mb = nullptr; size_t ms = 0; FILE* f = open_memstream(&mb, &ms);
  { simple_writer w(o, cap); fast_write fw(f, cap); for (I x : v) { st(nm, (i128)x, len); want += dec(x, len); w.template write_integral_number<I>(x, len).write_char(' '); fw.template write_integral_number<I>(x, len).write_char(' '); want += " "; } }
  fclose(f); CHECK(o.s == want); S fs(mb, ms); free(mb); CHECK(fs == want);
  chunks in(want, (int)rng.below(4)); simple_reader r(in, cap); FILE* g = fmemopen((void*)want.data(), want.size(), "r"); fast_read fr(g, cap);
  for (I x : v) { st(nm, (i128)x, len); CHECK(r.template read_integral_number<I>() == x); CHECK(fr.template read_integral_number<I>() == x); } CHECK(r.read_char() == ' ' && r.read_char() == -1 && fr.read_char() == ' ' && fr.read_char() == -1); fclose(g); }
static void named(size_t cap) { int a = rnd<int>(); long b = rnd<long>(); long long c = rnd<long long>(); S t = "x" + std::to_string(rng.below(1000)); sink o; ops = ""; st("streams", a, b, c); char* mb = nullptr; size_t ms = 0; FILE* f = open_memstream(&mb, &ms);
  { simple_writer w(o, cap); simple_writer_stream ws(w); ws << a << ' ' << b << ' ' << c << ' ' << t << ' '; w.write_int(a).write_char(' '); w.write_ll(c).write_char(' '); w.write_string(t.c_str()); fast_write fw(f, cap); fw << a << ' ' << b << ' ' << c << ' ' << t << ' '; fw.write_int(a).write_char(' '); fw.write_ll(c).write_char(' '); fw.write_string(t.c_str()); }
  fclose(f); S u(mb, ms); free(mb); S want = std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c) + " " + t + " " + std::to_string(a) + " " + std::to_string(c) + " " + t; CHECK(o.s == want && u == want);
  chunks in(want, 3); simple_reader r(in, cap); simple_reader_stream rs(r); FILE* g = fmemopen((void*)want.data(), want.size(), "r"); fast_read fr(g, cap); int a2; long b2; long long c2; S t2; rs >> a2 >> b2 >> c2 >> t2; CHECK(a2 == a && b2 == b && c2 == c && t2 == t); CHECK(r.read_int() == a && r.read_ll() == c); CHECK(bool(r) && bool(rs)); fr >> a2 >> b2 >> c2 >> t2; CHECK(a2 == a && b2 == b && c2 == c && t2 == t && fr.read_int() == a && fr.read_ll() == c); char ch; rs >> ch; CHECK(ch == ' '); fr >> ch; CHECK(ch == ' '); fclose(g); }
template<typename W> static void writes(const char* nm, W& w, S& want, size_t cap) { for (int k = 0; k < 12; k++) { S b = bytes(rng.below(3) ? rng.below(5) : rng.below(3 * cap + 4), (int)rng.below(3)); int o = (int)rng.below(4); ops += " " + std::to_string(o) + ":" + std::to_string(b.size()); st(nm, cap, want.size());
    if (o == 0) { if (b.size()) { w.write_char(b[0]); want.push_back(b[0]); } }
    else if (o == 1) { w.write_string(b); want += b; }
    else if (o == 2) { S t(b.c_str()); w.write_string(t.c_str()); want += t; if (rng.below(4) == 0) w.flush(); }
    else { size_t n = 1 + rng.below(cap); size_t a = w.reserve(n + 0); CHECK(a >= n && a == w.available()); char* d = w.data(n); CHECK(d != nullptr); S t(rng.below(n + 1), 'q'); memcpy(d, t.c_str(), t.size() + 1); w.advance(); want += t; } } }
int main(int c, char** v) { init(c, v); rng.s = seed; uint64_t it = 0;
  do { size_t n = it < 60 ? (size_t)it : rng.below(80); size_t cap = 1 + (it % 3 ? rng.below(9) : rng.below(n + 4)); int mx = (int)rng.below(4); it++; S s = bytes(n, (int)rng.below(3));
    if (on("string_reader")) { string_reader r(s.data(), s.size()); plain("string_reader", r, s); S z(s.c_str()); string_reader q(z.c_str()); plain("string_reader0", q, z); }
    if (on("stream_reader")) { std::istringstream is(s); stream_reader r(is); plain("stream_reader", r, s); }
    if (on("file_reader") && n) { FILE* f = fmemopen((void*)s.data(), n, "r"); file_reader r(f); plain("file_reader", r, s); fclose(f); }
    for (int k = 0; k < 4; k++) if (on("buffered_reader")) buffered(s, cap, mx);
    { chunks in(s, mx); simple_reader r(in, cap); ops = "cap=" + std::to_string(cap); tokens("simple_reader", r, s); }
    if (n) { FILE* f = fmemopen((void*)s.data(), n, "r"); fast_read r(f, cap); ops = "cap=" + std::to_string(cap); tokens("fast_read", r, s); fclose(f); }
    if (n) { FILE* f = fmemopen((void*)s.data(), n, "r"); fast_read r(f, cap); size_t p = 0; ops = "cap=" + std::to_string(cap); for (int k = 0; k < 6; k++) { size_t m = rng.below(cap + 1); st("fast_read.data", n, p, m); const char* d = r.data(m); if (m <= n - p) { CHECK(d && memcmp(d, s.data() + p, m) == 0); r.counter() = (int)m; r.advance(); p += m; } else CHECK(!d); CHECK(r.available() <= n - p); } drain(r, s, p); fclose(f); }
    lines(s, cap, mx, rng.below(3) ? '\n' : (char)rng.any());
    { sink o; S want; ops = "cap=" + std::to_string(cap); { simple_writer w(o, cap); writes("simple_writer", w, want, cap); S b = bytes(rng.below(30), 0); w.write(b.data(), b.size()); want += b; if (rng.below(2)) { w.flush(); CHECK(o.s == want); } } st("simple_writer", cap, want.size()); CHECK(o.s == want); }
    { char* mb = nullptr; size_t ms = 0; FILE* f = open_memstream(&mb, &ms); S want; ops = "cap=" + std::to_string(cap); { fast_write w(f, cap); writes("fast_write", w, want, cap); } fclose(f); S got(mb, ms); free(mb); st("fast_write", cap, want.size()); CHECK(got == want); }
    { size_t k = rng.below(n + 3); char b[200]; memset(b, 'x', sizeof b); string_writer w(b, k); ops = ""; st("string_writer", n, k); size_t m = rng.below(n + 1), q = std::min(n, k); w.write(s.data(), m); for (size_t i = m; i < n; i++) if (i + 1 < n && rng.below(3) == 0) { w.write(s.data() + i, 2); i++; } else w.write_char(s[i]); w.flush(); CHECK(memcmp(b, s.data(), q) == 0 && b[q] == 'x'); }
    { std::ostringstream os; { stream_writer w(os); w.write(s.data(), n / 2); for (size_t i = n / 2; i < n; i++) w.write_char((unsigned char)s[i]); } ops = ""; st("stream_writer", n); CHECK(os.str() == s); char* mb = nullptr; size_t ms = 0; FILE* f = open_memstream(&mb, &ms); { file_writer w(f); w.write(s.data(), n / 2); for (size_t i = n / 2; i < n; i++) w.write_char((unsigned char)s[i]); } fclose(f); S got(mb, ms); free(mb); st("file_writer", n); CHECK(got == s); }
    ints<int>("int", cap); ints<long long>("int64", cap); ints<uint64_t>("uint64", cap); ints<unsigned>("uint32", cap); ints<short>("int16", cap); named(cap);
  } while (!timeup()); return done(); }
