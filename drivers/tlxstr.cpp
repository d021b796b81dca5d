// tlx digests, codecs, string and math helpers (C31) against definitions written here. The state of a sequential
// exploration is the input; every input up to the stated length over the stated alphabet is enumerated.
#include <cmath>
#include <climits>
#include <map>
#include <numeric>
#include <sstream>
#include <tlx/digest.hpp>
#include <tlx/siphash.hpp>
#include <tlx/math.hpp>
#include <tlx/math/bswap_be.hpp>
#include <tlx/math/bswap_le.hpp>
#include <tlx/math/polynomial_regression.hpp>
#include <tlx/string.hpp>
#include <tlx/string/appendline.hpp>
#include <tlx/string/ssprintf_generic.hpp>
#include <tlx/string/split_view.hpp>
#include <tlx/string/parse_uri.hpp>
#include <tlx/string/parse_uri_form_data.hpp>
#include "tlxsort.h"
#include "tlxstr_k.h"
int the_workers = 1;
typedef std::vector<string> VS;
static string hex(const string &x) { string r; for (unsigned char c : x) { char b[8]; if (c >= 32 && c < 127) r += c; else { snprintf(b, 8, "\\x%02x", c); r += b; } if (r.size() > 150) { r += "..."; break; } } return r; }
static string show(const VS &v) { string r = "["; for (auto &x : v) r += "'" + hex(x) + "' "; return r + "]"; }
static bool eq(const char *what, const string &in, const string &got, const string &want) { if (got == want) return true; mc::fail("%s of '%s' is '%s', expected '%s'", what, hex(in).c_str(), hex(got).c_str(), hex(want).c_str()); return false; }
static bool eqv(const char *what, const string &in, const VS &got, const VS &want) { if (got == want) return true; mc::fail("%s of '%s' is %s, expected %s", what, hex(in).c_str(), show(got).c_str(), show(want).c_str()); return false; }
static bool eqn(const char *what, const string &in, long got, long want) { if (got == want) return true; mc::fail("%s of '%s' is %ld, expected %ld", what, hex(in).c_str(), got, want); return false; }
// a zero-terminated copy that fills its heap block
struct CS { char *p; CS(const string &x) { p = (char *)malloc(x.size() + 1); memcpy(p, x.data(), x.size()); p[x.size()] = 0; } ~CS() { free(p); } operator const char *() const { return p; } CS(const CS &) = delete; };
struct Bytes { char *p; size_t n; Bytes(const string &x) { n = x.size(); p = (char *)malloc(n ? n : 1); memcpy(p, x.data(), n); } ~Bytes() { free(p); } Bytes(const Bytes &) = delete; };
template <class F> static bool throws(F f) { try { f(); } catch (std::runtime_error &) { return true; } return false; }

// ---------------------------------------------------------------- digests by their definition
static string ref_md(const string &m, int which) {
  int blk = which == 3 ? 128 : 64, lenb = which == 3 ? 16 : 8;
  string x = m; x += (char)0x80; while (x.size() % blk != (size_t)(blk - lenb)) x += '\0';
  uint64_t bits = m.size() * 8;
  if (which == 3) x.append(8, '\0');
  for (int i = 0; i < 8; i++) x += (char)(which == 0 ? bits >> 8 * i : bits >> (56 - 8 * i));
  auto rl = [](uint32_t v, int n) -> uint32_t { return v << n | v >> (32 - n); };
  auto rr = [](uint32_t v, int n) -> uint32_t { return v >> n | v << (32 - n); };
  auto rr64 = [](uint64_t v, int n) -> uint64_t { return v >> n | v << (64 - n); };
  string out;
  if (which <= 1) {
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    for (size_t o = 0; o < x.size(); o += 64) {
      const unsigned char *d = (const unsigned char *)x.data() + o; uint32_t w[80];
      if (which == 0) {
        for (int i = 0; i < 16; i++) w[i] = d[4 * i] | d[4 * i + 1] << 8 | d[4 * i + 2] << 16 | (uint32_t)d[4 * i + 3] << 24;
        uint32_t a = h[0], b = h[1], c = h[2], e = h[3];
        static const int sh[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
        for (int i = 0; i < 64; i++) {
          uint32_t f, g; switch (i / 16) { case 0: f = (b & c) | (~b & e); g = i; break; case 1: f = (e & b) | (~e & c); g = (5 * i + 1) % 16; break; case 2: f = b ^ c ^ e; g = (3 * i + 5) % 16; break; default: f = c ^ (b | ~e); g = 7 * i % 16; }
          static uint32_t k[64]; if (!k[i]) k[i] = (uint32_t)(4294967296.0 * fabs(sin(i + 1.0)));
          uint32_t t = a + f + k[i] + w[g]; a = e; e = c; c = b; b += rl(t, sh[i / 16 * 4 + i % 4]);
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += e;
      } else {
        for (int i = 0; i < 80; i++) w[i] = i < 16 ? (uint32_t)d[4 * i] << 24 | d[4 * i + 1] << 16 | d[4 * i + 2] << 8 | d[4 * i + 3] : rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], e = h[3], f = h[4];
        static const uint32_t k[4] = {0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6};
        for (int i = 0; i < 80; i++) { uint32_t q = i < 20 ? (b & c) | (~b & e) : i < 40 || i >= 60 ? b ^ c ^ e : (b & c) | (b & e) | (c & e); uint32_t t = rl(a, 5) + q + f + k[i / 20] + w[i]; f = e; e = c; c = rl(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += e; h[4] += f;
      }
    }
    for (int i = 0; i < (which ? 5 : 4); i++) for (int j = 0; j < 4; j++) out += (char)(which ? h[i] >> (24 - 8 * j) : h[i] >> 8 * j);
  } else {
    uint64_t h[8]; for (int i = 0; i < 8; i++) h[i] = which == 3 ? H512[i] : H512[i] >> 32;
    int n = which == 3 ? 80 : 64, wb = which == 3 ? 8 : 4;
    for (size_t o = 0; o < x.size(); o += blk) {
      const unsigned char *d = (const unsigned char *)x.data() + o; uint64_t w[80], v[8];
      for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < wb; j++) w[i] = w[i] << 8 | d[wb * i + j]; }
      for (int i = 16; i < n; i++) { uint64_t a = w[i - 15], b = w[i - 2]; if (which == 3) w[i] = w[i - 16] + w[i - 7] + (rr64(a, 1) ^ rr64(a, 8) ^ a >> 7) + (rr64(b, 19) ^ rr64(b, 61) ^ b >> 6); else w[i] = (uint32_t)(w[i - 16] + w[i - 7] + (rr(a, 7) ^ rr(a, 18) ^ (uint32_t)a >> 3) + (rr(b, 17) ^ rr(b, 19) ^ (uint32_t)b >> 10)); }
      for (int i = 0; i < 8; i++) v[i] = h[i];
      for (int i = 0; i < n; i++) {
        uint64_t s1 = which == 3 ? rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41) : rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25), s0 = which == 3 ? rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39) : rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22);
        uint64_t t1 = v[7] + s1 + ((v[4] & v[5]) ^ (~v[4] & v[6])) + (which == 3 ? K512[i] : K512[i] >> 32) + w[i], t2 = s0 + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        if (which != 3) { t1 = (uint32_t)t1; t2 = (uint32_t)t2; }
        for (int j = 7; j > 0; j--) v[j] = v[j - 1];
        v[4] += t1; v[0] = t1 + t2; if (which != 3) { v[4] = (uint32_t)v[4]; v[0] = (uint32_t)v[0]; }
      }
      for (int i = 0; i < 8; i++) { h[i] += v[i]; if (which != 3) h[i] = (uint32_t)h[i]; }
    }
    for (int i = 0; i < 8; i++) for (int j = wb - 1; j >= 0; j--) out += (char)(h[i] >> 8 * j);
  }
  return out;
}
static string hexs(const string &x, bool up) { string r; for (unsigned char c : x) for (int k : {c >> 4, c & 15}) r += (char)(k < 10 ? '0' + k : (up ? 'A' : 'a') + k - 10); return r; }
static const char *dname[] = {"MD5", "SHA1", "SHA256", "SHA512"};
template <class D> static bool digest_of(int w, const string &m, const std::vector<int> &parts, const string &want) {
  D d; size_t at = 0; bool alt = false;
  for (int n : parts) { if (alt) d.process(m.substr(at, n)); else { Bytes b(m.substr(at, n)); d.process(b.p, n); } alt = !alt; at += n; }
  D e = d, f = d; string fin(D::kDigestLength, 0); e.finalize(&fin[0]); string l = e.kDigestLength ? f.digest_hex() : ""; D g = d; string u = g.digest_hex_uc();
  string got = d.digest();
  if (got != want || fin != want) { mc::fail("%s of %zu bytes in %zu pieces (first %d) is %s, expected %s", dname[w], m.size(), parts.size(), parts.empty() ? -1 : parts[0], hexs(got, false).c_str(), hexs(want, false).c_str()); return false; }
  return eq("digest_hex", m, l, hexs(want, false)) && eq("digest_hex_uc", m, u, hexs(want, true));
}
static bool digests(const string &m, const std::vector<int> &parts) {
  string w[4]; for (int i = 0; i < 4; i++) w[i] = ref_md(m, i);
  return digest_of<tlx::MD5>(0, m, parts, w[0]) && digest_of<tlx::SHA1>(1, m, parts, w[1]) && digest_of<tlx::SHA256>(2, m, parts, w[2]) && digest_of<tlx::SHA512>(3, m, parts, w[3]);
}
static uint64_t ref_sip(const string &m, const unsigned char *key) {
  auto rl = [](uint64_t v, int n) { return v << n | v >> (64 - n); };
  auto le = [](const unsigned char *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << 8 * i; return v; };
  uint64_t k0 = le(key, 8), k1 = le(key + 8, 8), a = k0 ^ 0x736f6d6570736575ull, b = k1 ^ 0x646f72616e646f6dull, c = k0 ^ 0x6c7967656e657261ull, d = k1 ^ 0x7465646279746573ull;
  auto round = [&] { a += b; b = rl(b, 13) ^ a; a = rl(a, 32); c += d; d = rl(d, 16) ^ c; a += d; d = rl(d, 21) ^ a; c += b; b = rl(b, 17) ^ c; c = rl(c, 32); };
  const unsigned char *p = (const unsigned char *)m.data();
  for (size_t i = 0; i <= m.size() / 8; i++) { uint64_t w = i < m.size() / 8 ? le(p + 8 * i, 8) : le(p + 8 * i, m.size() % 8) | (uint64_t)(m.size() & 255) << 56; d ^= w; round(); round(); a ^= w; }
  c ^= 255; for (int i = 0; i < 4; i++) round(); return a ^ b ^ c ^ d;
}
static string pattern(int n, int k) { string m; unsigned x = 12345 + k; for (int i = 0; i < n; i++) { x = x * 1103515245 + 12345; m += k == 1 ? '\xff' : (char)(x >> 16); } return m; }
struct DigestParts : In {  // letters: the sizes of the pieces
  std::vector<int> size; int k; DigestParts(const string &nm, std::vector<int> sz, int d, int k) : size(sz), k(k) { fix(nm, (int)sz.size(), d, 2); }
  void run() override { std::vector<int> p; int n = 0; for (int i = 0; i < s->n; i++) { p.push_back(size[s->v[i]]); n += p.back(); } digests(pattern(n, k), p); }
};
struct DigestTwo : In {  // every length up to max in two pieces at every point
  int max; DigestTwo(const string &nm, int max) : max(max) { fix(nm, max + 1, 1, 6); }
  void run() override { if (!s->n) return; int a = s->v[0]; for (int n = a; n <= max; n++) if (n <= 136 || n == max || a % 64 < 2 || a % 64 > 62) if (!digests(pattern(n, 0), {a, n - a})) return; }
};
struct DigestLen : In {  // every length in one go, shortcuts and siphash
  int max, k; DigestLen(const string &nm, int max, int k) : max(max), k(k) { fix(nm, max + 1, 1, 3); }
  void run() override {
    if (!s->n) return; string m = pattern(s->v[0], k); if (!digests(m, {(int)m.size()})) return;
    Bytes b(m); string h[4]; for (int i = 0; i < 4; i++) h[i] = ref_md(m, i);
    if (!eq("md5_hex", m, tlx::md5_hex(b.p, b.n), hexs(h[0], false)) || !eq("md5_hex_uc", m, tlx::md5_hex_uc(m), hexs(h[0], true)) || !eq("md5_hex", m, tlx::md5_hex(m), hexs(h[0], false)) || !eq("md5_hex_uc", m, tlx::md5_hex_uc(b.p, b.n), hexs(h[0], true))) return;
    if (!eq("sha1_hex", m, tlx::sha1_hex(b.p, b.n), hexs(h[1], false)) || !eq("sha1_hex_uc", m, tlx::sha1_hex_uc(m), hexs(h[1], true)) || !eq("sha1_hex", m, tlx::sha1_hex(m), hexs(h[1], false)) || !eq("sha1_hex_uc", m, tlx::sha1_hex_uc(b.p, b.n), hexs(h[1], true))) return;
    if (!eq("sha256_hex", m, tlx::sha256_hex(b.p, b.n), hexs(h[2], false)) || !eq("sha256_hex_uc", m, tlx::sha256_hex_uc(m), hexs(h[2], true)) || !eq("sha256_hex", m, tlx::sha256_hex(m), hexs(h[2], false)) || !eq("sha256_hex_uc", m, tlx::sha256_hex_uc(b.p, b.n), hexs(h[2], true))) return;
    if (!eq("sha512_hex", m, tlx::sha512_hex(b.p, b.n), hexs(h[3], false)) || !eq("sha512_hex_uc", m, tlx::sha512_hex_uc(m), hexs(h[3], true)) || !eq("sha512_hex", m, tlx::sha512_hex(m), hexs(h[3], false)) || !eq("sha512_hex_uc", m, tlx::sha512_hex_uc(b.p, b.n), hexs(h[3], true))) return;
    if (!eq("MD5(data)", m, tlx::MD5(b.p, b.n).digest(), h[0]) || !eq("MD5(string)", m, tlx::MD5(m).digest(), h[0]) || !eq("SHA1(data)", m, tlx::SHA1(b.p, b.n).digest(), h[1]) || !eq("SHA1(string)", m, tlx::SHA1(m).digest(), h[1]) || !eq("SHA256(data)", m, tlx::SHA256(b.p, b.n).digest(), h[2]) || !eq("SHA256(string)", m, tlx::SHA256(m).digest(), h[2]) || !eq("SHA512(data)", m, tlx::SHA512(b.p, b.n).digest(), h[3]) || !eq("SHA512(string)", m, tlx::SHA512(m).digest(), h[3])) return;
    unsigned char key[16], id[16]; for (int i = 0; i < 16; i++) { key[i] = 0xf3 + 37 * i * (k + 1); id[i] = i; }
    uint64_t w = ref_sip(m, key); const uint8_t *q = (const uint8_t *)b.p;
    if (tlx::siphash(key, q, b.n) != w || tlx::siphash_plain(key, q, b.n) != w || tlx::siphash_sse2(key, q, b.n) != w) { mc::fail("siphash of %zu bytes", m.size()); return; }
    w = ref_sip(m, id); if (tlx::siphash(q, b.n) != w || tlx::siphash(m) != w || tlx::siphash(b.p, b.n) != w) { mc::fail("siphash (default key) of %zu bytes", m.size()); return; }
    if (m.size() == 8) { uint64_t v; memcpy(&v, b.p, 8); if (tlx::siphash(v) != w) mc::fail("siphash of a value"); }
  }
};

// ---------------------------------------------------------------- texts: arguments are separated by the last letter
struct Text : In {
  string al; int nargs; bool (*fn)(const VS &);
  Text(const string &nm, const string &al, int nargs, int d, bool (*fn)(const VS &), long w = 2) : al(al), nargs(nargs), fn(fn) { fix(nm, (int)al.size() + (nargs > 1), d, w); }
  string letter_name(int l) override { return l < (int)al.size() ? "'" + hex(string(1, al[l])) + "'" : "next"; }
  void run() override { VS a(1); for (int i = 0; i < s->n; i++) if (s->v[i] == (int)al.size()) { if ((int)a.size() == nargs) return; a.emplace_back(); } else a.back() += al[s->v[i]]; if ((int)a.size() < nargs) { if (s->n && s->v[s->n - 1] == (int)al.size()) ; a.resize(nargs); } fn(a); }
};
struct AllBytes : In { bool (*fn)(const VS &); AllBytes(const string &nm, int d, bool (*fn)(const VS &)) : fn(fn) { fix(nm, 256, d, 3); } void run() override { string x; for (int i = 0; i < s->n; i++) x += (char)s->v[i]; fn({x}); } };

static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string ref_b64(const string &x) { string r; for (size_t i = 0; i < x.size(); i += 3) { unsigned v = 0; size_t n = std::min<size_t>(3, x.size() - i); for (size_t k = 0; k < 3; k++) v = v << 8 | (k < n ? (unsigned char)x[i + k] : 0); for (size_t k = 0; k < 4; k++) r += k <= n ? b64[v >> (18 - 6 * k) & 63] : '='; } return r; }
static bool f_codec(const VS &a) {
  const string &x = a[0]; Bytes b(x);
  string e = tlx::base64_encode(b.p, b.n); if (!eq("base64_encode", x, e, ref_b64(x)) || !eq("base64_encode(string)", x, tlx::base64_encode(x), e)) return false;
  { Bytes eb(e); if (!eq("base64_decode", e, tlx::base64_decode(eb.p, eb.n), x) || !eq("base64_decode", e, tlx::base64_decode(e, false), x)) return false; }
  for (int lb0 : {4, 8, 12, 76, 5, 9}) { int lb = (lb0 + 3) / 4 * 4; string l = tlx::base64_encode(x, lb0), f; size_t run = 0; for (char c : l) { if (c == '\n') { if (run != (size_t)lb) { mc::fail("base64_encode breaks a line after %zu of %d characters", run, lb); return false; } run = 0; } else { f += c; if (++run > (size_t)lb) { mc::fail("base64_encode line longer than %d", lb); return false; } } } if (!eq("base64_encode with lines", x, f, e) || !eq("base64_decode with lines", l, tlx::base64_decode(l), x)) return false; }
  string h = hexs(x, true), l = hexs(x, false); std::vector<char> vc(x.begin(), x.end()); std::vector<uint8_t> vu(x.begin(), x.end());
  if (!eq("hexdump", x, tlx::hexdump(b.p, b.n), h) || !eq("hexdump", x, tlx::hexdump(x), h) || !eq("hexdump", x, tlx::hexdump(vc), h) || !eq("hexdump", x, tlx::hexdump(vu), h)) return false;
  if (!eq("hexdump_lc", x, tlx::hexdump_lc(b.p, b.n), l) || !eq("hexdump_lc", x, tlx::hexdump_lc(x), l) || !eq("hexdump_lc", x, tlx::hexdump_lc(vc), l) || !eq("hexdump_lc", x, tlx::hexdump_lc(vu), l)) return false;
  if (!eq("parse_hexdump", h, tlx::parse_hexdump(h), x) || !eq("parse_hexdump", l, tlx::parse_hexdump(l), x)) return false;
  string sc = tlx::hexdump_sourcecode(x, "v"), back; for (size_t p = 0; (p = sc.find("0x", p)) != string::npos; p += 4) back += (char)strtol(sc.substr(p, 4).c_str(), 0, 16);
  if (!eq("hexdump_sourcecode", x, back, x) || sc.find("v[" + std::to_string(x.size()) + "]") == string::npos) { mc::fail("hexdump_sourcecode of '%s': %s", hex(x).c_str(), sc.c_str()); return false; }
  string m, n; for (size_t i = 0; i < x.size(); i++) { if (i) m += ' ', n += ' '; for (int k = 0; k < 8; k++) m += '0' + ((unsigned char)x[i] >> (7 - k) & 1), n += '0' + ((unsigned char)x[i] >> k & 1); }
  try { if (!eq("bitdump_8_msb", x, tlx::bitdump_8_msb(b.p, b.n), m) || !eq("bitdump_8_lsb", x, tlx::bitdump_8_lsb(x), n) || !eq("bitdump_le8", x, tlx::bitdump_le8(x), m) || !eq("bitdump_be8", x, tlx::bitdump_be8(b.p, b.n), n)) return false; } catch (std::exception &ex) { mc::fail("bitdump of '%s' throws %s", hex(x).c_str(), ex.what()); return false; }
  string u; for (char c : x) if (isalnum((unsigned char)c) || (c && strchr("-_.~", c))) u += c; else { u += '%'; u += hexs(string(1, c), true); }
  if (!eq("escape_uri", x, tlx::escape_uri(x), u)) return false;
  string html; for (char c : x) html += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : string(1, c);
  if (!eq("escape_html", x, tlx::escape_html(x), html)) return false;
  if (x.find('\0') == string::npos) { CS c(x), cu(u); if (!eq("escape_uri(char*)", x, tlx::escape_uri(c), u) || !eq("escape_html(char*)", x, tlx::escape_html(c), html) || !eq("decoding escape_uri", u, tlx::parse_uri_form_data_decode(cu), x)) return false; }
  uint32_t d = 5381, sd = 0; for (unsigned char c : x) { d = d * 33 + c; sd = c + sd * 65599; }
  if (!eqn("hash_djb2", x, tlx::hash_djb2(x), d) || !eqn("hash_djb2", x, tlx::hash_djb2(b.p, b.n), d) || !eqn("hash_sdbm", x, tlx::hash_sdbm(x), sd) || !eqn("hash_sdbm", x, tlx::hash_sdbm(b.p, b.n), sd)) return false;
  if (x.find('\0') == string::npos) { CS c(x); if (!eqn("hash_djb2(char*)", x, tlx::hash_djb2((const char *)c), d) || !eqn("hash_sdbm(char*)", x, tlx::hash_sdbm((const char *)c), sd)) return false; }
  string lo, up; for (char c : x) lo += c >= 'A' && c <= 'Z' ? c + 32 : c, up += c >= 'a' && c <= 'z' ? c - 32 : c;
  string t = x; if (!eq("to_lower", x, tlx::to_lower(x), lo) || !eq("to_upper", x, tlx::to_upper(x), up) || !eq("to_lower in place", x, tlx::to_lower(&t), lo) || !eq("to_upper in place", x, tlx::to_upper(&t), up)) return false;
  long pc = 0; for (unsigned char c : x) pc += __builtin_popcount(c); return eqn("popcount of bytes", x, tlx::popcount((const void *)b.p, b.n), pc);
}
static bool f_b64dec(const VS &a) {
  const string &x = a[0]; string data; bool bad = false; for (char c : x) { const char *q = c ? strchr(b64, c) : nullptr; if (q) data += c; else if (!strchr(" \n\r\t=", c) || !c) bad = true; }
  string want; unsigned acc = 0; int n = 0; for (char c : data) { acc = acc << 6 | (unsigned)(strchr(b64, c) - b64); n += 6; if (n >= 8) { n -= 8; want += (char)(acc >> n); acc &= (1u << n) - 1; } }
  if (!eq("base64_decode (not strict)", x, tlx::base64_decode(x, false), want)) return false;
  bool t = throws([&] { string r = tlx::base64_decode(x); eq("base64_decode", x, r, want); }); return eqn("base64_decode throws", x, t, bad);
}
static bool f_hexparse(const VS &a) {
  const string &x = a[0]; bool bad = x.size() % 2; string want; for (char c : x) if (!isxdigit((unsigned char)c)) bad = true;
  if (!bad) for (size_t i = 0; i < x.size(); i += 2) want += (char)strtol(x.substr(i, 2).c_str(), 0, 16);
  string r; bool t = throws([&] { r = tlx::parse_hexdump(x); }); return eqn("parse_hexdump throws", x, t, bad) && (bad || eq("parse_hexdump", x, r, want));
}
// split and join
static VS ref_split(const string &sep, const string &x, size_t limit) { VS r; if (!limit) return r; size_t last = 0; for (;;) { size_t p = x.find(sep, last); if (p == string::npos || r.size() + 1 >= limit) { r.push_back(x.substr(last)); return r; } r.push_back(x.substr(last, p - last)); last = p + sep.size(); } }
static bool f_split(const VS &a) {
  const string &sep = a[0], &x = a[1];
  for (size_t lim : {(size_t)-1, (size_t)0, (size_t)1, (size_t)2, (size_t)3}) {
    VS w; if (sep.empty()) { if (lim != (size_t)-1) continue; for (char c : x) w.push_back(string(1, c)); } else w = ref_split(sep, x, lim);
    string in = sep + "|" + x + "|" + std::to_string((long)lim); VS into{"old"}; CS cs(sep);
    if (!eqv("split", in, tlx::split(sep, x, lim), w) || !eqv("split(char*)", in, tlx::split((const char *)cs, x, lim), w) || !eqv("split into", in, tlx::split(&into, sep, x, lim), w) || !eqv("split into(char*)", in, tlx::split(&into, (const char *)cs, x, lim), w)) return false;
    if (sep.size() == 1 && (!eqv("split(char)", in, tlx::split(sep[0], x, lim), w) || !eqv("split into(char)", in, tlx::split(&into, sep[0], x, lim), w))) return false;
    for (size_t mf : {0, 1, 3}) { VS m = w; if (m.size() < mf) m.resize(mf); if (!eqv("split min_fields", in, tlx::split(sep, x, mf, lim), m) || !eqv("split min_fields", in, tlx::split((const char *)cs, x, mf, lim), m) || !eqv("split min_fields", in, tlx::split(&into, sep, x, mf, lim), m) || !eqv("split min_fields", in, tlx::split(&into, (const char *)cs, x, mf, lim), m)) return false; if (sep.size() == 1 && (!eqv("split min_fields(char)", in, tlx::split(sep[0], x, mf, lim), m) || !eqv("split min_fields(char)", in, tlx::split(&into, sep[0], x, mf, lim), m))) return false; }
    if (sep.size() == 1 && lim == (size_t)-1) { VS v; tlx::split_view(sep[0], x, [&](const tlx::StringView &sv) { v.push_back(string(sv.begin(), sv.end())); }); if (!eqv("split_view", in, v, w)) return false; }
    if (lim && !sep.empty()) { if (!eq("join of split", in, tlx::join(sep, w), x) || !eq("join of split(char*)", in, tlx::join((const char *)cs, w), x)) return false; if (sep.size() == 1 && !eq("join of split(char)", in, tlx::join(sep[0], w), x)) return false; std::stack<string>(); if (!eq("join of a range", in, tlx::join(sep, w.begin(), w.end()), x)) return false; }
  }
  return true;
}
static const string WS = " \r\n\t";
static bool f_words(const VS &a) {
  const string &x = a[0]; auto ws = [](char c) { return WS.find(c) != string::npos; };
  VS w; string cur; for (char c : x + " ") if (ws(c)) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c;
  if (!eqv("split_words", x, tlx::split_words(x), w) || !eqv("split_words limit 0", x, tlx::split_words(x, 0), VS())) return false;
  for (size_t lim = 1; lim <= 3; lim++) { VS g = tlx::split_words(x, lim), p = w; if (w.size() > lim) { p.resize(lim); size_t at = 0; for (size_t i = 0; i + 1 < lim; i++) at = x.find(w[i], at) + w[i].size(); while (at < x.size() && ws(x[at])) at++; /* the rest of the text */ string rest = x.substr(at); if (g.size() != lim || tlx::trim(g.back()) != tlx::trim(rest)) { mc::fail("split_words('%s', %zu) = %s", hex(x).c_str(), lim, show(g).c_str()); return false; } g.back() = p.back(); } else if (w.size() == lim && g.size() == lim) { if (tlx::trim(g.back()) != p.back()) { mc::fail("split_words('%s', %zu) = %s", hex(x).c_str(), lim, show(g).c_str()); return false; } g.back() = p.back(); } if (!eqv("split_words with limit", x, g, p)) return false; }
  // trimming
  for (const string &drop : {WS, string("a"), string("a "), string("")}) {
    size_t b = 0, e = x.size(); while (b < e && drop.find(x[b]) != string::npos) b++; string l = x.substr(b); while (e > b && drop.find(x[e - 1]) != string::npos) e--; string t = x.substr(b, e - b); size_t e2 = x.size(); while (e2 && drop.find(x[e2 - 1]) != string::npos) e2--; string r = x.substr(0, e2);
    string in = x + "|" + drop; const char *d = drop.c_str(); string y;
    if (!eq("trim", in, tlx::trim(x, d), t) || !eq("trim", in, tlx::trim(x, drop), t) || !eq("trim in place", in, (y = x, tlx::trim(&y, d)), t) || !eq("trim in place", in, (y = x, tlx::trim(&y, drop)), t)) return false;
    if (!eq("trim_left", in, tlx::trim_left(x, d), l) || !eq("trim_left", in, tlx::trim_left(x, drop), l) || !eq("trim_left in place", in, (y = x, tlx::trim_left(&y, d)), l) || !eq("trim_left in place", in, (y = x, tlx::trim_left(&y, drop)), l)) return false;
    if (!eq("trim_right", in, tlx::trim_right(x, d), r) || !eq("trim_right", in, tlx::trim_right(x, drop), r) || !eq("trim_right in place", in, (y = x, tlx::trim_right(&y, d)), r) || !eq("trim_right in place", in, (y = x, tlx::trim_right(&y, drop)), r)) return false;
    if (drop == WS && (!eq("trim", x, tlx::trim(x), t) || !eq("trim_left", x, tlx::trim_left(x), l) || !eq("trim_right", x, tlx::trim_right(x), r) || !eq("trim in place", x, (y = x, tlx::trim(&y)), t) || !eq("trim_left in place", x, (y = x, tlx::trim_left(&y)), l) || !eq("trim_right in place", x, (y = x, tlx::trim_right(&y)), r))) return false;
    string g; for (char c : x) if (drop.find(c) == string::npos) g += c;
    if (!eq("erase_all", in, tlx::erase_all(x, d), g) || !eq("erase_all", in, tlx::erase_all(x, drop), g) || !eq("erase_all in place", in, (y = x, tlx::erase_all(&y, d)), g) || !eq("erase_all in place", in, (y = x, tlx::erase_all(&y, drop)), g)) return false;
    if (drop.size() == 1 && (!eq("erase_all(char)", in, tlx::erase_all(x, drop[0]), g) || !eq("erase_all(char) in place", in, (y = x, tlx::erase_all(&y, drop[0])), g))) return false;
  }
  // lines
  for (size_t cap : {0, 1, 20}) { string acc; if (cap) acc.reserve(cap); std::istringstream is(x); VS got, want; string line; std::istringstream ref(x); while (std::getline(ref, line)) want.push_back(line); for (;;) { string l = cap == 1 ? string("0123456789abcde") : ""; if (cap == 20) l.reserve(20); string pre = l; if (!tlx::appendline(is, l)) break; if (l.compare(0, pre.size(), pre)) { mc::fail("appendline changed what was there"); return false; } got.push_back(l.substr(pre.size())); if (got.size() > 20) break; } if (!eqv("appendline", x, got, want)) return false; }
  for (size_t n = 0; n <= x.size() + 2; n++) { string p = x.substr(0, n); while (p.size() < n) p += '.'; if (!eq("pad", x, tlx::pad(x, n, '.'), p)) return false; }
  for (unsigned wrap : {1u, 2u, 3u, 5u}) { string y = tlx::word_wrap(x, wrap); if (y.size() != x.size()) { mc::fail("word_wrap changes the length of '%s'", hex(x).c_str()); return false; } for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i] && !(ws(x[i]) && y[i] == '\n')) { mc::fail("word_wrap('%s', %u) = '%s'", hex(x).c_str(), wrap, hex(y).c_str()); return false; } size_t p = 0; while (p <= y.size()) { size_t q = y.find('\n', p); if (q == string::npos) q = y.size(); string ln = y.substr(p, q - p); if (ln.size() > wrap + 1 && ln.substr(0, ln.size() - 1).find_first_of(" \t\r") != string::npos && ln.substr(0, wrap).find_first_of(" \t\r") != string::npos) { mc::fail("word_wrap('%s', %u) keeps the line '%s'", hex(x).c_str(), wrap, hex(ln).c_str()); return false; } p = q + 1; } }
  return true;
}
static VS words_of(const string &x) { VS w; string cur; for (char c : x + " ") if (WS.find(c) != string::npos) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; return w; }
static bool f_contains_word(const VS &a) {
  const string &x = a[0], &w = a[1]; VS ws = words_of(x); CS cw(w);
  if (w.find_first_of(WS) == string::npos) { bool want = w.empty() || std::find(ws.begin(), ws.end(), w) != ws.end(); if (!eqn("contains_word", x + "|" + w, tlx::contains_word(x, w), want) || !eqn("contains_word(char*)", x + "|" + w, tlx::contains_word(x, (const char *)cw), want)) return false; }
  string u = tlx::union_words(x, w); VS all = words_of(x); for (auto &k : words_of(w)) if (std::find(all.begin(), all.end(), k) == all.end()) all.push_back(k);
  if (u.compare(0, x.size(), x)) { mc::fail("union_words('%s', '%s') = '%s'", hex(x).c_str(), hex(w).c_str(), hex(u).c_str()); return false; } return eqv("union_words", x + "|" + w, words_of(u), all);
}
// join_quoted is the opposite of split_quoted
static bool f_quoted(const VS &a) {
  VS list; string cur; for (char c : a[0]) if (c == ',') { list.push_back(cur); cur.clear(); } else cur += c; if (!a[0].empty()) list.push_back(cur);
  for (int k = 0; k < 2; k++) { string j = k ? tlx::join_quoted(list, ';', '\'', '/') : tlx::join_quoted(list); VS b; try { b = k ? tlx::split_quoted(j, ';', '\'', '/') : tlx::split_quoted(j); } catch (std::exception &e) { mc::fail("split_quoted of join_quoted %s = '%s' throws %s", show(list).c_str(), hex(j).c_str(), e.what()); return false; } if (b != list) { mc::fail("join_quoted %s = '%s', split_quoted gives %s", show(list).c_str(), hex(j).c_str(), show(b).c_str()); return false; } }
  return true;
}
static bool f_split_quoted(const VS &a) {
  const string &x = a[0]; VS want; bool bad = false; size_t i = 0;
  while (i < x.size() && !bad) {
    if (x[i] == ' ') { i++; continue; } string e;
    if (x[i] != '"') { while (i < x.size() && x[i] != ' ') e += x[i++]; want.push_back(e); i++; continue; }
    for (i++;; i++) { if (i >= x.size()) { bad = true; break; } if (x[i] == '"') break; if (x[i] == '\\') { if (++i >= x.size()) { bad = true; break; } char c = x[i]; if (c == 'n') c = '\n'; else if (c != '"' && c != '\\') { bad = true; break; } e += c; } else e += x[i]; }
    if (bad) break; i++; if (i < x.size() && x[i] != ' ') bad = true; else { want.push_back(e); i++; }
  }
  VS got; bool t = throws([&] { got = tlx::split_quoted(x); }); return eqn("split_quoted throws", x, t, bad) && (bad || eqv("split_quoted", x, got, want));
}
static string low(const string &x) { string r; for (char c : x) r += c >= 'A' && c <= 'Z' ? c + 32 : c; return r; }
static int sg(int x) { return (x > 0) - (x < 0); }
static size_t ref_lev(const string &a, const string &b, size_t id, size_t rep, bool ic) { std::vector<std::vector<size_t>> d(a.size() + 1, std::vector<size_t>(b.size() + 1)); for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j++) if (!i || !j) d[i][j] = (i + j) * id; else { bool same = ic ? low(a.substr(i - 1, 1)) == low(b.substr(j - 1, 1)) : a[i - 1] == b[j - 1]; d[i][j] = std::min({d[i - 1][j] + id, d[i][j - 1] + id, d[i - 1][j - 1] + (same ? 0 : rep)}); } return d[a.size()][b.size()]; }
struct LevCost { static const unsigned int cost_insert_delete = 2; static const unsigned int cost_replace = 3; static bool char_equal(const char &a, const char &b) { return a == b; } };
static bool f_pair(const VS &a) {
  const string &x = a[0], &y = a[1]; string lx = low(x), ly = low(y), in = x + "|" + y; CS cx(x), cy(y); const char *p = cx, *q = cy;
  bool sw = x.compare(0, y.size(), y) == 0 && x.size() >= y.size(), ew = x.size() >= y.size() && x.substr(x.size() - y.size()) == y, swi = lx.substr(0, y.size()) == ly, ewi = x.size() >= y.size() && lx.substr(x.size() - y.size()) == ly;
#define FOUR(f, w) (eqn(#f, in, f(x, y), w) && eqn(#f "(char*)", in, f(p, q), w) && eqn(#f "(char*,)", in, f(p, y), w) && eqn(#f "(,char*)", in, f(x, q), w))
  if (!FOUR(tlx::starts_with, sw) || !FOUR(tlx::ends_with, ew) || !FOUR(tlx::starts_with_icase, swi) || !FOUR(tlx::ends_with_icase, ewi)) return false;
  if (!eqn("contains", in, tlx::contains(x, y), x.find(y) != string::npos) || !eqn("contains", in, tlx::contains(x, q), x.find(y) != string::npos)) return false; if (y.size() == 1 && !eqn("contains(char)", in, tlx::contains(x, y[0]), x.find(y) != string::npos)) return false;
  int c = lx.compare(ly); bool e = lx == ly, l = lx < ly;
#define SG(f) [&](auto u, auto v) { return sg(f(u, v)); }
  auto cmp = SG(tlx::compare_icase);
  if (!FOUR(tlx::equal_icase, e) || !FOUR(tlx::less_icase, l) || !FOUR(cmp, sg(c))) return false;
  if (!eqn("less_icase_asc", in, tlx::less_icase_asc()(x, y), l) || !eqn("less_icase_desc", in, tlx::less_icase_desc()(x, y), ly < lx)) return false;
  if (!eqn("levenshtein", in, tlx::levenshtein(x, y), ref_lev(x, y, 1, 1, false)) || !eqn("levenshtein", in, tlx::levenshtein(p, q), ref_lev(x, y, 1, 1, false)) || !eqn("levenshtein_icase", in, tlx::levenshtein_icase(x, y), ref_lev(x, y, 1, 1, true)) || !eqn("levenshtein_icase", in, tlx::levenshtein_icase(p, q), ref_lev(x, y, 1, 1, true))) return false;
  size_t g = tlx::levenshtein_algorithm<LevCost>(x.data(), x.size(), y.data(), y.size()); if (!eqn("levenshtein with costs 2 and 3", in, g, ref_lev(x, y, 2, 3, false))) return false;
  VS list{"a", "B", x, "ab"}; for (int ic = 0; ic < 2; ic++) for (int cs = 0; cs < 2; cs++) { size_t want = 4; for (size_t i = 0; i < 4 && want == 4; i++) if (ic ? low(list[i]) == ly : list[i] == y) want = i; size_t got = 4; throws([&] { got = ic ? cs ? tlx::index_of_icase(list, q) : tlx::index_of_icase(list, y) : cs ? tlx::index_of(list, q) : tlx::index_of(list, y); }); if (!eqn(ic ? "index_of_icase" : "index_of", in, got, want)) return false; }
  return true;
}
static bool f_replace(const VS &a) {
  const string &x = a[0], &n = a[1], &w = a[2]; if (n.empty()) return true; string in = x + "|" + n + "|" + w, y; CS cn(n), cw(w); const char *p = cn, *q = cw;
  string f = x, all; size_t k = f.find(n); if (k != string::npos) f.replace(k, n.size(), w);
  for (size_t i = 0; i < x.size();) if (x.compare(i, n.size(), n) == 0) all += w, i += n.size(); else all += x[i++];
#define REP(fn, want) (eq(#fn, in, fn(x, n, w), want) && eq(#fn, in, fn(x, n, q), want) && eq(#fn, in, fn(x, p, w), want) && eq(#fn, in, fn(x, p, q), want) && eq(#fn " in place", in, (y = x, fn(&y, n, w)), want) && eq(#fn " in place", in, (y = x, fn(&y, n, q)), want) && eq(#fn " in place", in, (y = x, fn(&y, p, w)), want) && eq(#fn " in place", in, (y = x, fn(&y, p, q)), want))
  if (!REP(tlx::replace_first, f) || !REP(tlx::replace_all, all)) return false;
  if (n.size() == 1 && w.size() == 1 && (!eq("replace_first(char)", in, tlx::replace_first(x, n[0], w[0]), f) || !eq("replace_all(char)", in, tlx::replace_all(x, n[0], w[0]), all) || !eq("replace_first(char) in place", in, (y = x, tlx::replace_first(&y, n[0], w[0])), f) || !eq("replace_all(char) in place", in, (y = x, tlx::replace_all(&y, n[0], w[0])), all))) return false;
  string eb; size_t s1 = x.find(n); if (s1 != string::npos) { s1 += n.size(); size_t s2 = x.find(w, s1); if (s2 != string::npos) eb = x.substr(s1, s2 - s1); }
  return eq("extract_between", in, tlx::extract_between(x, n, w), eb) && eq("extract_between", in, tlx::extract_between(x, n, q), eb) && eq("extract_between", in, tlx::extract_between(x, p, w), eb) && eq("extract_between", in, tlx::extract_between(x, p, q), eb);
}
static string ref_decode(const string &x) { string r; for (size_t i = 0; i < x.size(); i++) if (x[i] == '%' && i + 2 < x.size() && isxdigit((unsigned char)x[i + 1]) && isxdigit((unsigned char)x[i + 2])) { r += (char)strtol(x.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += x[i] == '+' ? ' ' : x[i]; return r; }
static bool f_form(const VS &a) {
  const string &x = a[0]; VS k, v, wk, wv; size_t i = 0;
  while (i < x.size()) { size_t e = x.find('=', i); if (e == i) break; if (e == string::npos) { wk.push_back(ref_decode(x.substr(i))); wv.push_back(""); break; } size_t f = x.find('&', e + 1); if (f == string::npos) f = x.size(); wk.push_back(ref_decode(x.substr(i, e - i))); wv.push_back(ref_decode(x.substr(e + 1, f - e - 1))); i = f + 1; }
  CS c(x); tlx::parse_uri_form_data((const char *)c, &k, &v); if (!eqv("keys of parse_uri_form_data", x, k, wk) || !eqv("values of parse_uri_form_data", x, v, wv)) return false;
  tlx::parse_uri_form_data(x, &k, &v); if (!eqv("keys of parse_uri_form_data", x, k, wk) || !eqv("values of parse_uri_form_data", x, v, wv)) return false;
  return eq("parse_uri_form_data_decode", x, tlx::parse_uri_form_data_decode(c), ref_decode(x));
}
static bool f_uri(const VS &a) {
  const string &x = a[0]; CS c(x); string rest = x, fr, q; size_t h = rest.find('#'); if (h != string::npos) { fr = rest.substr(h + 1); rest = rest.substr(0, h); } size_t m = rest.find('?'); if (m != string::npos) { q = rest.substr(m + 1); rest = rest.substr(0, m); }
  tlx::string_view p, qs, f; tlx::parse_uri((const char *)c, &p, &qs, &f); auto st = [](const tlx::string_view &v) { return string(v.data(), v.size()); };
  return eq("path of parse_uri", x, st(p), rest) && eq("query of parse_uri", x, st(qs), q) && eq("fragment of parse_uri", x, st(f), fr);
}
static bool f_env(const VS &a) {
  const string &x = a[0]; string w; auto id = [](char c) { return isalnum((unsigned char)c) || c == '_'; }; auto val = [](const string &n) { return n == "A" ? string("x") : n == "AA" ? string("${A}$A") : n == "A_" ? string("") : getenv(n.c_str()) ? string(getenv(n.c_str())) : string(); };
  for (size_t i = 0; i < x.size();) { if (x[i] != '$' || i + 1 >= x.size()) { w += x[i++]; continue; } if (x[i + 1] == '{') { size_t e = x.find('}', i + 2); if (e == string::npos) { w += x[i++]; continue; } w += val(x.substr(i + 2, e - i - 2)); i = e + 1; } else if (isalpha((unsigned char)x[i + 1]) || x[i + 1] == '_') { size_t e = i + 1; while (e < x.size() && id(x[e])) e++; w += val(x.substr(i + 1, e - i - 1)); i = e; } else w += x[i++]; }
  string y = x; return eq("expand_environment_variables", x, tlx::expand_environment_variables(x), w) && eq("expand_environment_variables in place", x, tlx::expand_environment_variables(&y), w) && eq("expand_environment_variables(char*)", x, tlx::expand_environment_variables(x.c_str()), w);
}
static bool f_units(const VS &a) {  // digits, unit, i, b
  const string &x = a[0]; size_t i = 0; unsigned long n = 0; while (i < x.size() && isdigit((unsigned char)x[i])) n = n * 10 + (x[i++] - '0'); if (!i) return true;
  while (i < x.size() && x[i] == ' ') i++; string un = "kmgtp"; size_t pw = i < x.size() ? un.find(low(x.substr(i, 1))) : string::npos; unsigned power = 0; unsigned long base = 1000; if (i < x.size() && pw != string::npos) { power = (unsigned)pw + 1; i++; if (i < x.size() && low(x.substr(i, 1)) == "i") { base = 1024; i++; } }
  bool b = i < x.size() && low(x.substr(i, 1)) == "b"; if (b) i++; while (i < x.size() && x[i] == ' ') i++; bool ok = i == x.size();
  for (char du : {'\0', 'k', 'K', 'm', 'M', 'g', 'G', 't', 'T', 'p', 'P'}) { unsigned p = power; unsigned long bs = base; if (!p && !b && du) { p = (unsigned)un.find(low(string(1, du))) + 1; bs = isupper(du) ? 1024 : 1000; } unsigned long w = n; for (unsigned k = 0; k < p; k++) w *= bs; uint64_t g = 0; string in = x + "|" + string(1, du ? du : '0'); if (!eqn("parse_si_iec_units accepts", in, tlx::parse_si_iec_units(x, &g, du), ok)) return false; if (ok && !eqn("parse_si_iec_units", in, g, w)) return false; }
  return true;
}
// printf into strings of every length around the internal buffer
struct Printf : In {
  Printf(const string &nm) { fix(nm, 300, 1); }
  void run() override {
    if (!s->n) return; int n = s->v[0]; string x = pattern(n, 0); for (char &c : x) c = 'a' + (c & 15); string w = x + "-" + std::to_string(n) + "-" + x.substr(0, n / 3);
    if (!eq("ssprintf", x, tlx::ssprintf("%s-%d-%s", x.c_str(), n, x.substr(0, n / 3).c_str()), w) || !eq("ssprintf_generic", x, tlx::ssprintf_generic<string>("%s-%d-%s", x.c_str(), n, x.substr(0, n / 3).c_str()), w)) return;
    for (size_t m : {0, 1, 5, 126, 127, 128, 129, 200}) if (!eq("ssnprintf", x, tlx::ssnprintf(m, "%s-%d-%s", x.c_str(), n, x.substr(0, n / 3).c_str()), w.substr(0, m)) || !eq("ssnprintf_generic", x, tlx::ssnprintf_generic<string>(m, "%s-%d-%s", x.c_str(), n, x.substr(0, n / 3).c_str()), w.substr(0, m))) return;
  }
};
// ---------------------------------------------------------------- numbers
static uint64_t num(int l) { if (l < 600) { int k = l / 9, d = l % 9 - 4; return (k < 64 ? 1ull << k : 0) + d; } if (l < 1200) { int k = (l - 600) % 64, d = (l - 600) / 64; return (0x0123456789abcdefull * (2 * d + 1)) >> k; } return l - 1200; }
template <class U> static bool f_int(U u) {
  typedef std::make_signed_t<U> S; typedef unsigned __int128 W; string in = std::to_string(u); const int B = 8 * sizeof(U);
  int pop = 0, lead = B, trail = B; for (int i = 0; i < B; i++) if (u >> i & 1) { pop++; lead = B - 1 - i; if (trail == B) trail = i; } int ffs = trail == B ? 0 : trail + 1; bool p2 = pop == 1;
  W up = 1; while (up < u) up <<= 1; W dn = 1; while (dn * 2 <= u) dn *= 2; int lf = u ? B - 1 - lead : 0, lc = 0; while (((W)1 << lc) < u) lc++;
#define N(f, want) if (!eqn(#f, in, (long)(f), (long)(want))) return false;
  N(tlx::popcount(u), pop) N(tlx::popcount((S)u), pop) N(tlx::popcount_generic64(u), pop) if (B == 32) N(tlx::popcount_generic32(u), pop)
  N(tlx::popcount_generic16((uint16_t)u), __builtin_popcount((uint16_t)u)) N(tlx::popcount_generic8((uint8_t)u), __builtin_popcount((uint8_t)u))
  N(tlx::clz(u), lead) N(tlx::clz((S)u), lead) N(tlx::clz_template(u), lead) N(tlx::ctz(u), trail) N(tlx::ctz((S)u), trail) N(tlx::ctz_template(u), trail) N(tlx::ffs(u), ffs) N(tlx::ffs((S)u), ffs) N(tlx::ffs_template(u), ffs)
  N(tlx::is_power_of_two(u), p2) N(tlx::is_power_of_two((S)u), p2 && (S)u > 0)
  if (!(up >> B)) N(tlx::round_up_to_power_of_two(u), u ? (U)up : 0) if ((S)u > 0 && !(up >> (B - 1))) N(tlx::round_up_to_power_of_two((S)u), up)
  if (u) N(tlx::round_down_to_power_of_two(u), dn) if ((S)u > 0) N(tlx::round_down_to_power_of_two((S)u), dn)
  N(tlx::integer_log2_floor(u), lf) N(tlx::integer_log2_floor_template(u), lf) if ((S)u > 0) { N(tlx::integer_log2_floor((S)u), lf) N(tlx::integer_log2_ceil((S)u), lc) } if (u) N(tlx::integer_log2_ceil(u), lc)
  N(tlx::sgn((S)u), (S)u > 0 ? 1 : (S)u < 0 ? -1 : 0) N(tlx::sgn(u), u ? 1 : 0)
  N(tlx::power_to_the<0>(u), 1) N(tlx::power_to_the<1>(u), u) N(tlx::power_to_the<2>(u), u * u) N(tlx::power_to_the<3>(u), u * u * u) N(tlx::power_to_the<5>(u), u * u * u * u * u) N(tlx::power_to_the<7>(u), u * u * u * u * u * u * u)
  for (U k : {(U)1, (U)2, (U)3, (U)7, (U)64, (U)100}) if (u <= (U)-1 - k) { N(tlx::div_ceil(u, k), u / k + (u % k != 0)) if (u <= (U)-1 - 2 * k) N(tlx::round_up(u, k), (u / k + (u % k != 0)) * k) }
  for (U k : {(U)0, (U)1, (U)(u / 2), (U)-1, (U)(u + 1)}) N(tlx::abs_diff(u, k), u > k ? u - k : k - u)
  return true;
}
struct Numbers : In {
  Numbers(const string &nm, int n) { fix(nm, n, 1); }
  void run() override {
    if (!s->n) return; uint64_t u = num(s->v[0]); uint32_t h = (uint32_t)u; string in = std::to_string(u);
    if (!f_int<unsigned long>(u) || !f_int<unsigned long long>(u) || !f_int<unsigned>(h)) return;
    for (int i = 0; i <= 64; i++) { uint64_t l = i % 64 ? u << i % 64 | u >> (64 - i % 64) : u, r = i % 64 ? u >> i % 64 | u << (64 - i % 64) : u; uint32_t l2 = i % 32 ? h << i % 32 | h >> (32 - i % 32) : h, r2 = i % 32 ? h >> i % 32 | h << (32 - i % 32) : h; if (tlx::rol64(u, i) != l || tlx::rol64_generic(u, i) != l || tlx::ror64(u, i) != r || tlx::ror64_generic(u, i) != r || tlx::rol32(h, i) != l2 || tlx::rol32_generic(h, i) != l2 || tlx::ror32(h, i) != r2 || tlx::ror32_generic(h, i) != r2) { mc::fail("rotating %s by %d", in.c_str(), i); return; } }
    uint64_t s8 = 0; for (int i = 0; i < 8; i++) s8 = s8 << 8 | (u >> 8 * i & 255); uint32_t s4 = (uint32_t)(s8 >> 32); s4 = 0; for (int i = 0; i < 4; i++) s4 = s4 << 8 | (h >> 8 * i & 255); uint16_t q = (uint16_t)u, s2 = (uint16_t)(q << 8 | q >> 8);
    if (tlx::bswap64(u) != s8 || tlx::bswap64_generic(u) != s8 || tlx::bswap32(h) != s4 || tlx::bswap32_generic(h) != s4 || tlx::bswap16(q) != s2 || tlx::bswap16_generic(q) != s2 || tlx::bswap64_be(u) != s8 || tlx::bswap64_le(u) != u || tlx::bswap32_be(h) != s4 || tlx::bswap32_le(h) != h || tlx::bswap16_be(q) != s2 || tlx::bswap16_le(q) != q) { mc::fail("byte swap of %s", in.c_str()); return; }
    for (int k = 0; k < 2; k++) { double d = (double)u; int sc = 0; while (d >= (k ? 1024.0 : 1000.0)) d /= k ? 1024.0 : 1000.0, sc++; char b[64]; snprintf(b, 64, "%.3f %s", d, (k ? std::vector<const char *>{"", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei"} : std::vector<const char *>{"", "k", "M", "G", "T", "P", "E"})[sc]); if (!eq(k ? "format_iec_units" : "format_si_units", in, k ? tlx::format_iec_units(u) : tlx::format_si_units(u), b)) return; }
  }
};
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
// aggregates: values, then a second and third group that are combined in both ways
struct Aggr : In {
  Aggr(const string &nm, int d) { fix(nm, 5, d, 2); }
  string letter_name(int l) override { return l == 4 ? "next group" : std::to_string(l); }
  void run() override {
    static const double val[] = {-3, 0, 1, 10.5}; tlx::Aggregate<double> g[3]; tlx::AggregateMinMax<double> mm[3]; std::vector<double> all; int gi = 0;
    for (int i = 0; i < s->n; i++) if (s->v[i] == 4) { if (++gi == 3) return; } else { g[gi].add(val[s->v[i]]); mm[gi].add(val[s->v[i]]); all.push_back(val[s->v[i]]); }
    tlx::Aggregate<double> a = g[0] + g[1] + g[2], b, c = g[1]; b += g[0]; b += g[1]; b += g[2]; c += g[2]; c = g[0] + c; tlx::AggregateMinMax<double> m = mm[0] + mm[1]; m += mm[2];
    double n = all.size(), sum = 0, mn = 1e300, mx = -1e300, var = 0; for (double v : all) sum += v, mn = std::min(mn, v), mx = std::max(mx, v); for (double v : all) var += (v - sum / n) * (v - sum / n);
    for (auto *x : {&a, &b, &c}) {
      if (x->count() != all.size() || !near(x->sum(), sum) || !near(x->total(), sum)) { mc::fail("count %zu or sum %g of %zu values", x->count(), x->sum(), all.size()); return; }
      if (all.empty()) { if (x->mean() != 0 || x->variance() != 0 || x->stdev() != 0) { mc::fail("mean or variance of an empty aggregate"); return; } continue; }
      if (!near(x->mean(), sum / n) || !near(x->average(), sum / n) || x->min() != mn || x->max() != mx || x->span() != mx - mn || m.min() != mn || m.max() != mx || m.span() != mx - mn) { mc::fail("mean, minimum or maximum of %zu values", all.size()); return; }
      for (int dd = 0; dd < 2; dd++) { double w = n <= 1 ? 0 : var / (n - dd); if (!near(x->variance(dd), w) || !near(x->stdev(dd), std::sqrt(w)) || !near(x->var(dd), w)) { mc::fail("variance %g of %zu values in %d groups, expected %g", x->variance(dd), all.size(), gi + 1, w); return; } }
      tlx::Aggregate<double> more = *x; more.add(7); double m2 = (sum + 7) / (n + 1), v2 = 0; for (double v : all) v2 += (v - m2) * (v - m2); v2 += (7 - m2) * (7 - m2); if (!near(more.variance(0), v2 / (n + 1)) || !near(more.mean(), m2)) { mc::fail("an aggregate after one more value"); return; }
    }
  }
};
// polynomial regression through the points of a polynomial gives that polynomial
struct Poly : In {
  int order; Poly(const string &nm, int order, int d) : order(order) { fix(nm, 7, d, 2); }
  void run() override {
    std::vector<double> xs; for (int i = 0; i < s->n; i++) { double x = s->v[i] - 3; if (!xs.empty() && x < xs.back()) return; xs.push_back(x); } size_t distinct = 0; for (size_t i = 0; i < xs.size(); i++) distinct += !i || xs[i] != xs[i - 1]; if (distinct < (size_t)order + 1) return;
    static const double cf[3][5] = {{1, 2, -1, 0.5, 3}, {0, 0, 1, 0, 0}, {-2, 0, 0, 1, -1}};
    for (auto &c : cf) { tlx::PolynomialRegression<double, true> r(order); auto f = [&](double x) { double y = 0; for (int k = order; k >= 0; k--) y = y * x + c[k]; return y; }; for (double x : xs) r.add(x, f(x)); auto &co = r.coefficients(); if (r.size() != xs.size() || co.size() != (size_t)order + 1) { mc::fail("%zu coefficients", co.size()); return; } for (int k = 0; k <= order; k++) if (!(std::fabs(co[k] - c[k]) < 1e-4)) { string t; for (double x : xs) t += std::to_string((int)x) + " "; mc::fail("order %d through x = %s: coefficient %d is %g, expected %g", order, t.c_str(), k, co[k], c[k]); return; } if (!(std::fabs(r.evaluate(2) - f(2)) < 1e-3)) { mc::fail("evaluate"); return; } }
  }
};
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const string &, const string &tier) {
    mc::Suite s; bool T = tier != "quick"; setenv("A", "x", 1); setenv("AA", "${A}$A", 1); setenv("A_", "", 1); unsetenv("_");
    s.rule = "every non-initial state is one distinct input: a text (or several) over the stated alphabet, a message with its division into pieces, a number, or a list of values";
    auto add = [&](In *c) { s.seq.push_back(c); };
    add(new DigestLen("digest-lengths", T ? 600 : 300, 0)); add(new DigestLen("digest-lengths-ff", T ? 600 : 300, 1));
    add(new DigestTwo("digest-two-pieces", T ? 270 : 140));
    add(new DigestParts("digest-pieces", {0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129}, T ? 3 : 2, 0)); add(new DigestParts("digest-small-pieces", {1, 7, 31, 64}, T ? 7 : 5, 1));
    add(new AllBytes("codecs-bytes", 2, f_codec)); add(new Text("codecs", string("\0\x80\xff" "aZ<\"&%\n", 10), 1, T ? 5 : 4, f_codec)); add(new Text("codecs-long", string("\xff\0", 2), 1, T ? 14 : 11, f_codec));
    add(new Text("base64-decode", "AQ/9=\n*", 1, T ? 7 : 6, f_b64dec)); add(new Text("parse-hexdump", "09aFg@", 1, T ? 7 : 5, f_hexparse)); add(new AllBytes("base64-decode-bytes", 2, f_b64dec)); add(new AllBytes("parse-hexdump-bytes", 2, f_hexparse));
    add(new Text("split", "ab", 2, T ? 11 : 9, f_split)); add(new Text("split-three", "ab,", 2, T ? 8 : 6, f_split)); add(new Text("words", "ab \n", 1, T ? 9 : 7, f_words)); add(new Text("words-tabs", "a \t\r\n", 1, T ? 7 : 5, f_words)); add(new Text("words-long", "a ", 1, T ? 15 : 12, f_words));
    add(new Text("contains-word", "ab ", 2, T ? 10 : 8, f_contains_word)); add(new Text("quoted", ",a \"\\n\n", 1, T ? 7 : 6, f_quoted)); add(new Text("quoted-other", ",a;'/n\t", 1, T ? 7 : 6, f_quoted)); add(new Text("split-quoted", "an \"\\", 1, T ? 9 : 7, f_split_quoted));
    add(new Text("pairs", "aAb_", 2, T ? 8 : 6, f_pair)); add(new Text("pairs-two", "aB", 2, T ? 11 : 9, f_pair)); add(new Text("replace", "ab", 3, T ? 11 : 9, f_replace)); add(new Text("replace-three", "abc", 3, T ? 9 : 7, f_replace));
    add(new Text("form-data", "a=&%4+", 1, T ? 8 : 6, f_form)); add(new Text("uri", "a?#&", 1, T ? 9 : 7, f_uri)); add(new Text("environment", "A_${}1", 1, T ? 8 : 6, f_env)); add(new Text("units", "19 kMpiB", 1, T ? 7 : 5, f_units));
    add(new Printf("printf")); add(new Numbers("numbers", T ? 70000 : 6000)); add(new Aggr("aggregate", T ? 8 : 6));
    for (int o = 0; o <= 4; o++) add(new Poly("polynomial-" + std::to_string(o), o, o + (o < (T ? 4 : 3) ? 3 : 2)));
    return s;
  });
}
