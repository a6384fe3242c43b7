#include "oracle.hpp"
#include <arpa/inet.h>
extern "C" {
extern int shim_libmy;
void *sh_new(unsigned); void sh_destroy(void *); void sh_add(void *, uint8_t); void sh_append(void *, const uint8_t *, size_t); void sh_extend(void *, void *);
void sh_reserve(void *, size_t); void sh_advance(void *, size_t); void sh_clip(void *, size_t); void sh_reset(void *); void sh_detach(void *, uint8_t **, size_t *);
void sh_reinit(void *, unsigned); void sh_add_cstr(void *, const char *); void *sh_dup_cstr(const char *); char *sh_cstr(void *); void sh_cterm(void *); void sh_rstrip(void *, char);
void sh_add_fmt_s(void *, const char *); void sh_add_fmt_d(void *, int, unsigned); size_t sh_size(void *); size_t sh_bytes(void *); uint8_t sh_value(void *, size_t);
uint8_t *sh_ptr(void *); uint8_t *sh_data(void *); size_t sh_cap(void *);
size_t sh_b32_decode(void *, size_t, const char *, size_t); size_t sh_b32_encode(char *, size_t, const void *, size_t);
int sh_b64_decode(const char *, int, char *); int sh_b64_decode2(const char *, int, const char *, int, char *);
int sh_b64_encode(const char *, int, char *); int sh_b64_encode2(const char *, int, const char *, int, char *);
size_t sh_bytes_to_hex(const uint8_t *, size_t, int, char *, size_t); size_t sh_u16_to_hex(uint16_t, int, char *, size_t);
size_t sh_u64_to_str(uint64_t, char *, size_t, const char **); const char *sh_ntop(int, const void *, char *, unsigned); int sh_hex_decode(const char *, uint8_t **, size_t *);
}
#define NEED if (!shim_libmy) return
// --------------------------------------------------------------------------- C15
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void check_b64(const Bytes &b, size_t cut) {
	note("octets %s, cut at %zu", hex(b).c_str(), cut);
	std::string e = o_b64(b.data(), b.size());
	Buf in(b), out(e.size());
	int k = sh_b64_encode((char *) in.p, in.n, (char *) out.p);
	if (k != (int) e.size() || std::string((char *) out.p, k) != e) fail("base64 gave %s, expected %s", show(std::string((char *) out.p, std::min<int>(std::max(k, 0), out.n))).c_str(), show(e).c_str());
	{ Bytes x(b.begin(), b.begin() + cut), y(b.begin() + cut, b.end()); Buf bx(x), by(y), o2(e.size());
	  k = sh_b64_encode2((char *) bx.p, bx.n, (char *) by.p, by.n, (char *) o2.p);
	  if (k != (int) e.size() || std::string((char *) o2.p, k) != e) fail("base64 in two parts differs"); }
	Bytes t(e.begin(), e.end());
	Buf ti(t), back(b.size() + 1);
	k = sh_b64_decode((char *) ti.p, ti.n, (char *) back.p);
	if (k != (int) b.size() || memcmp(back.p, b.data(), b.size())) fail("base64 is not decoded back (%d)", k);
	size_t c2 = e.size() ? cut % (e.size() + 1) : 0;
	{ Bytes x(t.begin(), t.begin() + c2), y(t.begin() + c2, t.end()); Buf bx(x), by(y), o2(b.size() + 1);
	  k = sh_b64_decode2((char *) bx.p, bx.n, (char *) by.p, by.n, (char *) o2.p);
	  if (k != (int) b.size() || memcmp(o2.p, b.data(), b.size())) fail("base64 in two parts is not decoded back"); }
	nontrivial();
}
TEST(C15, b64, 0, 3) { NEED; Bytes b = gen_bytes(r, r.p(10) ? r(2000) : r(20)); check_b64(b, r(b.size() + 1)); }
TEST(C15, b64_small, 65536 + 257, 0) { NEED; Bytes b; if (idx < 257) { if (idx < 256) b.push_back(idx); } else { b.push_back((idx - 257) >> 8); b.push_back(idx - 257); } check_b64(b, b.size() / 2); }
TEST(C15, b64_triples, 4096, 1) { NEED; uint32_t v = idx < 4096 ? (uint32_t) idx * 0x1001 : r.next(); check_b64(Bytes{(uint8_t) (v >> 16), (uint8_t) (v >> 8), (uint8_t) v}, 1); }
TEST(C15, b64_junk, 0, 3) {
	NEED;
	Bytes t = gen_bytes(r, r.p(5) ? r(500) : r(30));
	for (auto &c : t) if (r.p(60)) c = r.p(90) ? B64[r(64)] : '=';
	note("base64 text %s", hex(t).c_str());
	std::string sig;
	for (uint8_t c : t) if (c && strchr(B64, c)) sig += (char) c;
	size_t bits = sig.size() * 6;
	Buf in(t), out(t.size() * 3 / 4 + 2);
	int k = sh_b64_decode((char *) in.p, in.n, (char *) out.p);
	if (k < 0 || k != (int) (bits / 8)) fail("%d octets decoded from %zu digits", k, sig.size());
	for (int i = 0; i < k; i++) { int v = 0; for (int j = 0; j < 8; j++) { int bit = i * 8 + j; v = v * 2 + ((strchr(B64, sig[bit / 6]) - B64) >> (5 - bit % 6) & 1); } if (out.p[i] != v) fail("octet %d is %02x, expected %02x", i, out.p[i], v); }
}
static const char *B32 = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
static void check_b32(const Bytes &b) {
	if (b.empty()) return;
	note("octets %s", hex(b).c_str());
	std::string e = o_b32(b.data(), b.size());
	Buf in(b), out(e.size() + 3);
	size_t k = sh_b32_encode((char *) out.p, out.n, in.p, in.n);
	if (k != e.size() || std::string((char *) out.p, k) != e) fail("base32hex gave %s, expected %s", show(std::string((char *) out.p, std::min(k, out.n))).c_str(), show(e).c_str());
	for (size_t cap : {e.size(), e.size() - 1, e.size() / 2, (size_t) 1}) { Buf o(cap); k = sh_b32_encode((char *) o.p, o.n, in.p, in.n); if (k != std::min(cap, e.size()) || memcmp(o.p, e.data(), k)) fail("base32hex with room for %zu gave %zu characters", cap, k); }
	Bytes t(e.begin(), e.end());
	for (int low = 0; low < 2; low++) {
		if (low) for (auto &c : t) c = tolower(c);
		Buf ti(t), back(b.size());
		k = sh_b32_decode(back.p, back.n, (char *) ti.p, ti.n);
		if (k != b.size() || memcmp(back.p, b.data(), b.size())) fail("base32hex is not decoded back (%zu)", k);
	}
	nontrivial();
}
TEST(C15, b32, 0, 3) { NEED; check_b32(gen_bytes(r, r.p(10) ? r(600) : r(20))); }
TEST(C15, b32_small, 65536 + 256, 0) { NEED; check_b32(idx < 256 ? Bytes{(uint8_t) idx} : Bytes{(uint8_t) ((idx - 256) >> 8), (uint8_t) (idx - 256)}); }
TEST(C15, b32_junk, 0, 3) {
	NEED;
	Bytes t = gen_bytes(r, r(30));
	int m = r(3);
	for (auto &c : t) if (m == 0 || r.p(m == 1 ? 70 : 95)) c = B32[r(32)];
	note("base32 text %s", hex(t).c_str());
	bool clean = true;
	for (uint8_t c : t) if (!c || !strchr(B32, toupper(c)) || c > 127) clean = false;
	Buf in(t), out(r.p(50) ? r(20) : t.size() * 5 / 8);
	size_t k = sh_b32_decode(out.p, out.n, (char *) in.p, in.n);
	if (k != (size_t) -1 && k > out.n) fail("%zu octets reported in a buffer of %zu", k, out.n);
	if (clean) {
		size_t full = t.size() * 5 / 8;
		if (k != std::min(full, out.n)) fail("%zu octets decoded, expected %zu", k, std::min(full, out.n));
		for (size_t i = 0; i < k; i++) { int v = 0; for (int j = 0; j < 8; j++) { size_t bit = i * 8 + j; v = v * 2 + ((strchr(B32, toupper(t[bit / 5])) - B32) >> (4 - bit % 5) & 1); } if (out.p[i] != v) fail("octet %zu is %02x, expected %02x", i, out.p[i], v); }
	}
}
TEST(C15, hex, 0, 2) {
	NEED;
	Bytes b = gen_bytes(r, r(20));
	bool up = r.p(50);
	std::string e;
	for (uint8_t c : b) { char t[4]; snprintf(t, 4, up ? "%02X" : "%02x", c); e += t; }
	Buf in(b), out(r.p(50) ? e.size() + 1 : 1 + r(45));
	note("octets %s upper %d room %zu", hex(b).c_str(), up, out.n);
	size_t want = std::min(e.size(), (out.n - 1) / 2 * 2);
	size_t k = sh_bytes_to_hex(in.p, in.n, up, (char *) out.p, out.n);
	if (k != want || out.p[k] != 0 || memcmp(out.p, e.data(), k)) fail("hex of %zu characters", k);
	uint16_t v = idx;
	char t[5], x[8];
	snprintf(x, 8, up ? "%04X" : "%04x", v);
	if (sh_u16_to_hex(v, up, t, 5) != 4 || strcmp(t, x)) fail("hex of %u is %s", v, t);
	// decoding
	uint8_t *raw = nullptr; size_t n = 0;
	std::string h = e;
	bool bad = r.p(30);
	if (bad && !h.empty()) h[r(h.size())] = "gG /:@`\x80"[r(8)];
	CStr s(h);
	LeakCheck lc;
	bool ok = sh_hex_decode(s.p, &raw, &n);
	if (ok != (!b.empty() && !bad)) fail("hex_decode of %s gave %d", show(h).c_str(), ok);
	if (ok) { if (n != b.size() || memcmp(raw, b.data(), n)) fail("hex_decode is wrong"); free(raw); }
	lc.done("hex_decode");
}
TEST(C15, decimal, 70000, 3) {
	NEED;
	uint64_t v = idx < 66000 ? idx : idx < 68000 ? ~0ull - (idx - 66000) : r.next() >> r(64);
	if (idx >= 68000 && r.p(30)) { v = 1; for (int k = r(20); k--;) v *= 10; v += r(3) - 1; }
	std::string e = std::to_string(v);
	for (size_t room : {e.size() + 1, e.size() + 5, e.size(), (size_t) 2, (size_t) 21}) {
		if (room < 2) continue;
		Buf out(room);
		const char *st = nullptr;
		note("value %lu room %zu", (unsigned long) v, room);
		size_t k = sh_u64_to_str(v, (char *) out.p, out.n, &st);
		size_t w = std::min(e.size(), room - 1);
		if (k != w || st != (char *) out.p + room - 1 - w || e.substr(e.size() - w) != st) fail("decimal gave %zu digits", k);
		if (sh_u64_to_str(v, (char *) out.p, out.n, NULL) != k) fail("decimal without start differs");
	}
}
static void check_ip(int af, const Bytes &a) {
	Buf in(a);
	char e[INET6_ADDRSTRLEN];
	inet_ntop(af, a.data(), e, sizeof e);
	note("address %s", e);
	for (size_t room : {(size_t) (af == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN), (size_t) 64, strlen(e) + 1, strlen(e), (size_t) 1}) {
		Buf out(room);
		memset(out.p, 0x41, room);
		const char *s = sh_ntop(af, in.p, (char *) out.p, out.n);
		if (!s) { if (room >= (af == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN)) fail("no text in a buffer of %zu", room); continue; }
		if (s != (char *) out.p || !memchr(out.p, 0, room) || strcmp(s, e)) fail("address text %s, expected %s", show(std::string(s, strnlen(s, room))).c_str(), e);
	}
}
TEST(C15, ip4, 1024, 2) { NEED; Bytes a = idx < 1024 ? Bytes(4, 1) : gen_bytes(r, 4); if (idx < 1024) a[idx >> 8] = idx; check_ip(AF_INET, a); }
TEST(C15, ip6, 6561 + 65536, 3) {
	NEED;
	Bytes a(16);
	if (idx < 6561) { uint64_t x = idx; for (int i = 0; i < 8; i++, x /= 3) { int k = x % 3; a[2 * i] = k == 2 ? 0xff : 0; a[2 * i + 1] = k == 2 ? 0xff : k; } }
	else if (idx < 6561 + 65536) { int w = r(8); if (r.p(50)) a = gen_bytes(r, 16); a[2 * w] = (idx - 6561) >> 8; a[2 * w + 1] = idx - 6561; }
	else { a = gen_bytes(r, 16); for (int i = 0; i < 8; i++) if (r.p(50)) a[2 * i] = a[2 * i + 1] = 0; if (r.p(20)) { for (int i = 0; i < 10; i++) a[i] = 0; if (r.p(50)) a[10] = a[11] = 255; } }
	check_ip(AF_INET6, a);
}
// --------------------------------------------------------------------------- C18
struct M { void *u; Bytes c; size_t hint; };
static void same(M &m, const char *op) {
	if (sh_size(m.u) != m.c.size() || sh_bytes(m.u) != m.c.size()) fail("after %s: size %zu, expected %zu", op, sh_size(m.u), m.c.size());
	if (sh_cap(m.u) < m.c.size()) fail("after %s: capacity %zu below size %zu", op, sh_cap(m.u), m.c.size());
	if (sh_ptr(m.u) != sh_data(m.u) + m.c.size()) fail("after %s: write position %td, size %zu", op, sh_ptr(m.u) - sh_data(m.u), m.c.size());
	if (!m.c.empty() && memcmp(sh_data(m.u), m.c.data(), m.c.size())) fail("after %s: contents %s, expected %s", op, hex(sh_data(m.u), m.c.size()).c_str(), hex(m.c).c_str());
	if (!m.c.empty() && (sh_value(m.u, 0) != m.c[0] || sh_value(m.u, m.c.size() - 1) != m.c.back())) fail("after %s: value", op);
	if (sh_cap(m.u)) { uint8_t *end = sh_data(m.u) + sh_cap(m.u) - 1; volatile uint8_t z = *end; (void) z; }  // the capacity is really allocated
}
static std::string gen_cs(Rng &r) { std::string s; for (int k = r.p(10) ? r(300) : r(12); k--;) s += (char) (1 + r(255)); return s; }
TEST(C18, history, 0, 8) {
	NEED;
	LeakCheck lc;
	{
		M m; m.hint = r.p(30) ? 0 : r.p(50) ? 1 + r(4) : 64;
		if (r.p(10)) { std::string s = gen_cs(r); CStr q(s); note("dup_cstr %s", show(s).c_str()); m.u = sh_dup_cstr(q.p); m.c = Bytes(s.begin(), s.end()); }
		else { note("init %zu", m.hint); m.u = sh_new(m.hint); }
		same(m, "init");
		for (int k = r.p(5) ? r(200) : r(25); k--;) {
			switch (r(15)) {
			case 0: case 1: { int n = r.p(10) ? r(40) : 1; while (n--) { uint8_t c = r.p(30) ? 0 : r.byte(); note("add %02x", c); sh_add(m.u, c); m.c.push_back(c); same(m, "add"); } break; }
			case 2: case 3: { Bytes b = gen_bytes(r, r.p(10) ? r(1000) : r(10)); Buf x(b); note("append %s", hex(b).c_str()); sh_append(m.u, x.p, x.n); put(m.c, b); same(m, "append"); break; }
			case 4: { size_t n = r.p(10) ? r(3000) : r(100); note("reserve %zu", n); sh_reserve(m.u, n); same(m, "reserve"); if (sh_cap(m.u) - sh_size(m.u) < n) fail("reserve %zu left room for %zu", n, sh_cap(m.u) - sh_size(m.u)); if (n) memset(sh_ptr(m.u), 0x7d, n); same(m, "reserve"); break; }
			case 5: { size_t n = r(40); note("reserve+advance %zu", n); sh_reserve(m.u, n); size_t a = r(n + 1); for (size_t i = 0; i < a; i++) sh_ptr(m.u)[i] = i; sh_advance(m.u, a); for (size_t i = 0; i < a; i++) m.c.push_back(i); same(m, "advance"); break; }
			case 6: { size_t n = r.p(70) ? r(m.c.size() + 1) : m.c.size() + r(5); note("clip %zu", n); sh_clip(m.u, n); if (n < m.c.size()) m.c.resize(n); same(m, "clip"); break; }
			case 7: note("reset"); sh_reset(m.u); m.c.clear(); same(m, "reset"); break;
			case 8: { note("detach"); uint8_t *o; size_t n; sh_detach(m.u, &o, &n); if (n != m.c.size() || (n && memcmp(o, m.c.data(), n))) fail("detach gave %zu octets", n); free(o); m.c.clear(); same(m, "detach"); break; }
			case 9: { std::string s = gen_cs(r); CStr q(s); note("add_cstr %s", show(s).c_str()); if (!m.c.empty() && m.c.back() == 0) m.c.pop_back(); sh_add_cstr(m.u, q.p); m.c.insert(m.c.end(), s.begin(), s.end()); same(m, "add_cstr"); break; }
			case 10: { note("cterm"); if (m.c.empty() || m.c.back()) m.c.push_back(0); char *s = nullptr; if (r.p(50)) s = sh_cstr(m.u); else sh_cterm(m.u); if (s && s != (char *) sh_data(m.u)) fail("cstr points elsewhere"); same(m, "cterm"); break; }
			case 11: { char c = r.p(60) && !m.c.empty() ? (char) m.c.back() : (char) r.byte(); note("rstrip %02x", (uint8_t) c); sh_rstrip(m.u, c); if (!m.c.empty() && m.c.back() == (uint8_t) c) m.c.pop_back(); same(m, "rstrip"); break; }
			case 12: { std::string s = gen_cs(r); CStr q(s); note("add_fmt %s", show(s).c_str()); if (!m.c.empty() && m.c.back() == 0) m.c.pop_back(); sh_add_fmt_s(m.u, q.p); m.c.insert(m.c.end(), s.begin(), s.end()); same(m, "add_fmt"); break; }
			case 13: { int a = (int) r.next(); unsigned b = r.next() >> r(32); note("add_fmt %d %u", a, b); if (!m.c.empty() && m.c.back() == 0) m.c.pop_back(); sh_add_fmt_d(m.u, a, b); std::string s = "<" + std::to_string(a) + "/" + std::to_string(b) + ">"; m.c.insert(m.c.end(), s.begin(), s.end()); same(m, "add_fmt"); break; }
			default: { M v; v.u = sh_new(r(4)); Bytes b = gen_bytes(r, r(40)); Buf x(b); sh_append(v.u, x.p, x.n); note("extend %s", hex(b).c_str()); sh_extend(m.u, v.u); put(m.c, b); same(m, "extend"); v.c = b; same(v, "extend (source)"); sh_destroy(v.u); }
			}
		}
		nontrivial();
		sh_destroy(m.u);
		m.c.clear(); m.c.shrink_to_fit();
	}
	lc.done("operation history");
}
