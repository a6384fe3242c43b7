#include "oracle.hpp"

static const std::vector<size_t> nooffs;
static std::string to_text(const Bytes &rd, int type, int cls, bool &null) {
	Buf b(rd);
	long n0 = live_allocs();
	char *s = wdns_rdata_to_str(b.p, b.n, type, cls);
	long d = live_allocs() - n0 - (s != NULL);
	null = s == NULL;
	if (d) fail("rendering leaves %ld allocation(s) besides the text", d);
	std::string t = s ? s : "";
	free(s);
	if (b.bytes() != rd) fail("rendering modified the data");
	return t;
}
// --------------------------------------------------------------------------- C08
static void check_render(const Bytes &rd, int type, int cls) {
	if (rd.size() > 65535) return;
	note("type %d class %d data %s", type, cls, hex(rd).c_str());
	bool null, gen;
	std::string e;
	std::string t = to_text(rd, type, cls, null);
	if (null) fail("no text");
	if (!o_rdata_text(rd, type, cls, e, gen)) return;
	nontrivial();
	if (t != e) {
		size_t a = t.find_last_not_of(' '), b = e.find_last_not_of(' ');
		if (t.substr(0, a + 1) != e.substr(0, b + 1)) fail("text %s, expected %s", show(t).c_str(), show(e).c_str());
	}
}
static int cls_for(Rng &r, int type) { const RType *t = rtype(type); return t && t->cls && r.p(95) ? t->cls : gen_class(r); }
TEST(C08, types, 0, 8) { int t = gen_type(r), c = cls_for(r, t); check_render(gen_rdata(r, t, c, nooffs, 0, false), t, c); }
TEST(C08, cut, 0, 3) {
	int t = r.pick(rtypes()).type, c = cls_for(r, t);
	Bytes rd = gen_rdata(r, t, c, nooffs, 0, false);
	if (rd.size() > 100) rd.resize(100);
	for (size_t k = 0; k <= rd.size(); k++) check_render(Bytes(rd.begin(), rd.begin() + k), t, c);
}
TEST(C08, random_bytes, 0, 3) { int t = r.pick(rtypes()).type, c = cls_for(r, t); Bytes b = gen_bytes(r, r(30)); for (auto &x : b) if (r.p(40)) x = r(6); check_render(b, t, c); }
TEST(C08, all_types, 65536, 0) { check_render(gen_rdata(r, idx, 1, nooffs, 0, false), idx, 1); check_render(gen_bytes(r, r(12)), idx, gen_class(r)); }
TEST(C08, octets, 256 * 50, 0) {       // every octet value inside every kind of field
	int t = rtypes()[(idx / 256) % rtypes().size()].type, c = cls_for(r, t);
	Bytes rd = gen_rdata(r, t, c, nooffs, 0, false);
	for (int k = 0; k < 3 && !rd.empty(); k++) { Bytes x = rd; x[r(x.size())] = idx; check_render(x, t, c); }
}
TEST(C08, svc, 0, 3) {
	Bytes rd{0, 1, 0};
	for (int i = r.range(1, 4); i--;) { int key = r.p(90) ? (int) r(9) : r.p(50) ? 65535 : (int) r(65536); Bytes v = gen_bytes(r, r.p(50) ? 4 * r(9) : r(34)); if (key == 1 || r.p(10)) { v.clear(); for (int k = r(4); k--;) { int l = r(6); put8(v, l); put(v, gen_bytes(r, l)); } if (r.p(20)) put(v, gen_bytes(r, 1)); } put16(rd, key); put16(rd, v.size() + (r.p(6) ? r(7) - 3 : 0)); put(rd, v); }
	check_render(rd, 64 + r(2), 1);
}
TEST(C08, large, 0, 1) {
	if (idx % 16) return;
	int t = gen_type(r), c = cls_for(r, t);
	Bytes rd = gen_rdata(r, t, c, nooffs, 0, false);
	Bytes tail(r.p(50) ? r.range(65000, 65535) : r(65536));
	uint8_t f = r.byte();
	for (auto &x : tail) x = f;
	if (r.p(30)) rd.clear();
	put(rd, tail);
	if (rd.size() > 65535) rd.resize(65535);
	check_render(rd, t, c);
}
// --------------------------------------------------------------------------- C09
static bool in_scope(const Bytes &rd, int type, int cls) {
	const RType *t = rtype(type);
	if (!t) return true;
	if (rd.empty()) return false;
	if (type == 41) return false;
	if (t->cls && t->cls != cls) return false;
	std::string e;
	bool gen;
	if (!o_rdata_text(rd, type, cls, e, gen)) return false;
	// every field present
	size_t pos = 0;
	const uint8_t *p = rd.data();
	for (Fld f : t->f) {
		if (pos >= rd.size()) return f == F_BITMAP || f == F_REST_HEX || f == F_REST_B64 || f == F_REST_QSTR || f == F_SVC;
		size_t left = rd.size() - pos;
		switch (f) {
		case F_NAME: case F_UNAME: pos += o_skip(p, rd.size(), pos); break;
		case F_INT8: pos++; break;
		case F_INT16: pos += 2; break;
		case F_RRTYPE: if (!p[pos] && !p[pos + 1]) return false; pos += 2; break;
		case F_INT32: case F_IP4: pos += 4; break;
		case F_IP6: pos += 16; break;
		case F_EUI48: pos += 6; break;
		case F_EUI64: pos += 8; break;
		case F_STR: case F_SALT: case F_HASH: if (f == F_HASH && !p[pos]) return false; pos += 1 + p[pos]; break;
		case F_A6: if (p[pos] == 0) return rd.size() == pos + 17; pos += 1 + (128 - p[pos] + 7) / 8; break;     // a prefix of length 0 has no name
		case F_BITMAP: { // canonical bitmaps: increasing windows, no trailing zero octet, no type 0
			int last = -1;
			while (pos < rd.size()) { int w = p[pos], l = p[pos + 1]; if (w <= last || p[pos + 1 + l] == 0) return false; if (w == 0 && (p[pos + 2] & 128)) return false; last = w; pos += 2 + l; }
			break;
		}
		case F_SVC: {
			int last = -1;
			while (pos < rd.size()) {
				int key = p[pos] << 8 | p[pos + 1];
				size_t vl = p[pos + 2] << 8 | p[pos + 3];
				if (key <= last) return false;
				last = key;
				const uint8_t *v = p + pos + 4;
				if (key == 0) { int lk = -1; for (size_t i = 0; i < vl; i += 2) { int k = v[i] << 8 | v[i + 1]; if (k == 65535 || k == 0 || k <= lk) return false; lk = k; } }
				if (key == 1) for (size_t i = 0; i < vl; i += 1 + v[i]) if (v[i] == 0) return false;
				
				pos += 4 + vl;
			}
			break;
		}
		default: pos = rd.size();
		}
		(void) left;
	}
	return pos == rd.size();
}
static void check_back(const Bytes &rd, int type, int cls) {
	if (rd.size() > 65535 || !in_scope(rd, type, cls)) return;
	note("type %d class %d data %s", type, cls, hex(rd).c_str());
	nontrivial();
	bool null;
	std::string t = to_text(rd, type, cls, null);
	uint8_t *out = NULL;
	size_t n = 0;
	CStr s(t);
	wdns_res res = wdns_str_to_rdata(s.p, type, cls, &out, &n);
	if (res != wdns_res_success) fail("text %s of data %s type %d class %d is not read back (%d)", show(t).c_str(), hex(rd).c_str(), type, cls, res);
	Bytes got(out, out + n);
	free(out);
	if (got != rd) fail("text %s is read back as %s, the data was %s", show(t).c_str(), hex(got).c_str(), hex(rd).c_str());
}
TEST(C09, types, 0, 8) { int t = gen_type(r), c = cls_for(r, t); check_back(gen_rdata(r, t, c, nooffs, 0, false), t, c); }
TEST(C09, all_types, 65536, 0) { check_back(gen_rdata(r, idx, 1, nooffs, 0, false), idx, 1); }
TEST(C09, octets, 256 * 50, 0) {
	int t = rtypes()[(idx / 256) % rtypes().size()].type, c = rtype(t)->cls ? rtype(t)->cls : 1;
	Bytes rd = gen_rdata(r, t, c, nooffs, 0, false);
	for (int k = 0; k < 3 && !rd.empty(); k++) { Bytes x = rd; x[r(x.size())] = idx; check_back(x, t, c); }
}
TEST(C09, bitmap, 0, 2) {
	Bytes rd = gen_name(r, 10);
	int w = r(2);
	for (int i = r.range(1, 4); i--;) { int l = r.range(1, 32); Bytes x(l); for (int k = r.range(0, 9); k--;) x[r(l)] |= 1 << r(8); x[l - 1] |= 1 << r(8); put8(rd, w); put8(rd, l); put(rd, x); w += 1 + r(80); if (w > 255) break; }
	check_back(rd, 47, 1);
	Bytes s; put32(s, r.next()); put16(s, r(65536));
	s.insert(s.end(), rd.begin() + o_skip(rd.data(), rd.size(), 0), rd.end());
	check_back(s, 62, 1);
}
TEST(C09, large, 0, 1) {
	if (idx % 16) return;
	int t = r.p(50) ? gen_type(r) : r.pick(rtypes()).type, c = cls_for(r, t);
	Bytes rd = gen_rdata(r, t, c, nooffs, 0, false);
	if (r.p(30)) { // up to the limit: unknown types and types that end in the rest of the data
		static const int rest[] = {10, 48, 46, 43, 52, 61, 256, 257, 65280, 4711};
		if (r.p(70)) { t = rest[r(10)]; c = rtype(t) && rtype(t)->cls ? rtype(t)->cls : 1; rd = gen_rdata(r, t, c, nooffs, 0, false); }
		size_t want = r.p(60) ? 65535 - r(3) : r.range(20000, 65535);
		if (rd.size() < want) put(rd, gen_bytes(r, want - rd.size()));
	} else put(rd, gen_bytes(r, r(3000)));
	check_back(rd, t, c);
}
// --------------------------------------------------------------------------- C10
static void check_offer(const std::string &t, int type, int cls) {
	note("type %d class %d text %s", type, cls, show(t).c_str());
	CStr s(t);
	LeakCheck lc;
	uint8_t *out = (uint8_t *) 1;
	size_t n = 77777777;
	wdns_res res = wdns_str_to_rdata(s.p, type, cls, &out, &n);
	if (res == wdns_res_success) {
		nontrivial();
		if (n > 65535) fail("%zu octets of record data", n);
		if (n && !out) fail("no data");
		uint64_t sum = 0;
		for (size_t i = 0; i < n; i++) sum += out[i];
		if (sum == 0x1234567890abcull) note("x");
		free(out);
	}
	lc.done(res ? "failed conversion" : "conversion");
}
static std::string valid_text(Rng &r, int t, int c) {
	for (int k = 0; k < 6; k++) {
		Bytes rd = gen_rdata(r, t, c, nooffs, 0, false);
		std::string s; bool g;
		if (o_rdata_text(rd, t, c, s, g)) return s;
	}
	return "";
}
static std::string gen_token(Rng &r) {
	switch (r(12)) {
	case 0: return std::to_string(r(r.p(50) ? 300 : 70000));
	case 1: return std::to_string(r.next());
	case 2: { std::string s = "\""; for (int k = r(8); k--;) s += (char) (1 + r(255)); return s + (r.p(80) ? "\"" : ""); }
	case 3: { std::string s; for (int k = r(r.p(10) ? 300 : 12); k--;) s += "0123456789abcdefABCDEFgG"[r(24)]; return s; }
	case 4: return o_name_text(gen_name(r, 30));
	case 5: { static const char *w[] = {"\\#", "-", "mandatory=", "alpn=", "port=", "ipv4hint=", "ipv6hint=", "ech=", "no-default-alpn", "key", "key7=", "key65535=", "TYPE1", "TYPE65535", "TYPE70000", "A", "NS", "*", "()", "\\", "\\0", "\\25", "\\256", "::", "1.2.3.4", "127.0.0.1.5", "::ffff:1.2.3.4", "=", "==", ",", "\"", "20200101000000", "99999999999999"}; return w[r(sizeof w / sizeof *w)]; }
	case 6: { std::string s; for (int k = r(10); k--;) s += (char) (1 + r(255)); return s; }
	case 7: { Bytes b = gen_bytes(r, r(20)); return o_b64(b.data(), b.size()); }
	case 8: { Bytes b = gen_bytes(r, r(20)); return o_b32(b.data(), b.size()); }
	case 9: { Bytes b = gen_bytes(r, 16); return o_ip(r.p(50) ? 2 : 10, b.data()); }
	case 10: { std::string s; for (int k = r(r.p(5) ? 400 : 20); k--;) s += "ab\\.\",;0 2="[r(11)]; return s; }
	default: return std::string(r(r.p(10) ? 300 : 10), "a1 \"\\.="[r(7)]);
	}
}
TEST(C10, mutated, 0, 8) {
	int t = r.p(90) ? r.pick(rtypes()).type : gen_type(r), c = cls_for(r, t);
	std::string s = valid_text(r, t, c);
	if (r.p(5)) s = s + s;
	for (int k = r(4); k--;) {
		size_t at = r(s.size() + 1);
		switch (r(7)) {
		case 0: s.resize(at); break;
		case 1: if (at < s.size()) s[at] = (char) (1 + r(255)); break;
		case 2: s.insert(at, gen_token(r)); break;
		case 3: s.insert(at, 1, "\" \\,=.\t0-"[r(9)]); break;
		case 4: if (at < s.size()) s.erase(at, 1 + r(4)); break;
		case 5: if (at < s.size()) s[at] = "\" \\,=.\t0-"[r(9)]; break;
		default: s.insert(at, std::string(r(r.p(10) ? 300 : 5), (char) ('0' + r(10)))); break;
		}
	}
	check_offer(s, t, c);
}
TEST(C10, tokens, 0, 6) {
	int t = r.p(90) ? r.pick(rtypes()).type : gen_type(r), c = cls_for(r, t);
	std::string s;
	for (int k = r(8); k--;) { s += gen_token(r); if (r.p(90)) s += r.p(90) ? " " : "\t"; }
	check_offer(s, t, c);
}
TEST(C10, long_token, 0, 4) {      // one token of a valid text grown far beyond any field
	int t = r.pick(rtypes()).type, c = cls_for(r, t);
	std::string s = valid_text(r, t, c);
	std::vector<std::pair<size_t, size_t>> tok;
	for (size_t i = 0; i < s.size();) { if (s[i] == ' ') { i++; continue; } size_t k = i; while (k < s.size() && s[k] != ' ') k++; tok.push_back({i, k - i}); i = k; }
	if (tok.empty()) return;
	auto q = r.pick(tok);
	static const int lens[] = {62, 63, 64, 127, 128, 254, 255, 256, 257, 258, 340, 408, 409, 410, 416, 510, 511, 512, 513, 1024, 1025, 1026};
	size_t want = r.p(70) ? lens[r(22)] + r(3) : r.p(80) ? r(3000) : 65530 + r(12);
	static const char *unit[] = {"0", "A", "00", "0V", "ab", "aA1", "Zz+/", "\\065", "\\\\", "a.", "1.", "1:", "h2,", "key9,", "9"};
	std::string w = s.substr(q.first, q.second), u = r.p(30) ? w : r.p(60) ? std::string(1, w[r(w.size())]) : unit[r(15)], l = r.p(50) ? w : "";
	while (l.size() < want) l += u;
	if (r.p(70)) l.resize(want);
	if (r.p(20) && w[0] == '"') l = "\"" + l + "\"";
	s.replace(q.first, q.second, l);
	check_offer(s, t, c);
}
TEST(C10, prefixes, 0, 2) {
	int t = r.pick(rtypes()).type, c = cls_for(r, t);
	std::string s = valid_text(r, t, c).substr(0, 120);
	for (size_t k = 0; k <= s.size(); k++) check_offer(s.substr(0, k), t, c);
}
TEST(C10, generic, 0, 3) {
	int t = gen_type(r), c = gen_class(r);
	std::string s = r.p(90) ? "\\#" : "\\";
	if (r.p(90)) s += " ";
	int n = r(12);
	if (r.p(90)) s += std::to_string(r.p(70) ? n : r.p(50) ? (long) r(70000) : (long) r.next());
	if (r.p(90)) s += " ";
	for (int k = n; k-- > 0;) { for (int q = 0; q < 2; q++) s += "0123456789abcdefABCDEFxg "[r(r.p(90) ? 22 : 25)]; if (r.p(50)) s += " "; }
	if (r.p(10) && !s.empty()) s.resize(r(s.size()));
	check_offer(s, t, c);
}
TEST(C10, svc, 0, 4) {
	std::string s = std::to_string(r(3)) + " . ";
	static const char *keys[] = {"mandatory", "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "ipv6hint", "key7", "key65535", "key0", "key99999", "foo", "key"};
	for (int k = r(5); k--;) {
		s += keys[r(13)];
		if (r.p(85)) s += "=";
		bool q = r.p(30);
		if (q) s += "\"";
		for (int j = r(5); j--;) { switch (r(6)) { case 0: s += keys[r(13)]; break; case 1: s += "h2"; break; case 2: s += std::to_string(r(70000)); break; case 3: s += "192.0.2.1"; break; case 4: s += "2001:db8::1"; break; default: s += gen_token(r); } if (r.p(70)) s += ","; }
		if (q && r.p(90)) s += "\"";
		if (r.p(95)) s += " ";
	}
	check_offer(s, 64 + r(2), 1);
}
TEST(C10, large, 0, 1) {
	if (idx % 32) return;
	int t = r.pick(rtypes()).type, c = cls_for(r, t);
	std::string s = valid_text(r, t, c);
	std::string unit = r.p(30) ? " \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\"" : r.p(50) ? "QUFB" : "00";
	int len = r.range(60000, 140000);
	while ((int) s.size() < len) s += unit;
	check_offer(s, t, c);
	if (r.p(20)) { std::string g = "\\# " + std::to_string(65535 + (int) r(3) - 1) + " "; g += std::string(2 * (65535 + (int) r(3) - 1), '0'); check_offer(g, t, c); }
}
// --------------------------------------------------------------------------- C12
static bool canon_type(int t) {
	static const std::set<int> s = {38, 18, 5, 39, 36, 7, 3, 4, 8, 14, 9, 15, 35, 2, 30, 12, 26, 17, 21, 24, 6, 33};
	return s.count(t);
}
static void check_down(const Bytes &rd, int type, int cls) {
	note("type %d class %d data %s", type, cls, hex(rd).c_str());
	wdns_rdata_t *d = (wdns_rdata_t *) malloc(2 + rd.size());
	d->len = rd.size();
	if (!rd.empty()) memcpy(d->data, rd.data(), rd.size());
	wdns_res res = wdns_downcase_rdata(d, type, cls);
	if (d->len != rd.size()) fail("the length changed");
	Bytes got(d->data, d->data + d->len);
	free(d);
	const RType *t = rtype(type);
	if (!canon_type(type) || (t->cls && t->cls != cls)) {
		if (got != rd) fail("data of an unlisted type changed to %s", hex(got).c_str());
		return;
	}
	for (size_t i = 0; i < rd.size(); i++)
		if (got[i] != rd[i] && !(rd[i] >= 'A' && rd[i] <= 'Z' && got[i] == rd[i] + 32)) fail("octet %zu changed from %02x to %02x", i, rd[i], got[i]);
	// expected positions, when well formed
	Bytes e = rd;
	size_t pos = 0;
	for (Fld f : t->f) {
		if (pos == rd.size()) break;
		size_t left = rd.size() - pos, k = 0;
		switch (f) {
		case F_NAME: case F_UNAME: { NameRes nr = o_unpack(rd.data(), rd.size(), pos, false); if (!nr.ok) return; k = nr.out.size(); for (size_t i = pos; i < pos + k; i++) if (e[i] >= 'A' && e[i] <= 'Z') e[i] += 32; break; }
		case F_INT8: k = 1; break;
		case F_INT16: k = 2; break;
		case F_INT32: k = 4; break;
		case F_A6: if (rd[pos] > 128) return; k = 1 + (128 - rd[pos] + 7) / 8; break;
		case F_STR: k = 1 + rd[pos]; break;
		default: k = left;
		}
		if (k > left) return;
		pos += k;
	}
	if (pos != rd.size()) return;
	nontrivial();
	if (res != wdns_res_success) fail("error %d for well-formed data", res);
	if (got != e) fail("got %s, expected %s", hex(got).c_str(), hex(e).c_str());
}
static Bytes shout(Rng &r, Bytes b) { for (auto &c : b) if (c >= 'a' && c <= 'z' && r.p(50)) c -= 32; return b; }
TEST(C12, rdata, 0, 8) {
	static const int ct[] = {38, 18, 5, 39, 36, 7, 3, 4, 8, 14, 9, 15, 35, 2, 30, 12, 26, 17, 21, 24, 6, 33};
	int t = r.p(85) ? ct[r(22)] : gen_type(r), c = cls_for(r, t);
	check_down(shout(r, gen_rdata(r, t, c, nooffs, 0, false)), t, c);
}
TEST(C12, raw, 0, 3) {
	static const int ct[] = {38, 18, 5, 39, 36, 7, 3, 4, 8, 14, 9, 15, 35, 2, 30, 12, 26, 17, 21, 24, 6, 33};
	int t = r.p(95) ? ct[r(22)] : gen_type(r), c = cls_for(r, t);
	Bytes b = gen_bytes(r, r(40));
	for (auto &x : b) x = r.p(40) ? r(6) : r.p(60) ? 'A' + r(26) : x;
	check_down(b, t, c);
	if (r.p(10)) { b = shout(r, gen_rdata(r, t, c, nooffs, 0, false)); if (b.size() < 80) for (size_t k = 0; k <= b.size(); k++) check_down(Bytes(b.begin(), b.begin() + k), t, c); }
}
TEST(C12, all_types, 65536, 0) { check_down(shout(r, gen_rdata(r, idx, 1, nooffs, 0, false)), idx, 1); }
static wdns_rdata_t *mk_rdata(const Bytes &b) { wdns_rdata_t *d = (wdns_rdata_t *) malloc(2 + b.size()); d->len = b.size(); if (!b.empty()) memcpy(d->data, b.data(), b.size()); return d; }
struct RS { // an RRset built from exact allocations
	wdns_rrset_t s;
	RS() { memset(&s, 0, sizeof s); }
	void build(const Bytes &n, const std::vector<Bytes> &v) {
		s.name.len = n.size(); s.name.data = (uint8_t *) malloc(n.size()); if (!n.empty()) memcpy(s.name.data, n.data(), n.size());
		s.n_rdatas = v.size(); s.rdatas = (wdns_rdata_t **) malloc(sizeof(void *) * v.size());
		for (size_t i = 0; i < v.size(); i++) s.rdatas[i] = mk_rdata(v[i]);
	}
	~RS() { for (int i = 0; i < s.n_rdatas; i++) free(s.rdatas[i]); free(s.rdatas); free(s.name.data); }
	Bytes name() { return Bytes(s.name.data, s.name.data + s.name.len); }
	std::vector<Bytes> data() { std::vector<Bytes> v; for (int i = 0; i < s.n_rdatas; i++) v.push_back(Bytes(s.rdatas[i]->data, s.rdatas[i]->data + s.rdatas[i]->len)); return v; }
};
TEST(C12, rrset, 0, 2) {
	static const int ct[] = {38, 18, 5, 39, 36, 7, 3, 4, 8, 14, 9, 15, 35, 2, 30, 12, 26, 17, 21, 24, 6, 33};
	int t = r.p(85) ? ct[r(22)] : gen_type(r), c = cls_for(r, t);
	std::vector<Bytes> v, e;
	for (int k = r(5); k--;) { Bytes b = shout(r, gen_name(r, 30)); v.push_back(shout(r, gen_rdata(r, t, c, nooffs, 0, false))); }
	RS s;
	Bytes n = shout(r, gen_name(r, 60));
	s.s.rrtype = t; s.s.rrclass = c; s.s.rrttl = 77;
	s.build(n, v);
	bool stop = false;
	for (auto &b : v) { wdns_rdata_t *d = mk_rdata(b); if (!stop && wdns_downcase_rdata(d, t, c) != wdns_res_success) stop = true; e.push_back(Bytes(d->data, d->data + d->len)); if (stop && e.size() < v.size() && 0) break; free(d); }
	note("rrset type %d class %d owner %s", t, c, hex(n).c_str());
	wdns_res res = wdns_downcase_rrset(&s.s);
	if (s.name() != o_lower(n)) fail("owner name %s", hex(s.name()).c_str());
	if (s.s.rrtype != t || s.s.rrclass != c || s.s.rrttl != 77 || s.s.n_rdatas != v.size()) fail("a field changed");
	if ((res == wdns_res_success) == stop) fail("result %d", res);
	if (!stop && s.data() != e) fail("record data differ");
}
// --------------------------------------------------------------------------- C11
static void check_ser(const Bytes &n, const std::vector<Bytes> &v, int t, int c, uint32_t ttl) {
	RS s;
	s.s.rrtype = t; s.s.rrclass = c; s.s.rrttl = ttl;
	s.build(n, v);
	note("rrset type %d class %d ttl %u owner %s, %zu data", t, c, ttl, hex(n).c_str(), v.size());
	size_t sz = 99, want = 11 + n.size(), sz2 = 98;
	for (auto &b : v) want += 2 + b.size();
	if (wdns_serialize_rrset(&s.s, NULL, &sz) != wdns_res_success || sz != want) fail("size %zu, expected %zu", sz, want);
	Buf out(sz);
	memset(out.p, 0x5c, sz);
	if (wdns_serialize_rrset(&s.s, out.p, (n.size() % 2) ? NULL : &sz2) != wdns_res_success || (!(n.size() % 2) && sz2 != want)) fail("second size %zu, expected %zu", sz2, want);
	if (s.name() != n || s.data() != v) fail("serializing modified the RRset");
	wdns_rrset_t o;
	memset(&o, 0x66, sizeof o);
	LeakCheck lc;
	if (wdns_deserialize_rrset(&o, out.p, sz) != wdns_res_success) fail("not deserialized");
	if (o.rrtype != t || o.rrclass != c || o.rrttl != ttl || o.n_rdatas != v.size() || o.name.len != n.size() || memcmp(o.name.data, n.data(), n.size())) fail("deserialized fields differ");
	for (size_t i = 0; i < v.size(); i++) if (o.rdatas[i]->len != v[i].size() || memcmp(o.rdatas[i]->data, v[i].data(), v[i].size())) fail("deserialized data %zu differ", i);
	wdns_clear_rrset(&o);
	lc.done("deserialize and clear");
	nontrivial();
}
TEST(C11, roundtrip, 0, 5) {
	std::vector<Bytes> v;
	for (int k = r.p(3) ? r(400) : r(6); k--;) v.push_back(gen_bytes(r, r.p(2) ? r(65536) : r.p(20) ? r(600) : r(20)));
	check_ser(r.p(90) ? gen_name(r) : gen_bytes(r, r(256)), v, r(65536), r(65536), r.next());
}
TEST(C11, many, 0, 1) {
	if (idx % 64) return;
	std::vector<Bytes> v(r.p(30) ? 65535 - r(3) : r(65536));
	for (auto &b : v) if (r.p(20)) b = Bytes(r(4), 7);
	check_ser(gen_name(r), v, 1, 1, 5);
}
static void check_deser(const Bytes &b) {
	note("bytes %s", hex(b).c_str());
	Buf in(b);
	wdns_rrset_t o;
	memset(&o, 0x66, sizeof o);
	// what the bytes describe
	bool ok = true;
	size_t pos = 0;
	Bytes name; std::vector<Bytes> v;
	uint16_t t = 0, c = 0, nr = 0; uint32_t ttl = 0;
	auto get = [&](void *d, size_t k) { if (!ok || b.size() - pos < k) { ok = false; return; } if (k) memcpy(d, b.data() + pos, k); pos += k; };
	uint8_t nl = 0;
	get(&nl, 1); if (ok) { name.resize(nl); get(name.data(), nl); }
	get(&t, 2); get(&c, 2); get(&ttl, 4); get(&nr, 2);
	for (int i = 0; ok && i < nr; i++) { uint16_t l = 0; get(&l, 2); if (!ok) break; Bytes x(l); get(x.data(), l); v.push_back(x); }
	LeakCheck lc;
	wdns_res res = wdns_deserialize_rrset(&o, in.p, in.n);
	if (res == wdns_res_success) {
		if (!ok) fail("truncated bytes accepted");
		if (o.rrtype != t || o.rrclass != c || o.rrttl != ttl || o.n_rdatas != v.size() || o.name.len != name.size() || memcmp(o.name.data, name.data(), name.size())) fail("fields differ");
		for (size_t i = 0; i < v.size(); i++) if (o.rdatas[i]->len != v[i].size() || memcmp(o.rdatas[i]->data, v[i].data(), v[i].size())) fail("data %zu differ", i);
		nontrivial();
		wdns_clear_rrset(&o);
	} else if (ok) fail("complete bytes rejected (%d)", res);
	lc.done(res ? "failed deserialization" : "deserialize and clear");
}
static Bytes gen_ser(Rng &r) {
	Bytes b, n = r.p(70) ? gen_name(r, 30) : gen_bytes(r, r(256));
	put8(b, n.size()); put(b, n); put32(b, r.next()); put32(b, r.next());
	int k = r(5), cnt = k + (r.p(10) ? r(4) : 0);
	b.push_back(cnt); b.push_back(r.p(3) ? 255 : 0);
	for (; k--;) { int l = r.p(20) ? 0 : r(9); b.push_back(l); b.push_back(r.p(2) ? r(256) : 0); put(b, gen_bytes(r, l)); }
	return b;
}
TEST(C11, cuts, 0, 2) { Bytes b = gen_ser(r); if (b.size() > 100) b.resize(100); for (size_t k = 0; k <= b.size(); k++) check_deser(Bytes(b.begin(), b.begin() + k)); }
TEST(C11, bytes, 0, 3) { Bytes b = r.p(70) ? gen_ser(r) : gen_bytes(r, r(40)); if (r.p(40) && !b.empty()) b[r(b.size())] ^= 1 << r(8); if (r.p(20)) put(b, gen_bytes(r, r(5))); check_deser(b); }
// --------------------------------------------------------------------------- C17
TEST(C17, sort, 0, 5) {
	std::vector<Bytes> v;
	int m = r(4);
	for (int k = r.p(5) ? r(300) : r(8); k--;) {
		Bytes b = m == 0 ? gen_bytes(r, r(4)) : m == 1 ? gen_bytes(r, r(30)) : Bytes(r(4));
		if (m >= 2) for (auto &c : b) { static const uint8_t al[] = {0, 1, 127, 128, 129, 255}; c = al[r(6)]; }
		if (r.p(2)) b.resize(r.p(50) ? 32767 + r(3) : r(65536), 1);
		if (!v.empty() && r.p(10)) b = r.pick(v);
		v.push_back(b);
	}
	RS s;
	s.s.rrtype = 5; s.s.rrclass = 6; s.s.rrttl = 7;
	Bytes n = gen_name(r, 20);
	s.build(n, v);
	std::string d;
	for (auto &b : v) d += hex(b) + " ";
	note("data %s", d.c_str());
	if (wdns_sort_rrset(&s.s) != wdns_res_success) fail("failed");
	auto g = s.data();
	if (s.name() != n || s.s.rrtype != 5 || s.s.rrclass != 6 || s.s.rrttl != 7 || s.s.n_rdatas != v.size()) fail("another field changed");
	std::sort(v.begin(), v.end(), [](const Bytes &a, const Bytes &b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
	nontrivial();
	if (g != v) fail("not the sorted data");
}
TEST(C17, pairs, 65536, 0) {
	RS s;
	s.build(Bytes{0}, {Bytes{1, (uint8_t) idx}, Bytes{1, (uint8_t) (idx >> 8)}});
	note("data 01%02x 01%02x", (int) (idx & 255), (int) (idx >> 8));
	wdns_sort_rrset(&s.s);
	auto g = s.data();
	std::vector<Bytes> e = {Bytes{1, (uint8_t) idx}, Bytes{1, (uint8_t) (idx >> 8)}};
	std::sort(e.begin(), e.end());
	if (g != e) fail("wrong order");
}
