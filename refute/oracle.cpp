#include "oracle.hpp"
#include <arpa/inet.h>

// ================================================================= names
NameRes o_unpack(const uint8_t *p, size_t n, long start, bool ptrs) {
	NameRes r{false, {}};
	if (start < 0 || (size_t) start >= n) return r;
	size_t pos = start;
	for (;;) {
		if (pos >= n) return r;
		unsigned c = p[pos];
		if (c == 0) { r.out.push_back(0); r.ok = r.out.size() <= 255; return r; }
		if (c >= 192) {
			if (!ptrs || pos + 1 >= n) return r;
			size_t t = (c & 63u) * 256u + p[pos + 1];
			if (t >= pos) return r;
			pos = t;
		} else if (c > 63) return r;
		else {
			if (pos + 1 + c > n) return r;
			r.out.insert(r.out.end(), p + pos, p + pos + 1 + c);
			if (r.out.size() > 254) return r;
			pos += 1 + c;
		}
	}
}
size_t o_skip(const uint8_t *p, size_t n, size_t pos) {
	size_t s = pos;
	while (pos < n && p[pos] != 0 && p[pos] < 192) pos += 1 + p[pos];
	return pos + (pos < n && p[pos] >= 192 ? 2 : 1) - s;
}
bool o_wellformed(const Bytes &b) {
	if (b.size() > 255) return false;
	size_t i = 0;
	while (i < b.size()) {
		unsigned c = b[i];
		if (c > 63) return false;
		if (c == 0) return i + 1 == b.size();
		i += 1 + c;
	}
	return false;
}
std::vector<Bytes> o_labels(const Bytes &b) {
	std::vector<Bytes> v;
	for (size_t i = 0; i < b.size() && b[i] && i + 1 + b[i] <= b.size(); i += 1 + b[i]) v.push_back(Bytes(b.begin() + i + 1, b.begin() + i + 1 + b[i]));
	return v;
}
std::string o_name_text(const Bytes &b) {
	std::string s;
	for (auto &l : o_labels(b)) {
		for (uint8_t c : l) {
			char t[8];
			if (c == '.' || c == '\\') { s += '\\'; s += (char) c; }
			else if (c > 32 && c < 127) s += (char) c;
			else { snprintf(t, sizeof t, "\\%03u", c); s += t; }
		}
		s += '.';
	}
	return s.empty() ? "." : s;
}
Bytes o_lower(const Bytes &b) {
	Bytes o = b;
	for (auto &c : o) if (c >= 'A' && c <= 'Z') c = c - 'A' + 'a';
	return o;
}
uint8_t gen_octet(Rng &r) {
	switch (r(8)) {
	case 0: return r.byte();
	case 1: { static const uint8_t x[] = {0, '.', '\\', '"', ' ', ',', ';', '@', '$', 127, 128, 255, '[', '`', '{', 'Z', 'A', '0', '9', '-', '=', '\n', '\t', '/', ':', '!', '~', '(', 31, '#'}; return x[r(sizeof x)]; }
	case 2: return 'A' + r(26);
	case 3: return '0' + r(10);
	default: return 'a' + r(26);
	}
}
Bytes gen_bytes(Rng &r, size_t n) {
	Bytes b(n);
	int m = r(3);
	for (auto &c : b) c = m == 0 ? r.byte() : m == 1 ? gen_octet(r) : (r.p(90) ? 'a' + r(26) : r.byte());
	return b;
}
Bytes gen_label_bytes(Rng &r, int len) {
	Bytes b(len);
	int m = r(4);
	for (auto &c : b) c = m == 0 ? r.byte() : m == 1 ? gen_octet(r) : m == 2 ? (r.p(50) ? 'A' + r(26) : 'a' + r(26)) : 'a' + r(3);
	return b;
}
Bytes gen_name(Rng &r, int maxlen) {
	Bytes b;
	int style = r(8);
	int target = style == 0 ? maxlen : style == 1 ? maxlen - r(8) : style == 2 ? r(maxlen) + 1 : r.range(1, std::min(maxlen, 30));
	if (target < 1) target = 1;
	if (target > maxlen) target = maxlen;
	while ((int) b.size() + 1 < target) {
		int room = target - (int) b.size() - 2;     // label octets that still leave the root
		if (room < 1) break;
		int l = style <= 1 ? (r.p(60) ? 63 : r.range(1, 63)) : style == 3 ? 1 : r.range(1, r.p(20) ? 63 : 8);
		if (l > room) l = room;
		b.push_back(l);
		put(b, gen_label_bytes(r, l));
	}
	b.push_back(0);
	return b;
}

// ================================================================= record types
const std::vector<RType> &rtypes() {
	static const std::vector<RType> t = {
		{5, "CNAME", 0, {F_NAME}}, {13, "HINFO", 0, {F_STR, F_STR}}, {7, "MB", 0, {F_NAME}}, {3, "MD", 0, {F_NAME}}, {4, "MF", 0, {F_NAME}},
		{8, "MG", 0, {F_NAME}}, {14, "MINFO", 0, {F_NAME, F_NAME}}, {9, "MR", 0, {F_NAME}}, {15, "MX", 0, {F_INT16, F_NAME}}, {2, "NS", 0, {F_NAME}},
		{10, "NULL", 0, {F_REST_HEX}}, {12, "PTR", 0, {F_NAME}},
		{6, "SOA", 0, {F_NAME, F_NAME, F_INT32, F_INT32, F_INT32, F_INT32, F_INT32}}, {16, "TXT", 0, {F_STRS}},
		{1, "A", 1, {F_IP4}}, {11, "WKS", 1, {F_INT32, F_INT8, F_REST_HEX}}, {18, "AFSDB", 0, {F_INT16, F_NAME}}, {20, "ISDN", 0, {F_STR, F_STR}},
		{17, "RP", 0, {F_NAME, F_NAME}}, {21, "RT", 0, {F_INT16, F_NAME}}, {19, "X25", 0, {F_STR}}, {30, "NXT", 0, {F_NAME, F_REST_HEX}},
		{24, "SIG", 0, {F_INT16, F_INT8, F_INT8, F_INT32, F_INT32, F_INT32, F_INT16, F_NAME, F_REST_HEX}}, {39, "DNAME", 0, {F_UNAME}},
		{38, "A6", 1, {F_A6, F_UNAME}}, {28, "AAAA", 1, {F_IP6}}, {36, "KX", 1, {F_INT16, F_UNAME}}, {26, "PX", 1, {F_INT16, F_NAME, F_NAME}},
		{35, "NAPTR", 1, {F_INT16, F_INT16, F_STR, F_STR, F_STR, F_NAME}}, {33, "SRV", 1, {F_INT16, F_INT16, F_INT16, F_NAME}},
		{48, "DNSKEY", 0, {F_INT16, F_INT8, F_INT8, F_REST_B64}},
		{46, "RRSIG", 0, {F_RRTYPE, F_INT8, F_INT8, F_INT32, F_INT32, F_INT32, F_INT16, F_UNAME, F_REST_B64}},
		{47, "NSEC", 0, {F_UNAME, F_BITMAP}}, {43, "DS", 0, {F_INT16, F_INT8, F_INT8, F_REST_HEX}},
		{50, "NSEC3", 0, {F_INT8, F_INT8, F_INT16, F_SALT, F_HASH, F_BITMAP}}, {51, "NSEC3PARAM", 0, {F_INT8, F_INT8, F_INT16, F_SALT}},
		{99, "SPF", 0, {F_STRS}}, {52, "TLSA", 0, {F_INT8, F_INT8, F_INT8, F_REST_HEX}}, {60, "CDNSKEY", 0, {F_INT16, F_INT8, F_INT8, F_REST_B64}},
		{59, "CDS", 0, {F_INT16, F_INT8, F_INT8, F_REST_HEX}}, {61, "OPENPGPKEY", 0, {F_REST_B64}}, {62, "CSYNC", 0, {F_INT32, F_INT16, F_BITMAP}},
		{108, "EUI48", 0, {F_EUI48}}, {109, "EUI64", 0, {F_EUI64}}, {256, "URI", 0, {F_INT16, F_INT16, F_REST_QSTR}},
		{64, "SVCB", 1, {F_INT16, F_NAME, F_SVC}}, {65, "HTTPS", 1, {F_INT16, F_NAME, F_SVC}}, {257, "CAA", 1, {F_INT8, F_STR, F_REST_QSTR}},
		{41, "OPT", 0, {F_OPT}},
	};
	return t;
}
const RType *rtype(int t) {
	for (auto &x : rtypes()) if (x.type == t) return &x;
	return nullptr;
}
int gen_type(Rng &r) {
	switch (r(10)) {
	case 0: return r(65536);
	case 1: return r(300);
	case 2: { static const int x[] = {0, 41, 65535, 32768, 32769, 22, 25, 29, 37, 44, 45, 249, 250, 251, 252, 255, 258, 63, 66}; return x[r(19)]; }
	default: return rtypes()[r(rtypes().size())].type;
	}
}
int gen_class(Rng &r) { return r.p(80) ? 1 : r.p(50) ? (int) r(5) : r.p(50) ? 255 - (int) r(2) : (int) r(65536); }

static int a6_octets(int prefix) { return (128 - prefix + 7) / 8; }

static bool svc_ok(int key, const uint8_t *v, size_t n) {
	switch (key) {
	case 0: return n % 2 == 0;
	case 1: {
		if (n == 0) return false;
		size_t i = 0;
		while (i < n) i += 1 + v[i];
		return i == n;
	}
	case 2: return n == 0;
	case 3: return n == 2;
	case 4: return n % 4 == 0;
	case 6: return n % 16 == 0;
	case 65535: return false;
	default: return true;
	}
}

RdRes o_parse_rdata(const uint8_t *pkt, size_t n, size_t off, size_t rdlen, int type, int cls) {
	RdRes R{false, {}};
	const RType *t = rtype(type);
	if (!t || (t->cls && t->cls != cls)) { R.ok = true; R.out = Bytes(pkt + off, pkt + off + rdlen); return R; }
	size_t pos = off, end = off + rdlen;
	auto take = [&](size_t k) { if (end - pos < k) return false; R.out.insert(R.out.end(), pkt + pos, pkt + pos + k); pos += k; return true; };
	for (Fld f : t->f) {
		if (pos == end) break;
		bool ok = true;
		switch (f) {
		case F_NAME: case F_UNAME: {
			NameRes nr = o_unpack(pkt, n, pos, true);
			if (!nr.ok) return R;
			size_t k = o_skip(pkt, n, pos);
			if (k > end - pos) return R;
			put(R.out, nr.out);
			pos += k;
			break;
		}
		case F_REST_HEX: case F_REST_B64: case F_REST_QSTR: case F_OPT: ok = take(end - pos); break;
		case F_INT8: ok = take(1); break;
		case F_INT16: case F_RRTYPE: ok = take(2); break;
		case F_INT32: case F_IP4: ok = take(4); break;
		case F_IP6: ok = take(16); break;
		case F_EUI48: ok = take(6); break;
		case F_EUI64: ok = take(8); break;
		case F_STR: case F_SALT: case F_HASH: ok = take(1 + pkt[pos]); break;
		case F_STRS: while (ok && pos < end) ok = take(1 + pkt[pos]); break;
		case F_A6: ok = pkt[pos] <= 128 && take(1 + a6_octets(pkt[pos])); break;
		case F_BITMAP:
			while (ok && end - pos >= 2) ok = pkt[pos + 1] >= 1 && pkt[pos + 1] <= 32 && take(2 + pkt[pos + 1]);
			break;
		case F_SVC:
			while (ok && pos < end) {
				if (end - pos < 4) return R;
				int key = pkt[pos] * 256 + pkt[pos + 1];
				size_t vl = pkt[pos + 2] * 256 + pkt[pos + 3];
				ok = vl + 4 <= end - pos && svc_ok(key, pkt + pos + 4, vl) && take(4 + vl);
			}
			break;
		}
		if (!ok) return R;
	}
	R.ok = pos == end && R.out.size() <= 65535;
	return R;
}

static void gen_wname(Rng &r, Bytes &b, const std::vector<size_t> &offs, size_t here, bool compress) {
	if (compress && !offs.empty() && r.p(60)) {
		int k = r.p(60) ? 0 : r.range(1, 3);
		for (int i = 0; i < k; i++) { int l = r.range(1, 12); b.push_back(l); put(b, gen_label_bytes(r, l)); }
		size_t o = r.pick(offs);
		if (o < 16384 && (o < here || r.p(5))) { put16(b, 0xC000 | (unsigned) o); return; }
		b.push_back(0);
	} else put(b, gen_name(r, r.p(10) ? 255 : 60));
}

static Bytes gen_svc_val(Rng &r, int key) {
	Bytes v;
	switch (key) {
	case 0: for (int i = r.range(1, 3); i--;) put16(v, r.p(70) ? r(8) : r(65536)); break;
	case 1: for (int i = r.range(1, 3); i--;) { Bytes x = gen_bytes(r, r.p(5) ? (r.p(50) ? 255 - r(2) : r(256)) : r.range(1, 9)); put8(v, x.size()); put(v, x); } break;
	case 2: break;
	case 3: put16(v, r(65536)); break;
	case 4: for (int i = r.range(1, 3); i--;) put32(v, (uint32_t) r.next()); break;
	case 5: v = gen_bytes(r, r.range(1, 40)); break;
	case 6: for (int i = r.range(1, 2); i--;) put(v, gen_bytes(r, 16)); break;
	default: v = gen_bytes(r, r.p(5) ? r(400) : r(12));
	}
	if (r.p(4)) v = gen_bytes(r, r(40));
	return v;
}

static Bytes gen_opt(Rng &r) {
	Bytes b;
	for (int i = r(4); i--;) {
		int code = r.p(30) ? 8 : r.p(30) ? 15 : r.p(30) ? 10 : r.p(50) ? (int) r(20) : (int) r(65536);
		Bytes v;
		if (code == 8) { int fam = r.p(90) ? 1 + r(2) : (int) r(5); put16(v, fam); put8(v, r(130)); put8(v, r(130)); put(v, gen_bytes(r, r(fam == 1 ? 6 : 18))); }
		else if (code == 15) { put16(v, r.p(80) ? r(30) : r(65536)); put(v, gen_bytes(r, r(20))); }
		else v = gen_bytes(r, r(20));
		if (r.p(5)) v.resize(r(v.size() + 1));
		put16(b, code); put16(b, v.size() + (r.p(2) ? r(5) : 0)); put(b, v);
	}
	return b;
}

Bytes gen_rdata(Rng &r, int type, int cls, const std::vector<size_t> &offs, size_t here, bool compress) {
	Bytes b;
	const RType *t = rtype(type);
	if (!t || (t->cls && t->cls != cls) || r.p(2)) return gen_bytes(r, r.p(5) ? r(600) : r(24));
	size_t nf = t->f.size();
	if (r.p(8)) nf = r(nf + 1);
	for (size_t i = 0; i < nf; i++) {
		switch (t->f[i]) {
		case F_NAME: case F_UNAME: gen_wname(r, b, offs, here + b.size(), compress); break;
		case F_REST_HEX: case F_REST_B64: case F_REST_QSTR: put(b, gen_bytes(r, r.p(4) ? r(700) : r(40))); break;
		case F_OPT: put(b, gen_opt(r)); break;
		case F_INT8: put8(b, r.byte()); break;
		case F_INT16: put16(b, r(65536)); break;
		case F_RRTYPE: put16(b, r.p(80) ? gen_type(r) : r(65536)); break;
		case F_INT32: put32(b, r.p(20) ? (r.p(50) ? 0xffffffffu : 0x80000000u) : (uint32_t) r.next()); break;
		case F_IP4: put(b, gen_bytes(r, 4)); break;
		case F_IP6: { Bytes x(16); if (r.p(50)) for (int k = r(6); k--;) x[r(16)] = r.byte(); else x = gen_bytes(r, 16); if (r.p(10)) for (int k = 0; k < 10; k++) x[k] = 0; if (r.p(5)) x[10] = x[11] = 255; put(b, x); break; }
		case F_EUI48: put(b, gen_bytes(r, 6)); break;
		case F_EUI64: put(b, gen_bytes(r, 8)); break;
		case F_STR: { Bytes x = gen_bytes(r, r.p(5) ? 255 : r.p(10) ? r(256) : r(14)); put8(b, x.size()); put(b, x); break; }
		case F_SALT: { Bytes x = gen_bytes(r, r.p(20) ? 0 : r.p(5) ? 255 : r(14)); put8(b, x.size()); put(b, x); break; }
		case F_HASH: { Bytes x = gen_bytes(r, r.p(10) ? 0 : r.p(5) ? 255 : r.p(50) ? 20 : r(25)); put8(b, x.size()); put(b, x); break; }
		case F_STRS: for (int k = r(4) + 1; k--;) { Bytes x = gen_bytes(r, r.p(5) ? 255 : r(14)); put8(b, x.size()); put(b, x); } break;
		case F_A6: { int p = r.p(30) ? 128 : r.p(30) ? 0 : r.p(90) ? r(129) : r.p(50) ? 129 + r(8) : r(256); put8(b, p); put(b, gen_bytes(r, p <= 128 ? a6_octets(p) : r(17))); break; }
		case F_BITMAP: { int w = r(3); for (int k = r(4); k--; w += 1 + r(60)) { if (w > 255) break; int l = r.p(20) ? 32 : r.range(1, 32); Bytes x(l); for (int q = r.range(1, 6); q--;) x[r(l)] |= 1 << r(8); if (r.p(90)) x[l - 1] |= 1 << r(8); put8(b, w); put8(b, r.p(2) ? r(40) : l); put(b, x); } break; }
		case F_SVC: { int key = r(3); for (int k = r(5); k--; key += 1 + (r.p(80) ? 0 : r.p(50) ? r(20) : r(30000))) { Bytes v = gen_svc_val(r, key); put16(b, key); put16(b, v.size() + (r.p(2) ? r(3) : 0)); put(b, v); } break; }
		}
	}
	if (r.p(6)) { // spoil it
		switch (r(4)) {
		case 0: if (!b.empty()) b.resize(r(b.size())); break;
		case 1: put(b, gen_bytes(r, 1 + r(3))); break;
		case 2: if (!b.empty()) b[r(b.size())] = r.byte(); break;
		default: if (!b.empty()) b[r(b.size())] ^= 1 << r(8);
		}
	}
	return b;
}

// ================================================================= text of record data
static void q_bytes(std::string &s, const uint8_t *p, size_t n, const char *bs, const char *comma) {
	char t[8];
	for (size_t i = 0; i < n; i++) {
		uint8_t c = p[i];
		if (c == '"') s += "\\\"";
		else if (c == '\\') s += bs;
		else if (c == ',') s += comma;
		else if (c >= 32 && c < 127) s += (char) c;
		else { snprintf(t, sizeof t, "\\%03u", c); s += t; }
	}
}
static std::string q_str(const uint8_t *p, size_t n) { std::string s = "\""; q_bytes(s, p, n, "\\\\", ","); return s + "\" "; }
static std::string o_hex(const uint8_t *p, size_t n, bool up) {
	std::string s;
	for (size_t i = 0; i < n; i++) { const char *d = up ? "0123456789ABCDEF" : "0123456789abcdef"; s += d[p[i] >> 4]; s += d[p[i] & 15]; }
	return s;
}
std::string o_b64(const uint8_t *p, size_t n) {
	static const char *d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string s;
	for (size_t i = 0; i < n; i += 3) {
		uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
		s += d[v >> 18]; s += d[v >> 12 & 63];
		s += i + 1 < n ? d[v >> 6 & 63] : '=';
		s += i + 2 < n ? d[v & 63] : '=';
	}
	return s;
}
std::string o_b32(const uint8_t *p, size_t n) {
	static const char *d = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
	std::string s;
	size_t bits = n * 8;
	for (size_t b = 0; b < bits; b += 5) {
		int v = 0;
		for (size_t k = b; k < b + 5; k++) v = v * 2 + (k < bits ? p[k / 8] >> (7 - k % 8) & 1 : 0);
		s += d[v];
	}
	return s;
}
std::string o_ip(int af, const uint8_t *p) {
	char t[INET6_ADDRSTRLEN];
	inet_ntop(af, p, t, sizeof t);
	return t;
}
std::string o_type_name(int t) {
	const char *s = wdns_rrtype_to_str(t);    // tables are decided by C14
	return s ? s : "TYPE" + std::to_string(t);
}
static const char *svc_names[] = {"mandatory", "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "ipv6hint"};
static std::string svc_name(int k) { return k < 7 ? svc_names[k] : "key" + std::to_string(k); }
static const char *ede[] = {"Other Error", "Unsupported DNSKEY Algorithm", "Unsupported DS Digest Type", "Stale Answer", "Forged Answer",
	"DNSSEC Indeterminate", "DNSSEC Bogus", "Signature Expired", "Signature Not Yet Valid", "DNSKEY Missing", "RRSIGs Missing", "No Zone Key Bit Set",
	"NSEC Missing", "Cached Error", "Not Ready", "Blocked", "Censored", "Filtered", "Prohibited", "Stale NXDomain Answer", "Not Authoritative",
	"Not Supported", "No Reachable Authority", "Network Error", "Invalid Data"};

static std::string dots(const uint8_t *p, size_t n) {
	std::string s;
	for (size_t i = 0; i < n; i++) s += p[i] >= 32 && p[i] < 127 ? (char) p[i] : '.';
	return s;
}

// returns false when the text form is not specified (data not well formed)
bool o_rdata_text(const Bytes &rd, int type, int cls, std::string &s, bool &generic) {
	const RType *t = rtype(type);
	s.clear();
	generic = false;
	const uint8_t *p = rd.data();
	if (!t) {
		generic = true;
		s = "\\# " + std::to_string(rd.size()) + " ";
		for (size_t i = 0; i < rd.size(); i++) s += o_hex(p + i, 1, false) + " ";
		return true;
	}
	if (t->cls && t->cls != cls) return false;      // known type in a foreign class: not specified
	size_t pos = 0, end = rd.size();
	for (Fld f : t->f) {
		if (pos == end) break;
		size_t left = end - pos;
		switch (f) {
		case F_NAME: case F_UNAME: {
			NameRes nr = o_unpack(p, end, pos, false);
			if (!nr.ok) return false;
			s += o_name_text(nr.out) + " ";
			pos += nr.out.size();
			break;
		}
		case F_REST_HEX: s += o_hex(p + pos, left, true); pos = end; break;
		case F_REST_B64: s += o_b64(p + pos, left); pos = end; break;
		case F_REST_QSTR: s += q_str(p + pos, left); pos = end; break;
		case F_INT8: s += std::to_string(p[pos++]) + " "; break;
		case F_INT16: if (left < 2) return false; s += std::to_string(p[pos] << 8 | p[pos + 1]) + " "; pos += 2; break;
		case F_RRTYPE: if (left < 2) return false; s += o_type_name(p[pos] << 8 | p[pos + 1]) + " "; pos += 2; break;
		case F_INT32: if (left < 4) return false; s += std::to_string((uint32_t) p[pos] << 24 | p[pos + 1] << 16 | p[pos + 2] << 8 | p[pos + 3]) + " "; pos += 4; break;
		case F_IP4: if (left < 4) return false; s += o_ip(AF_INET, p + pos) + " "; pos += 4; break;
		case F_IP6: if (left < 16) return false; s += o_ip(AF_INET6, p + pos) + " "; pos += 16; break;
		case F_EUI48: case F_EUI64: {
			size_t k = f == F_EUI48 ? 6 : 8;
			if (left < k) return false;
			for (size_t i = 0; i < k; i++) s += (i ? "-" : "") + o_hex(p + pos + i, 1, false);
			pos += k;
			break;
		}
		case F_STR: { size_t k = p[pos]; if (left < 1 + k) return false; s += q_str(p + pos + 1, k); pos += 1 + k; break; }
		case F_STRS: while (pos < end) { size_t k = p[pos]; if (end - pos < 1 + k) return false; s += q_str(p + pos + 1, k); pos += 1 + k; } break;
		case F_SALT: { size_t k = p[pos]; if (left < 1 + k) return false; s += (k ? o_hex(p + pos + 1, k, false) : "-") + " "; pos += 1 + k; break; }
		case F_HASH: { size_t k = p[pos]; if (left < 1 + k) return false; s += (k ? o_b32(p + pos + 1, k) : "0") + " "; pos += 1 + k; break; }
		case F_A6: {
			int pl = p[pos];
			if (pl > 128 || left < 1u + a6_octets(pl)) return false;
			size_t k = a6_octets(pl);
			s += std::to_string(pl) + " ";
			if (k) { uint8_t a[16] = {0}; memcpy(a + 16 - k, p + pos + 1, k); s += o_ip(AF_INET6, a) + " "; }
			pos += 1 + k;
			break;
		}
		case F_BITMAP:
			if (left < 2) return false;
			while (end - pos >= 2) {
				int w = p[pos], l = p[pos + 1];
				if (end - pos - 2 < (size_t) l) return false;
				if (l < 1 || l > 32) return false;
				for (int i = 0; i < l * 8; i++) if (p[pos + 2 + i / 8] & (128 >> (i % 8))) s += o_type_name(w << 8 | i) + " ";
				pos += 2 + l;
			}
			if (pos != end) return false;
			break;
		case F_SVC:
			while (pos < end) {
				if (end - pos < 4) return false;
				int key = p[pos] << 8 | p[pos + 1];
				size_t vl = p[pos + 2] << 8 | p[pos + 3];
				pos += 4;
				if (vl > end - pos || !svc_ok(key, p + pos, vl)) return false;
				const uint8_t *v = p + pos;
				s += svc_name(key);
				if (key != 2) s += "=";
				// a list that must not be empty has no text form
				if (vl == 0 && (key == 0 || key == 4 || key == 6)) return false;
				std::string l;
				switch (key) {
				case 0: for (size_t i = 0; i < vl; i += 2) l += (i ? "," : "") + ((v[i] << 8 | v[i + 1]) == 65535 ? "invalid key" : svc_name(v[i] << 8 | v[i + 1])); s += l + " "; break;
				case 1: l = "\""; for (size_t i = 0; i < vl; i += 1 + v[i]) { if (i) l += ","; q_bytes(l, v + i + 1, v[i], "\\\\\\\\", "\\\\,"); } s += l + "\" "; break;
				case 2: s += " "; break;
				case 3: s += std::to_string(v[0] << 8 | v[1]) + " "; break;
				case 4: for (size_t i = 0; i < vl; i += 4) l += (i ? "," : "") + o_ip(AF_INET, v + i); s += l + " "; break;
				case 5: s += o_b64(v, vl) + " "; break;
				case 6: for (size_t i = 0; i < vl; i += 16) l += (i ? "," : "") + o_ip(AF_INET6, v + i); s += l + " "; break;
				default: s += q_str(v, vl);
				}
				pos += vl;
			}
			break;
		case F_OPT:
			while (pos < end) {
				if (end - pos < 4) return false;
				int code = p[pos] << 8 | p[pos + 1];
				size_t l = p[pos + 2] << 8 | p[pos + 3];
				pos += 4;
				if (l > end - pos) return false;
				const uint8_t *v = p + pos;
				if (code == 8) {
					if (l < 4) return false;
					int fam = v[0] << 8 | v[1];
					if ((fam != 1 && fam != 2) || l - 4 > (fam == 1 ? 4u : 16u)) return false;
					uint8_t a[16] = {0};
					memcpy(a, v + 4, l - 4);
					s += "CLIENT-SUBNET: " + o_ip(fam == 1 ? AF_INET : AF_INET6, a) + "/" + std::to_string(v[2]) + "/" + std::to_string(v[3]);
				} else if (code == 15) {
					if (l < 2) return false;
					int c = v[0] << 8 | v[1];
					s += "EDE: " + std::to_string(c) + (c < 25 ? std::string(" (") + ede[c] + ")" : "") + ": (" + dots(v + 2, l - 2) + ")";
				} else {
					s += "OPT=" + std::to_string(code) + ": ";
					for (size_t i = 0; i < l; i++) s += o_hex(v + i, 1, false) + " ";
					s += "(\"" + dots(v, l) + "\")";
				}
				pos += l;
				if (pos < end) s += "\n";
			}
			break;
		}
	}
	if (pos != end) return false;
	if (!s.empty() && s.back() == ' ') s.pop_back();
	return true;
}
