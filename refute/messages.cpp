#include "oracle.hpp"

struct ORR { Bytes name; int type = 0, cls = 0; uint32_t ttl = 0; bool hasrd = false; Bytes rd; };
struct OMsg { bool ok = false; int id = 0, flags = 0, rcode = 0; std::vector<ORR> sec[4]; bool edns = false; int esize = 0, ever = 0, eflags = 0; bool ehas = false; Bytes eopt; };

static OMsg o_parse_message(const Bytes &b) {
	OMsg m;
	const uint8_t *p = b.data();
	size_t n = b.size();
	if (n < 12) return m;
	auto g16 = [&](size_t i) { return (int) p[i] * 256 + p[i + 1]; };
	m.id = g16(0); m.flags = g16(2); m.rcode = m.flags & 15;
	size_t pos = 12;
	for (int s = 0; s < 4; s++)
		for (int k = 0; k < g16(4 + 2 * s); k++) {
			if (pos == n) { m.ok = true; return m; }
			ORR r;
			NameRes nr = o_unpack(p, n, pos, true);
			if (!nr.ok) return m;
			r.name = nr.out;
			pos += o_skip(p, n, pos);
			if (n - pos < (s == 0 ? 4u : 10u)) return m;
			r.type = g16(pos); r.cls = g16(pos + 2); pos += 4;
			if (s) {
				r.ttl = (uint32_t) g16(pos) << 16 | g16(pos + 2);
				size_t rl = g16(pos + 4);
				pos += 6;
				if (n - pos < rl) return m;
				RdRes x = o_parse_rdata(p, n, pos, rl, r.type, r.cls);
				if (!x.ok) return m;
				r.hasrd = true; r.rd = x.out;
				pos += rl;
			}
			if (r.type == 41 && !m.edns) {
				m.edns = true; m.esize = r.cls; m.ever = r.ttl >> 16 & 255; m.eflags = r.ttl & 65535;
				m.rcode |= r.ttl >> 24 << 8; m.ehas = r.hasrd; m.eopt = r.rd;
			} else m.sec[s].push_back(r);
		}
	m.ok = true;
	return m;
}

static Bytes flipcase(Rng &r, const Bytes &b) {
	Bytes o = b;
	for (size_t i = 0; i < o.size(); i += 1 + o[i]) for (size_t k = i + 1; k < o.size() && k <= i + o[i]; k++) if (isalpha(o[k]) && r.p(50)) o[k] ^= 32;
	return o;
}
Bytes gen_message(Rng &r, int spoilpct) {
	Bytes b;
	int counts[4];
	std::vector<size_t> offs;
	int heavy = r.p(4);
	put16(b, r(65536)); put16(b, r(65536));
	for (int s = 0; s < 4; s++) { counts[s] = heavy ? r(30) : r.p(30) ? 0 : r.range(0, s ? 4 : 2); put16(b, counts[s] + (r.p(4) ? r(5) : 0) - (r.p(2) && counts[s] ? 1 : 0)); }
	std::vector<Bytes> pool;
	for (int i = r.range(1, 4); i--;) pool.push_back(gen_name(r, r.p(5) ? 255 : 40));
	if (r.p(30)) pool.push_back(Bytes{0});
	std::vector<std::pair<int,int>> tc;
	for (int i = r.range(1, 4); i--;) { int t = gen_type(r); const RType *q = rtype(t); tc.push_back({t, q && q->cls && r.p(90) ? q->cls : gen_class(r)}); }
	for (int s = 0; s < 4; s++)
		for (int k = 0; k < counts[s]; k++) {
			bool opt = s && r.p(s == 3 ? 25 : 4);
			size_t here = b.size();
			if (opt && r.p(80)) b.push_back(0);
			else if (!offs.empty() && r.p(40)) { size_t o = r.pick(offs); if (o < 16384) put16(b, 0xC000 | (unsigned) o); else b.push_back(0); }
			else {
				Bytes nm = flipcase(r, r.pick(pool));
				for (size_t i = 0; i < nm.size() && nm[i]; i += 1 + nm[i]) offs.push_back(here + i);
				put(b, nm);
			}
			auto c = r.pick(tc);
			int type = opt ? 41 : c.first, cls = opt ? (int) r(65536) : c.second;
			put16(b, type); put16(b, cls);
			if (s == 0) continue;
			put32(b, r.p(20) ? (uint32_t) r(3) : r.p(20) ? 0xffffffff - (uint32_t) r(3) : (uint32_t) r.next());
			size_t lp = b.size();
			put16(b, 0);
			Bytes rd = gen_rdata(r, type, cls, offs, b.size(), true);
			if (rd.size() > 60000) rd.resize(60000);
			put(b, rd);
			b[lp] = rd.size() >> 8; b[lp + 1] = rd.size();
			if (r.p(1)) b[lp + 1] += r.range(-2, 2);
		}
	if (r.p(5)) put(b, gen_bytes(r, r.range(1, 30)));
	if (r.p(spoilpct)) switch (r(3)) {
		case 0: b.resize(r(b.size() + 1)); break;
		case 1: b[r(b.size())] = r.byte(); break;
		default: b[r(b.size())] ^= 1 << r(8);
	}
	return b;
}
static Bytes eff(const wdns_name_t &n) { return Bytes(n.data, n.data + n.len); }
static Bytes erd(const wdns_rdata_t *d) { return Bytes(d->data, d->data + d->len); }

static void check_parse(const Bytes &b, const std::function<void(wdns_message_t &, const OMsg &)> &f) {
	note("message %s", hex(b).c_str());
	OMsg e = o_parse_message(b);
	Buf pkt(b);
	wdns_message_t m;
	memset(&m, 0x77, sizeof m);
	LeakCheck lc;
	wdns_res res = wdns_parse_message(&m, pkt.p, pkt.n);
	if (res == wdns_res_success) {
		nontrivial();
		{ if (pkt.bytes() != b) fail("the packet was modified"); }
		if (e.ok) f(m, e);
		else { Bytes t; f(m, e); }
		wdns_clear_message(&m);
	}
	lc.done(res ? "failed parse" : "parse and clear");
}
static void check_structure(wdns_message_t &m, const OMsg &e, bool ok) {
	// every pointer and length describes memory the message owns (ASan checks the reads)
	uint64_t sum = 0;
	for (int s = 0; s < 4; s++) {
		auto &a = m.sections[s];
		for (int i = 0; i < a.n_rrs; i++) {
			auto &r = a.rrs[i];
			for (int k = 0; k < r.name.len; k++) sum += r.name.data[k];
			if (s == 0 && r.rdata) fail("a question carries record data");
			if (s && !r.rdata) fail("a record has no record data");
			if (r.rdata) for (int k = 0; k < r.rdata->len; k++) sum += r.rdata->data[k];
			if (!o_wellformed(eff(r.name))) fail("owner name of record %d of section %d is not well formed", i, s);
		}
		for (int i = 0; i < a.n_rrsets; i++) {
			auto &r = a.rrsets[i];
			for (int k = 0; k < r.name.len; k++) sum += r.name.data[k];
			for (int j = 0; j < r.n_rdatas; j++) for (int k = 0; k < r.rdatas[j]->len; k++) sum += r.rdatas[j]->data[k];
		}
	}
	if (m.edns.present && m.edns.options) for (int k = 0; k < m.edns.options->len; k++) sum += m.edns.options->data[k];
	if (sum == 0x123456789abcdefull) note("%lu", (unsigned long) sum);
	(void) e; (void) ok;
}
TEST(C01, message, 0, 10) {
	check_parse(gen_message(r, 30), [](wdns_message_t &m, const OMsg &e) { check_structure(m, e, e.ok); });
}
TEST(C01, truncations, 0, 1) {
	Bytes b = gen_message(r, 0);
	if (b.size() > 600) b.resize(600);
	for (size_t k = 0; k <= b.size(); k++) check_parse(Bytes(b.begin(), b.begin() + k), [](wdns_message_t &m, const OMsg &e) { check_structure(m, e, e.ok); });
}
TEST(C01, random_bytes, 0, 2) {
	Bytes b = gen_bytes(r, r(80));
	if (b.size() >= 12 && r.p(80)) for (int i = 4; i < 12; i += 2) { b[i] = 0; b[i + 1] = r(4); }
	for (size_t i = 12; i < b.size(); i++) if (r.p(60)) b[i] = r.p(50) ? 0 : r.p(50) ? 192 + r(1) : r(20);
	check_parse(b, [](wdns_message_t &m, const OMsg &e) { check_structure(m, e, e.ok); });
}
// large record data of one type: size arithmetic near 65535
static Bytes one_record(Rng &r, int type, int cls, const Bytes &rd, bool opt_first, const Bytes &pre = {}) {
	Bytes b;
	put16(b, r(65536)); put16(b, r(65536)); put16(b, pre.empty() ? 0 : 1); put16(b, opt_first ? 2 : 1); put16(b, 0); put16(b, 0);
	if (!pre.empty()) { put(b, pre); put16(b, 1); put16(b, 1); }
	if (opt_first) { b.push_back(0); put16(b, 41); put16(b, 512); put32(b, 0); put16(b, 0); }
	b.push_back(0); put16(b, type); put16(b, cls); put32(b, 7);
	put16(b, rd.size()); put(b, rd);
	return b;
}
TEST(C01, large, 0, 1) {
	if (idx % 16) return;
	int type = r.p(30) ? 64 : gen_type(r);
	Bytes rd(r.p(50) ? r.range(65400, 65535) : r(65536));
	uint8_t fill = r.p(50) ? 0xff : r.p(50) ? 0 : r.byte();
	for (auto &c : rd) c = fill;
	for (int k = 0; k < 30; k++) rd[r(std::min<size_t>(rd.size(), 64))] = r.p(50) ? r(8) : r.byte();
	if (type == 64 || type == 65) { size_t L = rd.size(); int key = r(10); Bytes x{0, 1, 0}; put16(x, key); put16(x, r.p(60) ? L - 7 : r.range(65520, 65535)); std::copy(x.begin(), x.end(), rd.begin()); }
	check_parse(one_record(r, type, 1, rd, type == 41), [](wdns_message_t &m, const OMsg &e) { check_structure(m, e, e.ok); });
}

static void cut_rdata(Rng &r, const std::function<void(const Bytes &)> &f);
TEST(C01, cut_region, 0, 2) { cut_rdata(r, [](const Bytes &b) { check_parse(b, [](wdns_message_t &m, const OMsg &e) { check_structure(m, e, e.ok); }); }); }
static void same_message(wdns_message_t &m, const OMsg &e) {
	if (!e.ok) fail("the packet was accepted although it is malformed");
	if (m.id != e.id || m.flags != e.flags) fail("id %u flags %u, expected %d %d", m.id, m.flags, e.id, e.flags);
	if (m.rcode != e.rcode) fail("rcode %u, expected %d", m.rcode, e.rcode);
	if (m.edns.present != e.edns) fail("EDNS present %d, expected %d", m.edns.present, e.edns);
	if (e.edns) {
		if (m.edns.size != e.esize || m.edns.version != e.ever || m.edns.flags != e.eflags) fail("EDNS size %u version %u flags %u, expected %d %d %d", m.edns.size, m.edns.version, m.edns.flags, e.esize, e.ever, e.eflags);
		if ((m.edns.options != NULL) != e.ehas) fail("EDNS options present %d, expected %d", m.edns.options != NULL, e.ehas);
		if (e.ehas && erd(m.edns.options) != e.eopt) fail("EDNS options %s, expected %s", hex(erd(m.edns.options)).c_str(), hex(e.eopt).c_str());
	}
	for (int s = 0; s < 4; s++) {
		auto &a = m.sections[s];
		if (a.n_rrs != e.sec[s].size()) fail("section %d has %u records, expected %zu", s, a.n_rrs, e.sec[s].size());
		for (int i = 0; i < a.n_rrs; i++) {
			auto &r = a.rrs[i];
			auto &x = e.sec[s][i];
			if (eff(r.name) != x.name) fail("section %d record %d: owner %s, expected %s", s, i, hex(eff(r.name)).c_str(), hex(x.name).c_str());
			if (r.rrtype != x.type || r.rrclass != x.cls || r.rrttl != x.ttl) fail("section %d record %d: type %u class %u ttl %u, expected %d %d %u", s, i, r.rrtype, r.rrclass, r.rrttl, x.type, x.cls, x.ttl);
			if (x.hasrd && erd(r.rdata) != x.rd) fail("section %d record %d: data %s, expected %s", s, i, hex(erd(r.rdata)).c_str(), hex(x.rd).c_str());
		}
	}
}
static void check_exact(const Bytes &b) {
	check_parse(b, same_message);
	OMsg e = o_parse_message(b);
	Buf pkt(b);
	wdns_message_t m;
	wdns_res res = wdns_parse_message(&m, pkt.p, pkt.n);
	if (res == wdns_res_success) wdns_clear_message(&m);
	else if (e.ok) fail("a well-formed packet was rejected (%d)", res);
}
TEST(C03, message, 0, 10) { check_exact(gen_message(r, 15)); }
TEST(C03, cut_between, 0, 2) {
	Bytes b = gen_message(r, 0);
	if (b.size() > 400) b.resize(400);
	for (size_t k = 0; k <= b.size(); k++) check_exact(Bytes(b.begin(), b.begin() + k));
}
TEST(C03, header, 0, 2) {
	Bytes b = gen_bytes(r, 12);
	for (int i = 4; i < 12; i++) if (r.p(50)) b[i] = 0;
	check_exact(b);
}
TEST(C03, many, 0, 1) {      // many records: counters and growth
	if (idx % 64) return;
	Bytes b;
	int n = r.p(30) ? r.range(250, 300) : r.range(1, 1200), s = r(4);
	put16(b, 1); put16(b, 2);
	for (int i = 0; i < 4; i++) put16(b, i == s ? n : 0);
	for (int i = 0; i < n; i++) { put8(b, 1); put8(b, 'a' + r(3)); put8(b, 0); put16(b, 1); put16(b, 1); if (s) { put32(b, r(9)); put16(b, 4); put32(b, i); } }
	check_exact(b);
}

static void same_groups(wdns_message_t &m, const OMsg &e) {
	if (!e.ok) return;
	for (int s = 0; s < 4; s++) {
		struct G { ORR k; std::vector<Bytes> rd; };
		std::vector<G> g;
		for (auto &x : e.sec[s]) {
			G *hit = nullptr;
			if (s) for (auto &q : g) if (q.k.type == x.type && q.k.cls == x.cls && o_lower(q.k.name) == o_lower(x.name)) hit = &q;
			if (!hit) { g.push_back(G{x, {}}); if (s) g.back().rd.push_back(x.rd); }
			else { hit->rd.push_back(x.rd); hit->k.ttl = std::min(hit->k.ttl, x.ttl); }
		}
		auto &a = m.sections[s];
		if (a.n_rrsets != g.size()) fail("section %d has %u RRsets, expected %zu", s, a.n_rrsets, g.size());
		std::vector<bool> used(g.size());
		for (int i = 0; i < a.n_rrsets; i++) {
			auto &q = a.rrsets[i];
			int hit = -1;
			for (size_t k = 0; k < g.size(); k++) if (!used[k] && g[k].k.type == q.rrtype && g[k].k.cls == q.rrclass && o_lower(g[k].k.name) == o_lower(eff(q.name))) { hit = k; break; }
			if (hit < 0) fail("section %d RRset %d has no counterpart", s, i);
			used[hit] = true;
			if (s && q.rrttl != g[hit].k.ttl) fail("section %d RRset %d has TTL %u, expected %u", s, i, q.rrttl, g[hit].k.ttl);
			if (q.n_rdatas != g[hit].rd.size()) fail("section %d RRset %d has %u data, expected %zu", s, i, q.n_rdatas, g[hit].rd.size());
			for (int j = 0; j < q.n_rdatas; j++) if (erd(q.rdatas[j]) != g[hit].rd[j]) fail("section %d RRset %d data %d is %s, expected %s", s, i, j, hex(erd(q.rdatas[j])).c_str(), hex(g[hit].rd[j]).c_str());
		}
	}
}
TEST(C04, message, 0, 6) { check_parse(gen_message(r, 3), same_groups); }
TEST(C04, grouping, 0, 6) {     // few keys, many records, case variations and near misses
	Bytes b;
	int n = r.range(1, 40), s = r.p(10) ? 0 : r.range(1, 3);
	put16(b, 1); put16(b, 2);
	for (int i = 0; i < 4; i++) put16(b, i == s ? n : 0);
	Bytes base = gen_name(r, 30);
	for (int i = 0; i < n; i++) {
		Bytes x = flipcase(r, base);
		if (r.p(40)) { // near misses: octets 0x20 apart that are not letters, different label cuts, high octets
			for (size_t q = 0; q < x.size() && x[q]; q += 1 + x[q]) { size_t at = q + 1 + r(x[q]); if (r.p(60)) { static const uint8_t al[] = {'@', '`', '[', '{', 'Z', 'z', 'A', 'a', '^', '~', 0xc0, 0xe0, 0x20, 0x00}; x[at] = al[r(sizeof al)]; break; } }
		}
		put(b, x);
		put16(b, r.p(70) ? 16 : r.p(50) ? 257 * 256 : 1 + r(3)); put16(b, r.p(85) ? 1 : 2 + r(3));
		if (s) { put32(b, r.p(30) ? (uint32_t) r.next() : (uint32_t) r(10)); Bytes d = r.p(30) ? Bytes{1, (uint8_t) i} : Bytes{4, 1, 2, 3, (uint8_t) i}; put16(b, d.size()); put(b, d); }
	}
	check_parse(b, same_groups);
}
TEST(C04, many_sets, 0, 2) {    // many distinct keys per section, repeated in any order
	if (idx % 4) return;
	Bytes b;
	int cnt[4] = {0, 0, 0, 0};
	for (int s = 0; s < 4; s++) if (r.p(s ? 45 : 10)) cnt[s] = r.p(15) ? r.range(200, 700) : r.p(50) ? r.range(56, 140) : r(60);
	put16(b, 1); put16(b, 2);
	for (int s = 0; s < 4; s++) put16(b, cnt[s]);
	for (int s = 0; s < 4; s++) {
		int keys = r.p(60) ? cnt[s] - cnt[s] / (2 + r(9)) : 1 + r(cnt[s] + 1), style = r(3);
		std::vector<int> order;
		for (int i = 0; i < cnt[s]; i++) order.push_back(i < keys ? i : r(keys < 1 ? 1 : keys));
		if (r.p(50)) for (int i = cnt[s] - 1; i > 0; i--) std::swap(order[i], order[r(i + 1)]);
		else if (r.p(50)) for (int i = keys; i < cnt[s]; i++) order[i] = r.p(50) ? keys - 1 - r(std::min(keys, 3)) : r(std::min(keys, 3));
		for (int i = 0; i < cnt[s]; i++) {
			int k = order[i];
			put8(b, 2); put8(b, (r.p(50) ? 'a' : 'A') + k % 26); put8(b, style ? 'x' : 48 + k / 26); put8(b, 0);
			put16(b, style == 1 ? 1000 + k / 26 : 999); put16(b, style == 2 ? 1 + k / 26 : 1);
			if (s) { put32(b, r(r.p(50) ? 5 : 100000)); put16(b, 2); put16(b, i); }
		}
	}
	check_parse(b, same_groups);
}
static Bytes gen_cmp_name(Rng &r, const Bytes &base) {
	Bytes x = flipcase(r, base);
	if (r.p(50) && x.size() > 1) { size_t at = r(x.size()); x[at] ^= r.p(60) ? 32 : 1 << r(8); }
	if (r.p(10)) x = gen_name(r, 20);
	return x;
}
TEST(C04, compare, 256 * 256, 4) {
	Bytes base = idx < 65536 ? Bytes{1, (uint8_t) idx, 0} : gen_name(r, r.p(80) ? 12 : 255);
	Bytes x = idx < 65536 ? Bytes{1, (uint8_t) (idx >> 8), 0} : gen_cmp_name(r, base);
	int t0 = r(65536), c0 = r(65536), t1 = idx < 65536 || r.p(80) ? t0 : t0 ^ (1 << r(16)), c1 = idx < 65536 || r.p(80) ? c0 : c0 ^ (1 << r(16));
	Buf a(base), b(x);
	note("compare %s/%d/%d with %s/%d/%d", hex(base).c_str(), t0, c0, hex(x).c_str(), t1, c1);
	wdns_rr_t rr; wdns_rrset_t rs;
	memset(&rr, 0, sizeof rr); memset(&rs, 0, sizeof rs);
	rr.rrtype = t0; rr.rrclass = c0; rr.name.len = a.n; rr.name.data = a.p; rr.rrttl = r(9);
	rs.rrtype = t1; rs.rrclass = c1; rs.name.len = b.n; rs.name.data = b.p; rs.rrttl = r(9);
	bool got = wdns_compare_rr_rrset(&rr, &rs), want = t0 == t1 && c0 == c1 && o_lower(base) == o_lower(x);
	if (got != want) fail("compare gave %d, expected %d", got, want);
	if (a.bytes() != base || b.bytes() != x) fail("a name was modified");
}

// --------------------------------------------------------------------------- C05
static void check_rd(Rng &r, int type, int cls, const Bytes &rd, const Bytes &pre) {
	if (rd.size() > 65535) return;
	check_exact(one_record(r, type, cls, rd, true, pre));
}
TEST(C05, types, 0, 10) {
	Bytes pre;
	std::vector<size_t> offs;
	if (r.p(60)) { pre = gen_name(r, r.p(20) ? 255 : 40); for (size_t i = 0; i < pre.size() && pre[i]; i += 1 + pre[i]) offs.push_back(12 + i); offs.push_back(12 + pre.size() - 1); }
	int type = gen_type(r);
	const RType *t = rtype(type);
	int cls = t && t->cls && r.p(85) ? t->cls : gen_class(r);
	size_t here = 12 + (pre.empty() ? 0 : pre.size() + 4) + 11 + 11;
	check_rd(r, type, cls, gen_rdata(r, type, cls, offs, here, true), pre);
}
TEST(C05, boundaries, 0, 3) {      // one valid data cut at every length, and extended
	int type = r.pick(rtypes()).type, cls = rtype(type)->cls ? rtype(type)->cls : 1;
	Bytes rd = gen_rdata(r, type, cls, {}, 0, false);
	if (rd.size() > 120) rd.resize(120);
	for (size_t k = 0; k <= rd.size(); k++) check_rd(r, type, cls, Bytes(rd.begin(), rd.begin() + k), {});
}
// RDLENGTH ends inside or just after a field while the packet goes on
static void cut_rdata(Rng &r, const std::function<void(const Bytes &)> &f) {
	Bytes pre = gen_name(r, r.p(20) ? 255 : 40);
	std::vector<size_t> offs;
	for (size_t i = 0; i < pre.size() && pre[i]; i += 1 + pre[i]) offs.push_back(12 + i);
	offs.push_back(12 + pre.size() - 1);
	int type = r.pick(rtypes()).type, cls = rtype(type)->cls ? rtype(type)->cls : 1;
	Bytes rd = gen_rdata(r, type, cls, offs, 12 + pre.size() + 4 + 11 + 11, true);
	Bytes b = one_record(r, type, cls, rd, true, pre);
	size_t at = b.size() - rd.size() - 2;
	if (r.p(60)) put(b, gen_bytes(r, r.range(1, 20)));
	for (size_t k = rd.size() > 60 ? rd.size() - 60 : 0; k <= rd.size() + 3 && at + 2 + k <= b.size(); k++) { Bytes x = b; x[at] = k >> 8; x[at + 1] = k; f(x); }
}
TEST(C05, cut_region, 0, 4) { cut_rdata(r, check_exact); }
TEST(C05, all_types_short, 65536, 0) { check_rd(r, idx, 1, gen_rdata(r, idx, 1, {}, 0, false), {}); }
TEST(C05, bitmap, 0, 2) {
	Bytes rd = gen_name(r, 10);
	for (int i = r(5); i--;) { put8(rd, r.p(70) ? (int) r(5) : r.byte()); int l = r.p(85) ? r.range(0, 33) : r(256); put8(rd, l); Bytes x = gen_bytes(r, l); if (r.p(5)) x.resize(r(l + 1)); put(rd, x); }
	if (r.p(20)) put(rd, gen_bytes(r, r.range(1, 2)));
	check_rd(r, 47, 1, rd, {});
}
TEST(C05, svcparams, 0, 2) {
	Bytes rd{0, 1, 0};
	for (int i = r.range(1, 4); i--;) { int key = r.p(90) ? (int) r(9) : r.p(50) ? 65535 : (int) r(65536); Bytes v = gen_bytes(r, r.p(50) ? 4 * r(9) : r(34)); if (key == 1 || r.p(10)) { v.clear(); for (int k = r(4); k--;) { int l = r(6); put8(v, l); put(v, gen_bytes(r, l)); } if (r.p(20)) put(v, gen_bytes(r, 1)); } put16(rd, key); put16(rd, v.size() + (r.p(6) ? r(7) - 3 : 0)); put(rd, v); }
	if (r.p(10)) put(rd, gen_bytes(r, r(5)));
	check_rd(r, 64 + r(2), 1, rd, {});
}
TEST(C05, large, 0, 1) {
	if (idx % 8) return;
	int type = r.pick(rtypes()).type, cls = rtype(type)->cls ? rtype(type)->cls : 1;
	Bytes pre = r.p(50) ? gen_name(r, 255) : Bytes();
	Bytes rd;
	bool nm = false;
	for (Fld f : rtype(type)->f) if (f == F_NAME || f == F_UNAME) nm = true;
	if (!pre.empty() && nm) { // compressed names that expand
		for (Fld f : rtype(type)->f) switch (f) { case F_NAME: case F_UNAME: put16(rd, 0xc00c); break; case F_INT8: put8(rd, 1); break; case F_INT16: case F_RRTYPE: put16(rd, 1); break; case F_INT32: case F_IP4: put32(rd, 1); break; case F_A6: put8(rd, 128); break; default: break; }
	} else pre.clear();
	if (rd.empty()) rd = gen_rdata(r, type, cls, {}, 0, false);
	Bytes tail(r.p(50) ? r.range(65535 - 600, 65535) : r(65536), 0);
	if (r.p(50)) for (auto &c : tail) c = 255;
	put(rd, tail);
	if (rd.size() > 65535) rd.resize(65535);
	check_rd(r, type, cls, rd, pre);
}

// --------------------------------------------------------------------------- C16
static std::string cls_name(int c) { const char *s = wdns_rrclass_to_str(c); return s ? s : "CLASS" + std::to_string(c); }
static std::string typ_name(int t) { const char *s = wdns_rrtype_to_str(t); return s ? s : "TYPE" + std::to_string(t); }
static std::string lib_rd(const wdns_rdata_t *d, int type, int cls) { char *s = wdns_rdata_to_str(d->data, d->len, type, cls); std::string x = s ? s : "(null)"; free(s); return x; }
// blanks before the end of a line carry no meaning (record data may be empty)
static std::string trim(const std::string &s) {
	std::string o;
	for (char c : s) { if (c == '\n') while (!o.empty() && o.back() == ' ') o.pop_back(); o += c; }
	while (!o.empty() && o.back() == ' ') o.pop_back();
	return o;
}
static std::string o_rr_line(wdns_rr_t &r, int sec, uint32_t ttl) {
	std::string s = (sec == 0 ? ";" : "") + o_name_text(eff(r.name));
	if (sec) s += " " + std::to_string(ttl);
	s += " " + cls_name(r.rrclass) + " " + typ_name(r.rrtype);
	if (sec) s += " " + lib_rd(r.rdata, r.rrtype, r.rrclass);
	return trim(s + "\n");
}
static std::string take(char *s) { std::string x = s ? s : "(null)"; free(s); return trim(x); }
static Bytes snapshot(wdns_message_t &m) {
	Bytes b((uint8_t *) &m, (uint8_t *) &m + sizeof m);
	for (auto &a : m.sections) {
		for (int i = 0; i < a.n_rrs; i++) { auto *q = (uint8_t *) &a.rrs[i]; b.insert(b.end(), q, q + sizeof a.rrs[i]); put(b, eff(a.rrs[i].name)); if (a.rrs[i].rdata) put(b, erd(a.rrs[i].rdata)); }
		for (int i = 0; i < a.n_rrsets; i++) { auto *q = (uint8_t *) &a.rrsets[i]; b.insert(b.end(), q, q + sizeof a.rrsets[i]); put(b, eff(a.rrsets[i].name)); for (int j = 0; j < a.rrsets[i].n_rdatas; j++) put(b, erd(a.rrsets[i].rdatas[j])); }
	}
	if (m.edns.present && m.edns.options) put(b, erd(m.edns.options));
	return b;
}
static void check_text(wdns_message_t &m, const OMsg &) {
	Bytes before = snapshot(m);
	std::string secs[4];
	for (int s = 0; s < 4; s++) {
		auto &a = m.sections[s];
		for (int i = 0; i < a.n_rrs; i++) {
			std::string l = o_rr_line(a.rrs[i], s, a.rrs[i].rrttl);
			secs[s] += l;
			std::string g = take(wdns_rr_to_str(&a.rrs[i], s));
			if (g != l) fail("rr_to_str gave %s expected %s", show(g).c_str(), show(l).c_str());
		}
		for (int i = 0; i < a.n_rrsets; i++) {
			auto &q = a.rrsets[i];
			std::string l;
			for (int j = 0; j < (s ? q.n_rdatas : 1); j++) { wdns_rr_t rr; rr.name = q.name; rr.rrtype = q.rrtype; rr.rrclass = q.rrclass; rr.rdata = s ? q.rdatas[j] : NULL; l += o_rr_line(rr, s, q.rrttl); }
			std::string g = take(wdns_rrset_to_str(&q, s));
			if (g != l) fail("rrset_to_str gave %s expected %s", show(g).c_str(), show(l).c_str());
		}
		std::string g = take(wdns_rrset_array_to_str(&a, s));
		if (g != secs[s]) fail("rrset_array_to_str gave %s expected %s", show(g).c_str(), show(secs[s]).c_str());
	}
	std::string t = take(wdns_message_to_str(&m));
	const char *op = wdns_opcode_to_str(m.flags >> 11 & 15), *rc = wdns_rcode_to_str(m.rcode);
	std::string e = ";; ->>HEADER<<- opcode: " + (op ? std::string(op) : std::to_string(m.flags >> 11 & 15)) + ", rcode: " + (rc ? std::string(rc) : std::to_string(m.rcode)) + ", id: " + std::to_string(m.id) + "\n;; flags:";
	static const struct { int b; const char *n; } fl[] = {{15, "qr"}, {10, "aa"}, {9, "tc"}, {8, "rd"}, {7, "ra"}, {5, "ad"}, {4, "cd"}};
	for (auto &f : fl) if (m.flags >> f.b & 1) e += std::string(" ") + f.n;
	e += "; QUERY: " + std::to_string(m.sections[0].n_rrs) + ", ANSWER: " + std::to_string(m.sections[1].n_rrs) + ", AUTHORITY: " + std::to_string(m.sections[2].n_rrs) + ", ADDITIONAL: " + std::to_string(m.sections[3].n_rrs) + "\n";
	std::string tail = "\n;; QUESTION SECTION:\n" + secs[0] + "\n;; ANSWER SECTION:\n" + secs[1] + "\n;; AUTHORITY SECTION:\n" + secs[2] + "\n;; ADDITIONAL SECTION:\n" + secs[3];
	if (m.edns.present) {
		e += "\n;; OPT PSEUDOSECTION:\n; EDNS: version: " + std::to_string(m.edns.version) + ", flags:" + (m.edns.flags & 0x8000 ? " do" : "") + "; udp: " + std::to_string(m.edns.size);
		if (m.edns.options) {
			std::string o;
			bool gen;
			if (o_rdata_text(erd(m.edns.options), 41, 0, o, gen)) { o = trim(o); size_t at = 0; while (at < o.size()) { size_t k = o.find('\n', at); if (k == std::string::npos) k = o.size(); e += "\n; " + o.substr(at, k - at); at = k + 1; } }
			else { // options that are not well formed: rendered somehow, between the two parts
				if (t.size() < e.size() + tail.size() || t.compare(0, e.size(), e) || t.compare(t.size() - tail.size(), tail.size(), tail)) fail("message_to_str gave %s expected %s ... %s", show(t).c_str(), show(e).c_str(), show(tail).c_str());
				e.clear();
			}
		}
	}
	if (!e.empty() && t != e + tail) fail("message_to_str gave %s expected %s", show(t).c_str(), show(e + tail).c_str());
	char *mem = nullptr;
	size_t memn = 0;
	FILE *f = open_memstream(&mem, &memn);
	wdns_print_message(f, &m);
	fclose(f);
	std::string pm = trim(std::string(mem, memn));
	free(mem);
	t = trim(t);
	if (pm != t) fail("print_message differs from message_to_str");
	if (snapshot(m) != before) fail("rendering modified the message");
}
TEST(C16, message, 0, 8) { check_parse(gen_message(r, 3), check_text); }
TEST(C16, opcodes, 65536, 1) {
	Bytes b;
	put16(b, idx); put16(b, idx); for (int i = 0; i < 3; i++) put16(b, 0);
	put16(b, 1);
	b.push_back(0); put16(b, 41); put16(b, r(65536)); put32(b, (uint32_t) (r.p(50) ? r(4) << 24 | r(65536) : r.next()));
	Bytes rd = gen_rdata(r, 41, 0, {}, 0, false);
	put16(b, rd.size()); put(b, rd);
	check_parse(b, check_text);
}
