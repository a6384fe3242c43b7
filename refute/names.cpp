#include "oracle.hpp"

// packets rich in labels, pointers (backward, self, forward) and boundary cases
static Bytes gen_name_packet(Rng &r, long &start) {
	Bytes b;
	std::vector<size_t> offs;
	int style = r(6);
	if (style == 0) {                                   // random short bytes with many special octets
		size_t n = r.range(1, 40);
		for (size_t i = 0; i < n; i++) {
			switch (r(5)) {
			case 0: b.push_back(0); break;
			case 1: b.push_back(192 + r(r.p(80) ? 1 : 64)); break;
			case 2: b.push_back(r(n)); break;
			case 3: b.push_back(r(6)); break;
			default: b.push_back(r.byte());
			}
		}
		start = r(n);
	} else {
		if (r.p(50)) b = gen_bytes(r, r(20));
		int k = r.range(1, style == 1 ? 30 : 5);
		start = 0;
		for (int i = 0; i < k; i++) {
			size_t here = b.size();
			start = here;
			std::vector<size_t> mine;
			int labels = style == 1 ? r.range(0, 1) : r.p(5) ? r(130) : r.p(20) ? r.range(3, 5) : r(4);
			for (int j = 0; j < labels; j++) {
				mine.push_back(b.size());
				int l = style == 2 ? (r.p(70) ? 63 : r.range(50, 63)) : labels > 20 ? 1 : r.range(1, r.p(20) ? 63 : 6);
				b.push_back(l);
				put(b, gen_label_bytes(r, l));
			}
			mine.push_back(b.size());
			if (!offs.empty() && r.p(75)) put16(b, 0xC000 | (unsigned) (r.pick(offs) & 0x3fff));
			else if (r.p(10)) put16(b, 0xC000 | (unsigned) ((b.size() + r(4) - 2) & 0x3fff));
			else b.push_back(0);
			offs.insert(offs.end(), mine.begin(), mine.end());
		}
		if (r.p(60)) put(b, gen_bytes(r, r(6)));
		if (r.p(15)) b.resize(start + r(b.size() - start + 1));
		if (r.p(10) && !b.empty()) b[r(b.size())] = r.byte();
		if (r.p(10)) start = r.range(-3, (int) b.size() + 3);
	}
	if (b.empty()) b.push_back(0);
	if (r.p(3)) { Bytes big(r.range(16000, 17000), 0); size_t o = r(300); if (o + b.size() < big.size()) { std::copy(b.begin(), b.end(), big.begin() + o); start = o + start; b = big; } }
	return b;
}
// names whose total length is near the limit, via chains
static Bytes gen_long_packet(Rng &r, long &start) {
	Bytes b;
	size_t prev = 0;
	bool have = false;
	int total = 1;
	while (total < 250 || r.p(30)) {
		size_t here = b.size();
		int l = total < 190 ? 63 - r(3) : total < 254 ? (int) r.range(1, std::max(1, std::min(63, 256 - total))) : 1 + r(2);
		b.push_back(l);
		put(b, gen_label_bytes(r, l));
		total += 1 + l;
		if (have) put16(b, 0xC000 | (unsigned) prev); else b.push_back(0);
		have = true;
		prev = here;
		if (total > 260) break;
	}
	start = prev;
	return b;
}

static void check_unpack(const Bytes &b, long start, bool ptrs) {
	note("name at offset %ld (pointers %d) of %s", start, ptrs, hex(b).c_str());
	Buf pkt(b);
	NameRes e = o_unpack(b.data(), b.size(), start, ptrs);
	Buf dst(255);
	memset(dst.p, 0x5a, 255);
	size_t sz = 0xdead;
	wdns_res res = ptrs ? wdns_unpack_name(pkt.p, pkt.p + pkt.n, pkt.p + start, dst.p, &sz) : wdns_copy_uname(pkt.p, pkt.p + pkt.n, pkt.p + start, dst.p, &sz);
	if ((res == wdns_res_success) != e.ok) fail("%s returned %d but the name is %s", ptrs ? "unpack" : "copy", res, e.ok ? "valid" : "invalid");
	if (pkt.bytes() != b) fail("the packet was modified");
	if (e.ok) {
		nontrivial();
		if (sz != e.out.size()) fail("length %zu reported, %zu expected", sz, e.out.size());
		if (memcmp(dst.p, e.out.data(), sz)) fail("wrong name %s, expected %s", hex(dst.p, sz).c_str(), hex(e.out).c_str());
		for (size_t i = sz; i < 255; i++) if (dst.p[i] != 0x5a) fail("octet %zu written beyond the name of %zu octets", i, sz);
		wdns_res r2 = ptrs ? wdns_unpack_name(pkt.p, pkt.p + pkt.n, pkt.p + start, dst.p, NULL) : wdns_copy_uname(pkt.p, pkt.p + pkt.n, pkt.p + start, dst.p, NULL);
		if (r2 != wdns_res_success) fail("fails without a size output");
	}
}
static void check_skip(const Bytes &b, long start) {
	if (start < 0 || start > (long) b.size()) return;
	Buf pkt(b);
	const uint8_t *d = pkt.p + start;
	note("skip at offset %ld of %s", start, hex(b).c_str());
	size_t k = wdns_skip_name(&d, pkt.p + pkt.n);
	if (d < pkt.p + start || d > pkt.p + pkt.n || (size_t) (d - (pkt.p + start)) != k) fail("skip_name leaves the data or returns a wrong count");
	if (start < (long) b.size() && o_unpack(b.data(), b.size(), start, true).ok) {
		size_t e = o_skip(b.data(), b.size(), start);
		if (k != e) fail("skip_name skipped %zu octets, expected %zu", k, e);
	}
}
TEST(C02, unpack, 0, 6) {
	long s;
	Bytes b = r.p(15) ? gen_long_packet(r, s) : gen_name_packet(r, s);
	check_unpack(b, s, true);
}
TEST(C02, copy_uname, 0, 3) {
	long s;
	Bytes b;
	if (r.p(50)) { b = gen_bytes(r, r(5)); s = b.size(); put(b, gen_name(r)); if (r.p(30)) b.resize(s + r(b.size() - s + 1)); if (r.p(30)) put(b, gen_bytes(r, r(4))); if (b.empty()) b.push_back(0); if (r.p(10)) b[r(b.size())] = r.byte(); }
	else b = gen_name_packet(r, s);
	check_unpack(b, s, false);
}
TEST(C02, skip, 0, 3) {
	long s;
	Bytes b = gen_name_packet(r, s);
	check_skip(b, s);
}
// every packet of up to 3 octets over an alphabet of interesting octets, every start
TEST(C02, small, 14 * 14 * 14 * 14, 0) {
	static const uint8_t al[] = {0, 1, 2, 3, 4, 'A', 63, 64, 127, 128, 191, 192, 193, 255};
	Bytes b;
	for (int i = 0; i < 4; i++, idx /= 14) b.push_back(al[idx % 14]);
	for (size_t n = 1; n <= 4; n++)
		for (long s = 0; s <= (long) n; s++) {
			Bytes c(b.begin(), b.begin() + n);
			check_unpack(c, s, true);
			check_unpack(c, s, false);
			check_skip(c, s);
		}
}

// ----------------------------------------------------------------------------- C06 / C07
static void roundtrip(const Bytes &n) {
	note("name %s", hex(n).c_str());
	Buf src(n);
	Buf dst(WDNS_PRESLEN_NAME);
	memset(dst.p, 0x11, dst.n);
	size_t k = wdns_domain_to_str(src.p, src.n, (char *) dst.p);
	if (k != n.size()) fail("domain_to_str returned %zu for a name of %zu octets", k, n.size());
	if (!memchr(dst.p, 0, dst.n)) fail("text is not terminated");
	std::string t = (char *) dst.p;
	for (unsigned char c : t) if (c <= 32 || c > 126) fail("octet %02x in the text", c);
	std::string e = o_name_text(n);
	if (t != e) fail("text %s, expected %s", show(t).c_str(), show(e).c_str());
	for (int fold = 0; fold < 2; fold++) {
		wdns_name_t nm;
		memset(&nm, 0x77, sizeof nm);
		CStr s(t);
		wdns_res res = fold ? wdns_str_to_name(s.p, &nm) : wdns_str_to_name_case(s.p, &nm);
		if (res != wdns_res_success) fail("text %s not accepted (%d)", show(t).c_str(), res);
		Bytes got(nm.data, nm.data + nm.len), want = fold ? o_lower(n) : n;
		free(nm.data);
		if (fold) { // escaped octets: only literal capitals are folded, and all capitals are literal
			if (got != want) fail("folded: got %s want %s", hex(got).c_str(), hex(want).c_str());
		} else if (got != want) fail("got %s want %s", hex(got).c_str(), hex(want).c_str());
	}
}
TEST(C06, roundtrip_all, 0, 6) { nontrivial(); roundtrip(gen_name(r)); }
TEST(C06, single_octets, 256 * 4, 0) {
	uint8_t c = idx & 255;
	switch (idx >> 8) {
	case 0: roundtrip(Bytes{1, c, 0}); break;
	case 1: roundtrip(Bytes{3, 'x', c, 'Y', 0}); break;
	case 2: roundtrip(Bytes{2, c, '0', 1, c, 0}); break;
	default: { Bytes b; int room = 254; while (room > 1) { int l = std::min(63, room - 1); b.push_back(l); b.insert(b.end(), l, c); room -= l + 1; } b.push_back(0); roundtrip(b); }
	}
}
TEST(C06, lengths, 256, 0) {   // names of every total length
	if (idx < 1 || idx == 2 || idx > 255) { roundtrip(Bytes{0}); return; }
	Bytes b;
	int room = (int) idx - 1;
	while (room > 0) { int l = std::min(63, room - 1); if (room - 1 - l == 1) l--; b.push_back(l); for (int i = 0; i < l; i++) b.push_back(r.byte()); room -= l + 1; }
	b.push_back(0);
	roundtrip(b);
}
static std::string gen_name_text(Rng &r) {
	std::string s;
	int style = r(6);
	int target = style == 0 ? r.range(240, 262) : style == 1 ? r.range(60, 70) : r(20);
	while ((int) s.size() < target) {
		switch (r(style == 2 ? 12 : style <= 1 ? 40 : 16)) {
		case 0: s += '.'; break;
		case 1: s += '\\'; if (r.p(80)) s += (char) (1 + r(255)); break;
		case 2: { char t[8]; snprintf(t, sizeof t, "\\%03d", (int) r(r.p(80) ? 256 : 1000)); s += t; break; }
		case 3: s += '\\'; for (int k = r(4); k--;) s += (char) ('0' + r(10)); break;
		case 4: s += "\\."; break;
		case 5: s += (char) (1 + r(255)); break;
		case 6: s += (char) ('A' + r(26)); break;
		default: s += (char) ('a' + r(26));
		}
		if (style == 0 && r.p(4)) s += '.';
	}
	if (r.p(15)) s += '.';
	if (r.p(8)) s += '\\';
	if (r.p(4)) s += "..";
	return s;
}
static void check_s2n(const std::string &t) {
	note("text %s", show(t).c_str());
	for (int fold = 0; fold < 2; fold++) {
		CStr s(t);
		wdns_name_t nm;
		memset(&nm, 0x77, sizeof nm);
		LeakCheck lc;
		wdns_res res = fold ? wdns_str_to_name(s.p, &nm) : wdns_str_to_name_case(s.p, &nm);
		if (res != wdns_res_success) { lc.done("failed conversion"); continue; }
		nontrivial();
		Bytes b(nm.data, nm.data + nm.len);
		free(nm.data);
		if (!o_wellformed(b)) fail("result %s is not a well-formed name", hex(b).c_str());
		{ // the text must mean what it says: literal re-reading
			Bytes e, lab;
			bool ok = true, any = false;
			auto flush = [&]() { if (lab.empty()) ok = false; e.push_back(lab.size()); put(e, lab); lab.clear(); };
			size_t i = 0;
			std::string u = t;
			if (u == "." || u.empty()) { e = {0}; }
			else {
				for (; i < u.size(); i++) {
					unsigned char c = u[i];
					if (c == '.') { flush(); any = false; }
					else if (c == '\\') {
						if (i + 1 >= u.size()) { ok = false; break; }
						unsigned char d = u[i + 1];
						if (d >= '0' && d <= '9') {
							if (i + 3 >= u.size()) { ok = false; break; }
							int v = 0;
							for (int k = 1; k <= 3; k++) { if (u[i + k] < '0' || u[i + k] > '9') ok = false; v = v * 10 + u[i + k] - '0'; }
							if (v > 255) ok = false;
							lab.push_back(v); i += 3;
						} else { lab.push_back(d); i++; }
						any = true;
					} else { lab.push_back(fold && c >= 'A' && c <= 'Z' ? c + 32 : c); any = true; }
				}
				if (any) flush();
				e.push_back(0);
			}
			if (!ok) fail("malformed text accepted as %s", hex(b).c_str());
			if (b != e) fail("got %s expected %s", hex(b).c_str(), hex(e).c_str());
		}
	}
}
TEST(C07, text, 0, 8) { check_s2n(gen_name_text(r)); }
TEST(C07, valid_text, 0, 3) { std::string t = o_name_text(gen_name(r)); if (t.size() > 1 && r.p(50)) t.pop_back(); check_s2n(t); }
TEST(C07, small, 8 * 8 * 8 * 8 * 8, 0) {
	static const char al[] = {'.', '\\', '0', '2', '5', 'a', 'Z', (char) 200};
	std::string s;
	for (int i = 0; i < 5; i++, idx /= 8) s += al[idx % 8];
	for (size_t n = 0; n <= 5; n++) check_s2n(s.substr(0, n));
}
TEST(C07, long_labels, 300, 0) {
	check_s2n(std::string(idx, 'x'));
	check_s2n(std::string(idx, 'x') + ".");
	check_s2n("a." + std::string(idx, 'x') + ".b");
	std::string s;
	while (s.size() < idx) { s += std::string(std::min<size_t>(63, idx - s.size()), 'q'); if (s.size() < idx) s += '.'; }
	check_s2n(s);
	check_s2n(s + ".");
	std::string e;
	for (size_t i = 0; i < idx; i++) { if (i % 64 == 63) e += '.'; else e += i & 1 ? "\\200" : "\\."; }
	check_s2n(e);
	check_s2n(e + "\\");
}
static void count_cb(wdns_name_t *n, void *u) { auto v = (std::vector<Bytes> *) u; v->push_back(Bytes(n->data, n->data + n->len)); free(n->data); }
TEST(C07, file, 0, 1) {
	if (idx % 40) return;
	char path[] = "/tmp/refute_names_XXXXXX";
	int fd = mkstemp(path);
	std::string all;
	std::vector<Bytes> want;
	for (int k = r(6); k--;) {
		switch (r(6)) {
		case 0: all += "# comment\n"; break;
		case 1: all += "\n"; break;
		case 2: all += std::string(1, '\0') + "x\n"; k = 0; want.push_back(Bytes{0}); break;
		default: { Bytes n = gen_name(r, 40); bool ok = true; for (auto &l : o_labels(n)) if (l[0] == '#') ok = false; if (!ok) break; all += o_name_text(n) + "\n"; want.push_back(o_lower(n)); }
		}
	}
	FILE *f = fdopen(fd, "w");
	fwrite(all.data(), 1, all.size(), f);
	fclose(f);
	note("file %s", show(all).c_str());
	std::vector<Bytes> got;
	wdns_res res = wdns_file_load_names(path, count_cb, &got);
	remove(path);
	if (res != wdns_res_success) fail("file not accepted: %d", res);
	if (got != want) fail("%zu names loaded, %zu expected (or contents differ)", got.size(), want.size());
}

// ----------------------------------------------------------------------------- C13
static void utils(const Bytes &n) {
	note("name %s", hex(n).c_str());
	Buf b(n);
	bool wf = o_wellformed(n);
	wdns_name_t nm;
	nm.data = b.p; nm.len = n.size();
	size_t sz = 12345, nl = 12345;
	auto labels = o_labels(n);
	wdns_res r1 = wdns_len_uname(b.p, b.p + b.n, &sz);
	if (wf && (r1 != wdns_res_success || sz != n.size())) fail("len_uname: %d, %zu", r1, sz);
	if (r1 == wdns_res_success) {
		if (sz > n.size() || sz < 1) fail("len_uname result %zu outside the data of %zu octets", sz, n.size());
		if (!o_wellformed(Bytes(n.begin(), n.begin() + sz))) fail("len_uname accepts what is not a name");
	} else if (o_unpack(n.data(), n.size(), 0, false).ok) fail("len_uname rejects a name followed by data");
	wdns_res r2 = wdns_count_labels(&nm, &nl);
	if (wf && (r2 != wdns_res_success || nl != labels.size())) fail("count_labels: %d, %zu for %zu labels", r2, nl, labels.size());
	if (r2 == wdns_res_success && nl > n.size()) fail("count_labels: %zu labels in %zu octets", nl, n.size());
	wdns_name_t ch;
	memset(&ch, 0, sizeof ch);
	wdns_res r3 = wdns_left_chop(&nm, &ch);
	if (wf) {
		Bytes e = n;
		if (n.size() > 1) e.erase(e.begin(), e.begin() + 1 + n[0]);
		if (r3 != wdns_res_success || ch.len != e.size() || ch.data + ch.len != b.p + b.n || Bytes(ch.data, ch.data + ch.len) != e) fail("left_chop: wrong result (%d, length %u)", r3, ch.len);
	} else if (r3 == wdns_res_success && (ch.data < b.p || ch.data + ch.len > b.p + b.n)) fail("left_chop: result outside the name");
	Buf rev(n.size());
	memset(rev.p, 0x33, rev.n);
	wdns_res r4 = wdns_reverse_name(b.p, b.n, rev.p);
	if (wf) {
		Bytes e;
		for (size_t i = labels.size(); i--;) { e.push_back(labels[i].size()); put(e, labels[i]); }
		e.push_back(0);
		if (r4 != wdns_res_success || rev.bytes() != e) fail("reverse_name: %d, %s expected %s", r4, hex(rev.bytes()).c_str(), hex(e).c_str());
	}
	if (b.bytes() != n) fail("the name was modified");
}
static void subdomain(const Bytes &x, const Bytes &y) {
	note("subdomain %s of %s", hex(x).c_str(), hex(y).c_str());
	Buf a(x), b(y);
	wdns_name_t n0, n1;
	n0.data = a.p; n0.len = a.n; n1.data = b.p; n1.len = b.n;
	bool is = true;
	wdns_res res = wdns_is_subdomain(&n0, &n1, &is);
	if (!o_wellformed(x) || !o_wellformed(y)) return;
	auto l0 = o_labels(x), l1 = o_labels(y);
	bool e = l0.size() > l1.size() && std::equal(l1.begin(), l1.end(), l0.end() - l1.size());
	if (res != wdns_res_success || is != e) fail("is_subdomain: %d, %d expected %d", res, is, e);
}
TEST(C13, wellformed, 0, 4) { nontrivial(); utils(gen_name(r)); }
TEST(C13, malformed, 0, 4) {
	Bytes n = gen_name(r, r.p(80) ? 20 : 255);
	switch (r(5)) {
	case 0: n.resize(r(n.size() + 1)); break;
	case 1: n[r(n.size())] = r.byte(); break;
	case 2: put(n, gen_bytes(r, r(5))); break;
	case 3: n = gen_bytes(r, r(12)); for (auto &c : n) if (r.p(50)) c = r(5); break;
	default: n.pop_back(); break;
	}
	utils(n);
}
TEST(C13, small, 7 * 7 * 7 * 7, 0) {
	static const uint8_t al[] = {0, 1, 2, 3, 63, 64, 255};
	Bytes b;
	for (int i = 0; i < 4; i++, idx /= 7) b.push_back(al[idx % 7]);
	for (size_t n = 0; n <= 4; n++) { Bytes c(b.begin(), b.begin() + n); utils(c); subdomain(c, Bytes{0}); subdomain(c, Bytes{1, 1, 0}); subdomain(Bytes{1, 1, 1, 2, 0}, c); }
}
TEST(C13, suffix, 0, 4) {
	Bytes y = gen_name(r, r.p(80) ? 30 : 200), x;
	int k = r(4);
	for (int i = 0; i < k; i++) { int l = r.range(1, 8); if (x.size() + y.size() + l + 1 > 255) break; x.push_back(l); put(x, gen_label_bytes(r, l)); }
	switch (r(5)) {
	case 0: put(x, gen_name(r, 255 - (int) x.size())); break;
	case 1: { Bytes z = y; size_t q = r(z.size()); if (z[q] > 'A') z[q] ^= 0x20; else if (z.size() > 3) { Bytes t = o_labels(z).empty() ? Bytes{} : o_labels(z)[0]; } put(x, z); if (!o_wellformed(x)) return; break; }
	case 2: { auto l = o_labels(y); if (l.size() > 1) { std::swap(l[0], l[l.size() - 1]); } for (auto &m : l) { x.push_back(m.size()); put(x, m); } x.push_back(0); break; }
	default: put(x, y);
	}
	// label boundaries that differ while the octets agree
	if (r.p(10)) { x = {3, 'a', 1, 'b', 0}; y = {1, 'b', 0}; }
	if (r.p(10)) { x = y; }
	subdomain(x, y);
	if (r.p(30)) { Bytes z = x; if (!z.empty()) z.resize(r(z.size())); subdomain(z, y); subdomain(y, z); }
}

// ----------------------------------------------------------------------------- C12 (names)
TEST(C12, downcase_name, 256, 2) {
	Bytes n = idx < 256 ? Bytes{2, (uint8_t) idx, (uint8_t) idx, 0} : r.p(50) ? gen_name(r) : gen_bytes(r, r(256));
	Buf b(n);
	note("name %s", hex(n).c_str());
	wdns_name_t nm;
	nm.data = b.p; nm.len = n.size();
	wdns_downcase_name(&nm);
	if (nm.len != n.size() || nm.data != b.p) fail("the name object was changed");
	if (b.bytes() != o_lower(n)) fail("downcase_name gave %s", hex(b.bytes()).c_str());
}
