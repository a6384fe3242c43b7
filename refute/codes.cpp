#include "oracle.hpp"
struct Known { int n; const char *s; };
static const Known ktypes[] = {{1,"A"},{2,"NS"},{3,"MD"},{4,"MF"},{5,"CNAME"},{6,"SOA"},{7,"MB"},{8,"MG"},{9,"MR"},{10,"NULL"},{11,"WKS"},{12,"PTR"},{13,"HINFO"},{14,"MINFO"},{15,"MX"},{16,"TXT"},{17,"RP"},{18,"AFSDB"},{19,"X25"},{20,"ISDN"},{21,"RT"},{22,"NSAP"},{23,"NSAP-PTR"},{24,"SIG"},{25,"KEY"},{26,"PX"},{27,"GPOS"},{28,"AAAA"},{29,"LOC"},{30,"NXT"},{31,"EID"},{32,"NIMLOC"},{33,"SRV"},{34,"ATMA"},{35,"NAPTR"},{36,"KX"},{37,"CERT"},{38,"A6"},{39,"DNAME"},{40,"SINK"},{41,"OPT"},{42,"APL"},{43,"DS"},{44,"SSHFP"},{45,"IPSECKEY"},{46,"RRSIG"},{47,"NSEC"},{48,"DNSKEY"},{49,"DHCID"},{50,"NSEC3"},{51,"NSEC3PARAM"},{52,"TLSA"},{55,"HIP"},{56,"NINFO"},{57,"RKEY"},{58,"TALINK"},{59,"CDS"},{60,"CDNSKEY"},{61,"OPENPGPKEY"},{62,"CSYNC"},{64,"SVCB"},{65,"HTTPS"},{99,"SPF"},{100,"UINFO"},{101,"UID"},{102,"GID"},{103,"UNSPEC"},{104,"NID"},{105,"L32"},{106,"L64"},{107,"LP"},{108,"EUI48"},{109,"EUI64"},{249,"TKEY"},{250,"TSIG"},{251,"IXFR"},{252,"AXFR"},{253,"MAILB"},{254,"MAILA"},{255,"ANY"},{256,"URI"},{257,"CAA"},{32768,"TA"},{32769,"DLV"}};
static const Known kclasses[] = {{1,"IN"},{3,"CH"},{4,"HS"},{254,"NONE"},{255,"ANY"}};
static const Known krcodes[] = {{0,"NOERROR"},{1,"FORMERR"},{2,"SERVFAIL"},{3,"NXDOMAIN"},{4,"NOTIMP"},{5,"REFUSED"},{6,"YXDOMAIN"},{7,"YXRRSET"},{8,"NXRRSET"},{9,"NOTAUTH"},{10,"NOTZONE"},{16,"BADVERS"}};
static const Known kopcodes[] = {{0,"QUERY"},{1,"IQUERY"},{2,"STATUS"},{4,"NOTIFY"},{5,"UPDATE"}};
static std::string upper(std::string s) { for (auto &c : s) c = toupper((unsigned char) c); return s; }
static std::string mix(Rng &r, std::string s) { for (auto &c : s) if (r.p(50)) c = tolower((unsigned char) c); return s; }
static int rt(const std::string &s) { CStr c(s); return wdns_str_to_rrtype(c.p); }
static int rc(const std::string &s) { CStr c(s); return wdns_str_to_rrclass(c.p); }
static std::map<std::string, int> &names(int which) {
	static std::map<std::string, int> m[3];
	static bool done;
	if (!done) {
		done = true;
		for (int i = 0; i < 65536; i++) {
			const char *s;
			if ((s = wdns_rrtype_to_str(i))) { if (!m[0].emplace(upper(s), i).second) fail("two types are called %s", s); }
			if ((s = wdns_rrclass_to_str(i))) { if (!m[1].emplace(upper(s), i).second) fail("two classes are called %s", s); }
			if ((s = wdns_rcode_to_str(i))) { if (!m[2].emplace(upper(s), i).second) fail("two response codes are called %s", s); }
		}
	}
	return m[which];
}
TEST(C14, numbers, 65536, 0) {
	int n = idx;
	note("number %d", n);
	const char *s = wdns_rrtype_to_str(n);
	for (int k = 0; k < 3; k++) {
		std::string t = s ? std::string(s) : "TYPE" + std::to_string(n);
		if (k) t = mix(r, t);
		if (rt(t) != n && !(!s && n == 0)) fail("type %s is read as %d, expected %d", t.c_str(), rt(t), n);
		if (rt("TYPE" + std::to_string(n)) != n) fail("TYPE%d is read as %d", n, rt("TYPE" + std::to_string(n)));
	}
	s = wdns_rrclass_to_str(n);
	for (int k = 0; k < 3; k++) {
		std::string t = s ? std::string(s) : "CLASS" + std::to_string(n);
		if (k) t = mix(r, t);
		if (rc(t) != n) fail("class %s is read as %d, expected %d", t.c_str(), rc(t), n);
		if (rc("CLASS" + std::to_string(n)) != n) fail("CLASS%d is read as %d", n, rc("CLASS" + std::to_string(n)));
	}
	s = wdns_rcode_to_str(n);
	if (s) for (int k = 0; k < 3; k++) {
		std::string t = k ? mix(r, s) : s;
		CStr c(t);
		uint16_t o = 0xeeee;
		if (wdns_str_to_rcode(c.p, &o) != wdns_res_success || o != n) fail("response code %s is read as %u, expected %d", t.c_str(), o, n);
	}
	wdns_opcode_to_str(n);
	nontrivial();
}
TEST(C14, known, 1, 0) {
	for (auto &k : ktypes) if (!wdns_rrtype_to_str(k.n) || strcmp(wdns_rrtype_to_str(k.n), k.s) || rt(k.s) != k.n) fail("type %d is %s, expected %s", k.n, wdns_rrtype_to_str(k.n), k.s);
	for (auto &k : kclasses) if (!wdns_rrclass_to_str(k.n) || strcmp(wdns_rrclass_to_str(k.n), k.s) || rc(k.s) != k.n) fail("class %d is %s, expected %s", k.n, wdns_rrclass_to_str(k.n), k.s);
	for (auto &k : krcodes) if (!wdns_rcode_to_str(k.n) || strcmp(wdns_rcode_to_str(k.n), k.s)) fail("response code %d is %s, expected %s", k.n, wdns_rcode_to_str(k.n), k.s);
	for (auto &k : kopcodes) if (!wdns_opcode_to_str(k.n) || strcmp(wdns_opcode_to_str(k.n), k.s)) fail("opcode %d is %s, expected %s", k.n, wdns_opcode_to_str(k.n), k.s);
	for (int i = 0; i < 65536; i++) { bool in = false; for (auto &k : kopcodes) in |= k.n == i; if (!in && wdns_opcode_to_str(i)) fail("opcode %d has a name", i); }
}
TEST(C14, strings, 0, 5) {
	std::string s;
	switch (r(6)) {
	case 0: { auto &m = names(r(3)); auto it = m.begin(); std::advance(it, r(m.size())); s = it->first; switch (r(4)) { case 0: s.resize(r(s.size() + 1)); break; case 1: s[r(s.size())] ^= 1 << r(7); break; case 2: s.insert(r(s.size() + 1), 1, (char) (1 + r(255))); break; default: s += gen_octet(r); } break; }
	case 1: s = (r.p(50) ? "TYPE" : "CLASS") + std::to_string(r.p(50) ? 65530 + (int) r(12) : (int) r(100000)); break;
	case 2: s = (r.p(50) ? "TYPE" : "CLASS") + std::to_string(r.next()); break;
	case 3: s = (r.p(50) ? "TYPE" : "CLASS"); s.resize(s.size() - r(2)); for (int k = r(5); k--;) s += (char) (1 + r(255)); break;
	case 4: s = (r.p(50) ? "TYPE" : "CLASS") + std::to_string(r(70000)); if (r.p(50)) s += (char) (1 + r(255)); else s[r(s.size())] = (char) (1 + r(255)); break;
	default: for (int k = r(8); k--;) s += (char) (1 + r(255));
	}
	s = s.c_str();
	s = mix(r, s);
	note("string %s", show(s).c_str());
	std::string u = upper(s);
	for (int w = 0; w < 2; w++) {
		std::string pre = w ? "CLASS" : "TYPE";
		auto &m = names(w);
		int e = 0;
		auto it = m.find(u);
		if (it != m.end()) e = it->second;
		else if (u.compare(0, pre.size(), pre) == 0 && u.size() > pre.size()) {
			std::string d = u.substr(pre.size());
			bool dig = true;
			for (char c : d) dig &= c >= '0' && c <= '9';
			if (!dig && (isspace((unsigned char) d[0]) || d[0] == '+' || d[0] == '-')) continue;   // signs and blanks: not specified
			if (dig) { while (d.size() > 1 && d[0] == '0') d.erase(0, 1); if (d.size() < 6 && std::stol(d) < 65536) e = std::stol(d); }
		}
		int g = w ? rc(s) : rt(s);
		if (g != e) fail("%s is read as %s %d, expected %d", show(s).c_str(), pre.c_str(), g, e);
	}
	auto it = names(2).find(u);
	uint16_t o = 0xabcd;
	CStr c(s);
	bool ok = wdns_str_to_rcode(c.p, &o) == wdns_res_success;
	if (ok != (it != names(2).end()) || (ok && o != it->second)) fail("response code %s: %d %u", show(s).c_str(), ok, o);
}
