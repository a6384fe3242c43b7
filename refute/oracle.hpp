// Independent oracles, written from the RFCs and the library's documentation, not from its code.
#pragma once
#include "common.hpp"
extern "C" {
#include <wdns.h>
}
#ifndef WDNS_MAXLEN_NAME
#define WDNS_MAXLEN_NAME 255
#endif

// ---- names ---------------------------------------------------------------------------------------
struct NameRes { bool ok; Bytes out; };
NameRes o_unpack(const uint8_t *p, size_t n, long start, bool ptrs);
size_t o_skip(const uint8_t *p, size_t n, size_t start);      // octets occupied in place (well-formed only)
bool o_wellformed(const Bytes &n);                             // labels, final root, nothing after it, <= 255
std::vector<Bytes> o_labels(const Bytes &n);
std::string o_name_text(const Bytes &n);
Bytes o_lower(const Bytes &n);
Bytes gen_name(Rng &r, int maxlen = 255);                      // well-formed uncompressed name
Bytes gen_label_bytes(Rng &r, int len);
Bytes gen_bytes(Rng &r, size_t n);
uint8_t gen_octet(Rng &r);

inline void put8(Bytes &b, unsigned v) { b.push_back(v); }
inline void put16(Bytes &b, unsigned v) { b.push_back(v >> 8); b.push_back(v); }
inline void put32(Bytes &b, uint32_t v) { put16(b, v >> 16); put16(b, v & 65535); }
inline void put(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }

// ---- record data ------------------------------------------------------------------------------------
enum Fld { F_NAME, F_UNAME, F_REST_HEX, F_REST_B64, F_REST_QSTR, F_INT8, F_INT16, F_INT32, F_IP4, F_IP6, F_A6, F_STR, F_STRS,
	F_BITMAP, F_RRTYPE, F_EUI48, F_EUI64, F_SALT, F_HASH, F_SVC, F_OPT };
struct RType { int type; const char *name; int cls; std::vector<Fld> f; };     // cls 0: any class
const std::vector<RType> &rtypes();
const RType *rtype(int t);
struct RdRes { bool ok; Bytes out; };
RdRes o_parse_rdata(const uint8_t *pkt, size_t n, size_t off, size_t rdlen, int type, int cls);
// builds record data for a type: mostly well formed; names may be compressed against `names` offsets
Bytes gen_rdata(Rng &r, int type, int cls, const std::vector<size_t> &nameoffs, size_t here, bool compress);
int gen_type(Rng &r);
int gen_class(Rng &r);
bool o_rdata_text(const Bytes &rd, int type, int cls, std::string &out, bool &wellformed);
std::string o_b64(const uint8_t *p, size_t n);
std::string o_b32(const uint8_t *p, size_t n);
std::string o_ip(int af, const uint8_t *p);
