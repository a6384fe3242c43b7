/* C access to the library's internal helpers (static inline functions and macros that C++ cannot compile) */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef NOSHIM
int shim_libmy = 0;
#define S(decl) decl { __builtin_trap(); }
#define U ubuf
typedef void ubuf;
#define B(...) { __builtin_trap(); }
#else
#include "wdns-private.h"
#include "libmy/hex_decode.h"
int shim_libmy = 1;
#define B(...) { __VA_ARGS__ }
#endif
void *sh_new(unsigned hint) B(return ubuf_init(hint);)
void sh_destroy(void *u) B(ubuf *p = u; ubuf_destroy(&p);)
void sh_add(void *u, uint8_t c) B(ubuf_add(u, c);)
void sh_append(void *u, const uint8_t *p, size_t n) B(ubuf_append(u, p, n);)
void sh_extend(void *u, void *v) B(ubuf_extend(u, v);)
void sh_reserve(void *u, size_t n) B(ubuf_reserve(u, n);)
void sh_advance(void *u, size_t n) B(ubuf_advance(u, n);)
void sh_clip(void *u, size_t n) B(ubuf_clip(u, n);)
void sh_reset(void *u) B(ubuf_reset(u);)
void sh_detach(void *u, uint8_t **o, size_t *n) B(ubuf_detach(u, o, n);)
void sh_reinit(void *u, unsigned hint) B(ubuf_reinit(hint, u);)
void sh_add_cstr(void *u, const char *s) B(ubuf_add_cstr(u, s);)
void *sh_dup_cstr(const char *s) B(return ubuf_dup_cstr(s);)
char *sh_cstr(void *u) B(return ubuf_cstr(u);)
void sh_cterm(void *u) B(ubuf_cterm(u);)
void sh_rstrip(void *u, char c) B(ubuf_rstrip(u, c);)
void sh_add_fmt_s(void *u, const char *s) B(ubuf_add_fmt(u, "%s", s);)
void sh_add_fmt_d(void *u, int a, unsigned b) B(ubuf_add_fmt(u, "<%d/%u>", a, b);)
size_t sh_size(void *u) B(return ubuf_size(u);)
size_t sh_bytes(void *u) B(return ubuf_bytes(u);)
uint8_t sh_value(void *u, size_t i) B(return ubuf_value(u, i);)
uint8_t *sh_ptr(void *u) B(return ubuf_ptr(u);)
uint8_t *sh_data(void *u) B(return ubuf_data(u);)
size_t sh_cap(void *u) B(return ((ubuf *) u)->_n_alloced;)
size_t sh_b32_decode(void *d, size_t n, const char *s, size_t l) B(return base32_decode(d, n, s, l);)
size_t sh_b32_encode(char *d, size_t n, const void *s, size_t l) B(return base32_encode(d, n, s, l);)
int sh_b64_decode(const char *s, int n, char *d) B(base64_decodestate st; base64_init_decodestate(&st); return base64_decode_block(s, n, d, &st);)
int sh_b64_decode2(const char *s, int n, const char *s2, int n2, char *d) B(base64_decodestate st; base64_init_decodestate(&st); int k = base64_decode_block(s, n, d, &st); return k + base64_decode_block(s2, n2, d + k, &st);)
int sh_b64_encode(const char *s, int n, char *d) B(base64_encodestate st; base64_init_encodestate(&st); int k = base64_encode_block(s, n, d, &st); return k + base64_encode_blockend(d + k, &st);)
int sh_b64_encode2(const char *s, int n, const char *s2, int n2, char *d) B(base64_encodestate st; base64_init_encodestate(&st); int k = base64_encode_block(s, n, d, &st); k += base64_encode_block(s2, n2, d + k, &st); return k + base64_encode_blockend(d + k, &st);)
size_t sh_bytes_to_hex(const uint8_t *s, size_t n, int up, char *d, size_t dn) B(return my_bytes_to_hex_str(s, n, up, d, dn);)
size_t sh_u16_to_hex(uint16_t v, int up, char *d, size_t dn) B(return my_uint16_to_hex_str(v, up, d, dn);)
size_t sh_u64_to_str(uint64_t v, char *d, size_t dn, const char **st) B(return my_uint64_to_str(v, d, dn, st);)
const char *sh_ntop(int af, const void *s, char *d, unsigned n) B(return fast_inet_ntop(af, s, d, n);)
int sh_hex_decode(const char *s, uint8_t **raw, size_t *n) B(return hex_decode(s, raw, n);)
