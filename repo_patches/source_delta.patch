From 0dd96da5068b39170fb85d137ba880e471df805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 01/20] fix: wdns_unpack_name() must not read past the end of
 the message

A label or a compression pointer ending exactly at the end of the packet made
the next length octet (or the pointer's second octet) be read past the end.
---
 wdns/unpack_name.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wdns/unpack_name.c b/wdns/unpack_name.c
index 2644d69..7e9c5a4 100644
--- a/wdns/unpack_name.c
+++ b/wdns/unpack_name.c
@@ -41,11 +41,18 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 	if (p >= eop || src >= eop || src < p)
 		return (wdns_res_out_of_bounds);
 
-	while ((c = *src++) != 0) {
+	for (;;) {
+		if (src >= eop)
+			return (wdns_res_out_of_bounds);
+
+		c = *src++;
+		if (c == 0)
+			break;
+
 		if (c >= 192) {
 			uint16_t offset;
 
-			if (src > eop)
+			if (src >= eop)
 				return (wdns_res_out_of_bounds);
 
 			/* offset is the lower 14 bits of the 2 octet sequence */
-- 
2.43.0


From 33d7f3960224c8888fe295b22b1dfd144785e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 02/20] fix: wdns_copy_uname() must not read past the end of
 the data

---
 wdns/copy_uname.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wdns/copy_uname.c b/wdns/copy_uname.c
index 586fc24..42824e4 100644
--- a/wdns/copy_uname.c
+++ b/wdns/copy_uname.c
@@ -40,7 +40,14 @@ wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 	if (p >= eop || src >= eop || src < p)
 		return (wdns_res_out_of_bounds);
 
-	while ((c = *src++) != 0) {
+	for (;;) {
+		if (src >= eop)
+			return (wdns_res_out_of_bounds);
+
+		c = *src++;
+		if (c == 0)
+			break;
+
 		if (c <= 63) {
 			total_len++;
 			if (total_len >= WDNS_MAXLEN_NAME)
-- 
2.43.0


From 6c016b8fc6e45d143ad599838a080c9cfe3327ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 03/20] fix: wdns_skip_name() must not read the octet past the
 end of the data

---
 wdns/skip_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/skip_name.c b/wdns/skip_name.c
index 09e5148..d573c98 100644
--- a/wdns/skip_name.c
+++ b/wdns/skip_name.c
@@ -33,7 +33,7 @@ wdns_skip_name(const uint8_t **data, const uint8_t *eod)
 	size_t bytes_skipped;
 	uint8_t c;
 
-	while (src <= eod && (c = *src) != 0) {
+	while (src < eod && (c = *src) != 0) {
 		if (c >= 192) {
 			/* compression pointers occupy two octets */
 			src++;
-- 
2.43.0


From 0a1c5177fe31125a83a9250ed9c879a2ab4b11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 04/20] fix: wdns_len_uname() must fail on a name that is not
 terminated

The remaining length wrapped around and success was returned together with a
length one octet larger than the data.
---
 wdns/len_uname.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wdns/len_uname.c b/wdns/len_uname.c
index 30921ef..e19b33b 100644
--- a/wdns/len_uname.c
+++ b/wdns/len_uname.c
@@ -36,8 +36,14 @@ wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 	if (p >= eop)
 		return (wdns_res_overflow);
 
-	while (len-- != 0) {
+	for (;;) {
 		uint8_t oclen;
+
+		/* the name must be terminated within the data */
+		if (len == 0)
+			return (wdns_res_overflow);
+
+		len--;
 		WDNS_BUF_GET8(oclen, p);
 
 		if (oclen > 63 || oclen > len)
-- 
2.43.0


From 1b68dc48d25d3724c4d1b3eda320ff8bdfd14449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 05/20] fix: wdns_count_labels() must not read past the end of
 an unterminated name

---
 wdns/count_labels.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wdns/count_labels.c b/wdns/count_labels.c
index 0b5238a..21a140b 100644
--- a/wdns/count_labels.c
+++ b/wdns/count_labels.c
@@ -33,7 +33,14 @@ wdns_count_labels(wdns_name_t *name, size_t *nlabels)
 	*nlabels = 0;
 	data = name->data;
 
-	while ((c = *data++) != 0) {
+	for (;;) {
+		if (data - name->data >= name->len)
+			return (wdns_res_name_overflow);
+
+		c = *data++;
+		if (c == 0)
+			break;
+
 		if (c <= 63) {
 			*nlabels += 1;
 			data += c;
-- 
2.43.0


From bf78265d2092554b4bcbb0b98d47961e7e53bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 06/20] fix: wdns_reverse_name() must stay inside an
 unterminated name

A name without a terminating root label was copied to the octet before the
output buffer, and the octet after the name was read.
---
 wdns/reverse_name.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/reverse_name.c b/wdns/reverse_name.c
index fac3019..249d49b 100644
--- a/wdns/reverse_name.c
+++ b/wdns/reverse_name.c
@@ -20,6 +20,9 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	size_t len;
 	size_t total_len = 0;
 
+	if (len_name == 0)
+		return (wdns_res_out_of_bounds);
+
 	p = name;
 	memset(rev_name, 0, len_name);
 	rev_name += len_name - 1;
@@ -27,7 +30,7 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	while ((len = *p) != '\x00') {
 		len += 1;
 		total_len += len;
-		if (total_len > len_name) {
+		if (total_len >= len_name) {
 			return (wdns_res_out_of_bounds);
 		}
 		rev_name -= len;
-- 
2.43.0


From d22861e7b7e01cddc83e0eb709ba7cf77cb4a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 07/20] fix: wdns_left_chop() must not read a zero-length name

---
 wdns/left_chop.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/left_chop.c b/wdns/left_chop.c
index 5da4de0..39d1fbe 100644
--- a/wdns/left_chop.c
+++ b/wdns/left_chop.c
@@ -19,6 +19,9 @@ wdns_left_chop(wdns_name_t *name, wdns_name_t *chop)
 {
 	uint8_t oclen;
 
+	if (name->len == 0)
+		return (wdns_res_name_overflow);
+
 	oclen = name->data[0];
 
 	if (oclen == 0 && name->len == 1) {
-- 
2.43.0


From dd0c9dcfb0cace585b24dd1d6dad33ae35043751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 08/20] fix: wdns_domain_to_str() must not read past the end of
 an unterminated name

---
 wdns/domain_to_str.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wdns/domain_to_str.c b/wdns/domain_to_str.c
index 3a0e593..24e8825 100644
--- a/wdns/domain_to_str.c
+++ b/wdns/domain_to_str.c
@@ -33,8 +33,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 
 	assert(src != NULL);
 
-	oclen = *src;
-	while (bytes_remaining > 0 && oclen != 0) {
+	while (bytes_remaining > 0 && (oclen = *src) != 0) {
 		src++;
 		bytes_remaining--;
 
@@ -55,7 +54,6 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 			}
 		}
 		*dst++ = '.';
-		oclen = *src;
 	}
 	if (bytes_read == 0)
 		*dst++ = '.';
-- 
2.43.0


From 039e304fb4b0a43f8fbc329bf61bbb42f05fb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 09/20] fix: wdns_downcase_rdata() must follow the labels of a
 name

An unterminated name wrapped the count of remaining octets and lowered octets
past the end of the record data.  A NUL octet inside a label was taken for the
end of the name, so that later capitals were left alone or the data rejected.
---
 wdns/downcase_rdata.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 3e4e275..80c5e38 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -79,15 +79,19 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				while (bytes_remaining-- != 0) {
-					if (*p == 0) {
-						p++;
-						break;
+				do {
+					if (bytes_remaining == 0)
+						return (wdns_res_parse_error);
+					oclen = *p;
+					advance_bytes(1U);
+					if (oclen > 63 || oclen > bytes_remaining)
+						return (wdns_res_parse_error);
+					for (unsigned i = 0; i < oclen; i++) {
+						if (p[i] >= 'A' && p[i] <= 'Z')
+							p[i] |= 0x20;
 					}
-					if (*p >= 'A' && *p <= 'Z')
-						*p |= 0x20;
-					p++;
-				}
+					advance_bytes(oclen);
+				} while (oclen != 0);
 				break;
 
 			case rdf_repstring:
-- 
2.43.0


From 87368ac68ecb35691d4aaaa383bacf63836703a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 10/20] fix: wdns_downcase_rdata() must skip the address suffix
 of an A6 record

The prefix length was taken for the number of octets of the address.
---
 wdns/downcase_rdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 80c5e38..b96361b 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -135,9 +135,11 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 				break;
 
 			case rdf_ipv6prefix:
+				/* the prefix length in bits, then the rest of the address */
 				oclen = *p;
-				if (oclen > 16U)
+				if (oclen > 128U)
 					return (wdns_res_parse_error);
+				oclen = (128U - oclen + 7U) / 8U;
 				advance_bytes(oclen + 1U);
 				break;
 
-- 
2.43.0


From d1fc4a62012e4efd55a69a52fa5049f25165974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 11/20] fix: _wdns_parse_rdata() must not truncate the size of
 a service parameter

A value of 65532 or more octets wrapped the 16 bit sum, so that the value was
validated past the end of the message.
---
 wdns/parse_rdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 8d249e0..e77ae32 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -267,7 +267,8 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 				 * SVCB or HTTPS message, parsed per section
 				 * 2.2 of draft-ietf-dnsop-svcb-https-08.
 				 */
-				uint16_t key, val_len, kv_len;
+				uint16_t key, val_len;
+				uint32_t kv_len;
 
 				while (src_bytes > 0) {
 					if (src_bytes < (int)(sizeof(key) +
-- 
2.43.0


From b3117faae29d60b1d49d6eb5f15fd33294e68289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 12/20] fix: _wdns_parse_rdata() must reject record data that
 does not fit its length

Expanding compressed names can make record data longer than 65535 octets.
---
 wdns/parse_rdata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index e77ae32..decb25d 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -330,6 +330,10 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 
 	/* load rr->rdata */
 	len = ubuf_size(u);
+	if (len > UINT16_MAX) {
+		res = wdns_res_overflow;
+		goto parse_error;
+	}
 	rr->rdata = my_malloc(sizeof(wdns_rdata_t) + len);
 	rr->rdata->len = len;
 	memcpy(rr->rdata->data, ubuf_cstr(u), len);
-- 
2.43.0


From 9a9308e8c3901924eb573f2707ae3f6fa733c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 13/20] fix: _wdns_rrset_to_ubuf() must not use the record data
 of a question

---
 wdns/rrset_to_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index c12b426..48f2b61 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -31,7 +31,7 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.rrclass = rrset->rrclass;
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
-		rr.rdata = rrset->rdatas[i];
+		rr.rdata = (i < rrset->n_rdatas) ? rrset->rdatas[i] : NULL;
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From 1ef2b51e0e89ff7d4312a6aa48162354b89bf586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 14/20] fix: wdns_str_to_name() must not read past a trailing
 backslash

---
 wdns/str_to_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 5afb237..9a77f4a 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -74,7 +74,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			name->len++;
 		} else if (c == '\\' && !is_digit(*p)) {
 			/* an escaped character */
-			if (slen <= 0)
+			if (slen <= 1)
 				goto out;
 			*data++ = *p;
 			name->len++;
-- 
2.43.0


From 91a43678478d2b41acddc8192c3cbda14064c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 15/20] fix: wdns_str_to_name() must reject labels longer than
 63 octets

---
 wdns/str_to_name.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 9a77f4a..ff8ad71 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -55,7 +55,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 				res = wdns_res_name_overflow;
 				goto out;
 			}
-			*oclen = --label_len;
+			if (--label_len > 63)
+				goto out;
+			*oclen = label_len;
 			*data++ = '\0';
 			name->len++;
 			break;
@@ -110,9 +112,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			goto out;
 		} else if (c == '.') {
 			/* end of label */
-			*oclen = --label_len;
-			if (label_len == 0)
+			if (--label_len == 0 || label_len > 63)
 				goto out;
+			*oclen = label_len;
 			oclen = data++;
 			name->len++;
 			if (slen == 1) {
-- 
2.43.0


From b43818f65e67b2d0688fbaabb67d466baf049a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 16/20] fix: wdns_file_load_names() must not access the octet
 before the line

---
 wdns/file_load_names.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 67faf57..8143d70 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -32,7 +32,7 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 	while (fgets(line, sizeof(line), fp) != NULL) {
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
-		if (line[strlen(line) - 1] == '\n')
+		if (line[0] != '\0' && line[strlen(line) - 1] == '\n')
 			line[strlen(line) - 1] = '\0';
 		res = wdns_str_to_name(line, &name);
 		if (res != wdns_res_success)
-- 
2.43.0


From ffd31d0720b6cbe05d79e00786f5b295cd84f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 17/20] fix: require the length of generically encoded record
 data

Without digits the length was used uninitialized, and a number above 65535 was
taken modulo 65536.
---
 wdns/str_to_rdata_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index be6cb30..7ee45c2 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -384,8 +384,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			ptr++;
 		}
 
-		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) == 0) {
+		unsigned long rdlen;
+		if (sscanf(str, "%lu", &rdlen) != 1) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
-- 
2.43.0


From 9a77b2c442b57426242e4e394eb0a7be12220cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 18/20] fix: do not append uninitialized octets for blank
 hexadecimal digits

sscanf() returns EOF when only white space is left.
---
 wdns/str_to_rdata_ubuf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 7ee45c2..24f3f84 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -404,7 +404,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				res = wdns_res_parse_error;
 				goto err;
 			}
-			if (!sscanf(str, "%02hhx", &c)) {
+			if (sscanf(str, "%02hhx", &c) != 1) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -477,7 +477,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					res = wdns_res_parse_error;
 					goto err;
 				}
-				if (!sscanf(str, "%02hhx", &c)) {
+				if (sscanf(str, "%02hhx", &c) != 1) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -614,7 +614,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
-					if (!sscanf(str, "%02hhx", &c)) {
+					if (sscanf(str, "%02hhx", &c) != 1) {
 						res = wdns_res_parse_error;
 						goto err;
 					}
-- 
2.43.0


From 232bb4fc14f798b62f65189087576a65e6c3eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 19/20] fix: wdns_str_to_rdata() must reject record data longer
 than 65535 octets

---
 wdns/rdata_to_str.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wdns/rdata_to_str.c b/wdns/rdata_to_str.c
index 351f883..ab1af08 100644
--- a/wdns/rdata_to_str.c
+++ b/wdns/rdata_to_str.c
@@ -38,6 +38,8 @@ wdns_str_to_rdata(const char * str, uint16_t rrtype, uint16_t rrclass,
 
 	u = ubuf_new();
 	res = _wdns_str_to_rdata_ubuf(u, str, rrtype, rrclass);
+	if (res == wdns_res_success && ubuf_size(u) > UINT16_MAX)
+		res = wdns_res_overflow;
 	if (res == wdns_res_success) {
 		ubuf_detach(u, (uint8_t **) rdata, rdlen);
 	}
-- 
2.43.0


From be5d9760225111c54f645b69ac06e0fdad335f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 20/20] fix: base64_decode_value() must not read past the end
 of its table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0

