From d5fa40660970528666f7f6959804b93bf81a4c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 01/46] verify: loop-contract and ghost macros, empty unless
 SM_VERIFY

---
 libdstr/common.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libdstr/common.h b/libdstr/common.h
index edf1977..a3dc8cd 100644
--- a/libdstr/common.h
+++ b/libdstr/common.h
@@ -11,6 +11,18 @@ typedef _Bool bool;
 #define ABS(a)   ((a) > 0 ? (a) : (-(a)))
 #endif
 
+/* Loop contracts for the deductive verifier, which defines SM_VERIFY and
+   supplies its own definitions.  In every other build they are empty.
+
+   SM_CUT_DECL(id) goes before a loop, and SM_CUT(id, mods, inv, dec) is the
+   first thing in its body: `mods` lists what the body modifies, `inv` is an
+   invariant which holds whenever the body is entered, and `dec` decreases. */
+#ifndef SM_VERIFY
+#define SM_CUT_DECL(id)
+#define SM_CUT(id, mods, inv, dec)
+#define SM_GHOST(...)
+#endif
+
 #ifndef _WIN32
 // unix
 #define SM_NORETURN(fn) fn __attribute__((noreturn))
-- 
2.43.0


From 2e706c47110bad358937e233a453d597e4f37cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 02/46] verify: loop contracts for base64url

---
 libacme/b64url.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libacme/b64url.c b/libacme/b64url.c
index dad3385..a2bb09d 100644
--- a/libacme/b64url.c
+++ b/libacme/b64url.c
@@ -47,7 +47,13 @@ static derr_type_t do_bin2b64url(const dstr_t bin, writer_i *out){
     writer_t w = *out->w;
 
     unsigned char u = 0;
+    SM_CUT_DECL(enc)
     for(size_t i = 0; i < bin.len; i++){
+        SM_CUT(enc,
+            SM_MOD(i) SM_MOD(u) SM_MOD(etype) SM_MOD(gh),
+            i < bin.len && gh_b64url_encoding(i, u),
+            bin.len - i
+        )
         unsigned char c = ((unsigned char*)bin.data)[i];
         switch(i%3){
             case 0:
@@ -130,7 +136,13 @@ derr_type_t b64url2bin_quiet(const dstr_t b64, dstr_t *bin){
     unsigned char l = 0; // "l"eftovers
     unsigned char *udata = (unsigned char*)b64.data;
     char *view = (char*)&l;
+    SM_CUT_DECL(dec)
     for(size_t i = 0; i < b64.len; i++){
+        SM_CUT(dec,
+            SM_MOD(i) SM_MOD(l) SM_MOD(etype) SM_MOD(gh),
+            i < b64.len && gh_b64url_decoding(i, l),
+            b64.len - i
+        )
         unsigned char u = unb64urllut[udata[i]];
         if(u == 255) return E_PARAM;
         switch(i%4){
-- 
2.43.0


From d3c54719ef1a8ff3175458cffd5e28cd835a6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 03/46] verify: ghost statements in the dns rate limiter

---
 server/dns/rrl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/dns/rrl.c b/server/dns/rrl.c
index 143fd7e..1fa2601 100644
--- a/server/dns/rrl.c
+++ b/server/dns/rrl.c
@@ -62,7 +62,9 @@ static uint32_t hash_addr(const struct sockaddr *sa){
 bool rrl_check(rrl_t *rrl, const struct sockaddr *sa, xtime_t now){
     if(!rrl->nbuckets) return true;
     size_t hash = hash_addr(sa) % rrl->nbuckets;
+    SM_GHOST(gh_rrl_bucket(hash);)
     uint8_t window = (now / SECOND) & 0x1f;
+    SM_GHOST(gh_rrl_window(window, window == (now / SECOND) % 32);)
     uint8_t bucket = rrl->buckets[hash];
     uint8_t stamp = (bucket >> 3) & 0x1f;
     if(stamp != window){
-- 
2.43.0


From acbd523ef565c707f425e47b61c9e0a63467792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:42 +0000
Subject: [PATCH 04/46] fix: utf8 decoding rejects overlong forms and values
 above U+10FFFF; utf16 encoding rejects the latter

---
 libdstr/unicode.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libdstr/unicode.c b/libdstr/unicode.c
index 9bbf208..cb5fef0 100644
--- a/libdstr/unicode.c
+++ b/libdstr/unicode.c
@@ -66,6 +66,11 @@ derr_type_t utf16_encode_quiet(
         return E_NONE;
     }
 
+    if(codepoint > 0x10FFFF){
+        LOG_DEBUG("unicode code point too high\n");
+        return E_PARAM;
+    }
+
     codepoint -= 0x10000;
     uint32_t w1 = 0xD800 | ((codepoint >> 10) & 0x3FF);
     uint32_t w2 = 0xDC00 | ((codepoint >> 0) & 0x3FF);
@@ -114,6 +119,10 @@ loop_start:
         // 110xxxxx 10xxxxxx
         tail = 1;
         codepoint = (u & 0x1F);
+        if(codepoint < 2){
+            LOG_DEBUG("overlong utf8 sequence\n");
+            return E_PARAM;
+        }
     }else if((u & 0xF0) == 0xE0){
         // 3-byte encoding
         // 1110xxxx 10xxxxxx 10xxxxxx
@@ -143,12 +152,22 @@ process_tail:
             LOG_DEBUG("invalid utf8 secondary byte\n");
             return E_PARAM;
         }
+        /* a zero codepoint here means that only a start byte was read, since
+           any sequence with no more significant bits is rejected here */
+        if(codepoint == 0 && ((tail == 1 && u < 0xA0) || (tail == 2 && u < 0x90))){
+            LOG_DEBUG("overlong utf8 sequence\n");
+            return E_PARAM;
+        }
         codepoint = (codepoint << 6) | (u & 0x3F);
     }
     if(codepoint >= 0xD800 && codepoint <= 0xDFFF){
         LOG_DEBUG("utf8 value in utf16 reserved range\n");
         return E_PARAM;
     }
+    if(codepoint > 0x10FFFF){
+        LOG_DEBUG("utf8 value too high\n");
+        return E_PARAM;
+    }
     etype = foreach(codepoint, data);
     if(etype) return etype;
 
-- 
2.43.0


From ae2ed22ebb1184f38509b92598deadc1333f6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 05/46] verify: loop contract for integer parsing

---
 libdstr/cvt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libdstr/cvt.c b/libdstr/cvt.c
index a3e710b..d6a5249 100644
--- a/libdstr/cvt.c
+++ b/libdstr/cvt.c
@@ -86,7 +86,14 @@ static integer_t parse_integer(const dstr_t in, int base){
     const uintmax_t limit = UINTMAX_MAX / ubase;
     const uintmax_t mod = UINTMAX_MAX % ubase;
 
+    SM_CUT_DECL(cvt)
     while(true){
+        SM_CUT(cvt,
+            SM_MOD(i) SM_MOD(c) SM_MOD(out) SM_MOD(gh),
+            gh_number_prefix(in, i, c, out.integer, out.ok, out.negative),
+            in.len - i
+        )
+        SM_GHOST(gh_number_char(c);)
         // read a character
         uintmax_t digit = base_reader(c);
         if(digit == UINTMAX_MAX){
-- 
2.43.0


From f408ac951d15b1df46009bd580aff5998b06df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 06/46] verify: loop contracts for utf8/utf16

---
 libdstr/unicode.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libdstr/unicode.c b/libdstr/unicode.c
index cb5fef0..47a8c1b 100644
--- a/libdstr/unicode.c
+++ b/libdstr/unicode.c
@@ -99,11 +99,19 @@ derr_type_t utf8_decode_stream(
     const unsigned char *udata = (const unsigned char*)in;
     unsigned char u;
 
+    SM_CUT_DECL(utf8)
+
     // possibly skip into loop
     if(tail) goto process_tail;
 
     // unroll for loop into gotos, for easy loop resuming
 loop_start:
+    SM_CUT(utf8,
+        SM_MOD(i) SM_MOD(u) SM_MOD(tail) SM_MOD(codepoint) SM_MOD(etype)
+        SM_MOD(gh) SM_KEEPMEM,
+        gh_utf8_at(i, len) && *tailp == 0,
+        len - i
+    )
     if(i >= len) return E_NONE;
 
     u = udata[i++];
@@ -286,7 +294,15 @@ derr_type_t utf16_decode_stream(
     uint16_t u12 = mku16(u1, u2);
     uint16_t u34 = 0;
 
+    SM_CUT_DECL(utf16)
     for(; i < len; i++){
+        SM_CUT(utf16,
+            SM_MOD(i) SM_MOD(etype) SM_MOD(state) SM_MOD(gh)
+            SM_MOD(u1) SM_MOD(u2) SM_MOD(u3) SM_MOD(u4) SM_MOD(u12) SM_MOD(u34)
+            SM_KEEPMEM,
+            i < len && gh_utf16_at(i, len, state, u1, u2, u3, u12),
+            len - i
+        )
         switch(state){
             case 0:
                 u1 = udata[i];
-- 
2.43.0


From 7af52890cefa0f9d8d7a7afb75abc7b5bedcb36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:11 +0000
Subject: [PATCH 07/46] fix: dns server reads a name from packets which have no
 question

---
 server/dns/dns.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/dns/dns.c b/server/dns/dns.c
index 00c86a7..77a53c8 100644
--- a/server/dns/dns.c
+++ b/server/dns/dns.c
@@ -274,6 +274,9 @@ size_t handle_packet(
 
     LOG_DEBUG("%x", FPKT(pkt));
 
+    // without exactly one question there is no name to read, and no response
+    if(pkt.hdr.qdcount != 1) return 0;
+
     /* save one label more than we'll ever read, so that sort_pkt can be aware
        of junk queries which are only junk because of the extra labels */
     lstr_t rname[6] = {0};
-- 
2.43.0


From b44fcf9c8ec19e0ae6edddc9f7b6f881e5fc4de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:11 +0000
Subject: [PATCH 08/46] fix: dns resource record iteration skips rdata

---
 server/dns/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index 239a37b..d0512be 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -458,6 +458,7 @@ rr_t *rrs_next(rrs_t *it){
     rr.rdlen = (uptr[used+8] << 8) | uptr[used+9];
     used += 10;
     rr.rdoff = used;
+    used += rr.rdlen;
 
     it->rr = rr;
     it->pos = used;
-- 
2.43.0


From 77445f7cb7915573dbf0178e0f657580e377672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:11 +0000
Subject: [PATCH 09/46] fix: dns parser reports an EDNS option which overruns
 its record

---
 server/dns/parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.h b/server/dns/parse.h
index 733372c..e6ba4a7 100644
--- a/server/dns/parse.h
+++ b/server/dns/parse.h
@@ -18,7 +18,7 @@ derr_type_t _fmt_lstr_dbg(const fmt_i *iface, writer_i *out);
 bool lstr_ieq(const lstr_t a, const lstr_t b);
 
 typedef enum {
-    BP_MINVAL                = (size_t)-13,
+    BP_MINVAL                = (size_t)-14,
 
     BP_ENDS_OPT_DATA_OVERRUN = (size_t)-14,
     BP_ENDS_OPT_HDR_OVERRUN  = (size_t)-13,
-- 
2.43.0


From dbc9ecf3dd2a165218c46f1850ea5bde420d5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:46 +0000
Subject: [PATCH 10/46] verify: loop contracts and ghost walk for the dns
 parser and writer

---
 server/dns/parse.c | 71 ++++++++++++++++++++++++++++++++++++++++++++++
 server/dns/write.c | 18 ++++++++++++
 2 files changed, 89 insertions(+)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index d0512be..dd123f2 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -209,7 +209,16 @@ size_t parse_name(const char *ptr, size_t len, size_t used){
     size_t preptr_used = 0;
     size_t namelen = 0;
     uint8_t l = 0;
+    SM_GHOST(const size_t start = used;)
+    SM_CUT_DECL(name)
     do {
+        SM_CUT(name,
+            SM_MOD(used) SM_MOD(l) SM_MODB(after_ptr) SM_MODB(was_ptr)
+            SM_MOD(preptr_used) SM_MOD(namelen),
+            gh_name(start, len, used, after_ptr, was_ptr, preptr_used, namelen),
+            2*(256 - namelen) - was_ptr
+        )
+        SM_GHOST(gh_name_def(used, namelen, was_ptr);)
         // read the length byte
         if(len < used + 1) return BP_LABEL_LEN_BYTE;
         l = uptr[used++];
@@ -243,7 +252,16 @@ size_t parse_name(const char *ptr, size_t len, size_t used){
 size_t skip_name(const char *ptr, size_t used){
     const uint8_t *uptr = (uint8_t*)ptr;
     uint8_t l = 0;
+    SM_GHOST(const size_t start = used;)
+    SM_GHOST(gh_walk_start(start);)
+    SM_CUT_DECL(skip)
     do {
+        SM_CUT(skip,
+            SM_MOD(used) SM_MOD(l) SM_MOD(gh),
+            gh_skip(start, used),
+            256 - gh.n
+        )
+        SM_GHOST(gh_name_def(used, gh.n, false);)
         // read the length byte
         l = uptr[used++];
         if((l & 0xC0) == 0xC0){
@@ -252,6 +270,7 @@ size_t skip_name(const char *ptr, size_t used){
         }else{
             // regular label
             used += l;
+            SM_GHOST(gh.n += l + (size_t)1;)
         }
     } while(l);
 
@@ -263,12 +282,14 @@ lstr_t *labels_iter(labels_t *it, const char *ptr, size_t start){
         .ptr = ptr,
         .pos = start,
     };
+    SM_GHOST(gh_walk_start(start);)
     return labels_next(it);
 }
 
 lstr_t *labels_next(labels_t *it){
     const uint8_t *uptr = (uint8_t*)it->ptr;
     while(true){
+        SM_GHOST(gh_walk_at(it->pos);)
         uint8_t l = uptr[it->pos++];
         if(l == 0){
             if(!it->after_ptr) it->used = it->pos;
@@ -282,6 +303,7 @@ lstr_t *labels_next(labels_t *it){
                 it->used = it->pos;
             }
             it->pos = ((l & ~0xC0) << 8) | l2;
+            SM_GHOST(gh_walk_ptr();)
             continue;
         }
         it->lstr = (lstr_t){
@@ -289,6 +311,7 @@ lstr_t *labels_next(labels_t *it){
             .str = it->ptr + it->pos,
         };
         it->pos += l;
+        SM_GHOST(gh_walk_label();)
         return &it->lstr;
     }
 }
@@ -315,7 +338,15 @@ size_t labels_read_reverse(
 
     size_t total = 0;
     lstr_t *l = labels_iter(&it, ptr, start);
+    SM_CUT_DECL(count)
     for(; l; l = labels_next(&it)){
+        SM_CUT(count,
+            SM_MOD(total) SM_MOD(it) SM_MOD(gh) SM_MODPTR(l, &it.lstr)
+            SM_MODPTR(it.ptr, ptr)
+            SM_KEEPMEM,
+            l == &it.lstr && gh_labels(start, &it, total),
+            256 - gh.n
+        )
         total++;
     }
 
@@ -325,7 +356,16 @@ size_t labels_read_reverse(
     size_t bump = cap > total ? cap - total : 0;
 
     l = labels_iter(&it, ptr, start);
+    SM_CUT_DECL(save)
     for(size_t n = 0; l; n++, l = labels_next(&it)){
+        SM_CUT(save,
+            SM_MOD(n) SM_MOD(it) SM_MOD(gh) SM_MODPTR(l, &it.lstr)
+            SM_MODPTR(it.ptr, ptr)
+            SM_MODMEM(sm_hv_labels(lstrs, cap)),
+            l == &it.lstr && gh_labels(start, &it, n)
+            && gh_saved(lstrs, cap, total, n),
+            256 - gh.n
+        )
         if(n < skip) continue;
         lstrs[(cap + skip) - 1 - n - bump] = *l;
     }
@@ -345,7 +385,14 @@ static size_t parse_qstn(
     qstn->off = used;
 
     // read qdcount qnames
+    SM_CUT_DECL(qstn)
     for(uint16_t i = 0; i < qdcount; i++){
+        SM_CUT(qstn,
+            SM_MOD(i) SM_MOD(used),
+            i < qdcount && used <= len
+            && gh_qnames(qstn->off, i, used),
+            (size_t)(qdcount - i)
+        )
         used = parse_name(ptr, len, used);
         if(is_bad_parse(used)) return used;
     }
@@ -402,7 +449,15 @@ static size_t parse_rr(
     rr->off = used;
     rr->count = count;
 
+    SM_GHOST(const size_t start = used;)
+    SM_CUT_DECL(rr)
     for(uint16_t i = 0; i < count; i++){
+        SM_CUT(rr,
+            SM_MOD(i) SM_MOD(used),
+            i < count && used <= len && gh_rrs(start, count, used, i),
+            (size_t)(count - i)
+        )
+        SM_GHOST(gh_rr_def(used, (size_t)(count - i));)
         used = parse_name(ptr, len, used);
         if(is_bad_parse(used)) return used;
         if(len < used + 10) return BP_RR_HDR_OVERRUN;
@@ -441,6 +496,7 @@ rr_t *rrs_iter(rrs_t *it, const char *ptr, size_t start, size_t count){
 
 rr_t *rrs_next(rrs_t *it){
     if(it->seen == it->count) return NULL;
+    SM_GHOST(gh_rr_def(it->pos, it->count - it->seen);)
 
     const uint8_t *uptr = (uint8_t*)it->ptr;
     size_t used = it->pos;
@@ -500,7 +556,15 @@ static size_t find_edns(rr_t *edns, const dns_rr_t addl){
     *edns = (rr_t){0};
     rrs_t it;
     bool found = false;
+    SM_CUT_DECL(edns)
     for(rr_t *rr = dns_rr_iter(&it, addl); rr; rr = rrs_next(&it)){
+        SM_CUT(edns,
+            SM_MODB(found) SM_MOD(it) SM_MOD(gh) SM_MODPTR(rr, &it.rr)
+            SM_MODPTR(it.ptr, addl.ptr) SM_MODPTR(it.rr.ptr, addl.ptr)
+            SM_MODMEM(sm_hv_edns(edns)),
+            rr == &it.rr && gh_edns(addl.off, addl.count, &it, found, edns),
+            it.count - it.seen
+        )
         if(rr->type != EDNS) continue;
         if(found) return BP_DOUBLE_EDNS;
         found = true;
@@ -523,7 +587,14 @@ static size_t parse_edns(edns_t *edns, const rr_t rr){
     size_t used = rr.rdoff;
     size_t len = rr.rdoff + rr.rdlen;
     const uint8_t *uptr = (uint8_t*)rr.ptr;
+    SM_CUT_DECL(opts)
     while(used < len){
+        SM_CUT(opts,
+            SM_MOD(used) SM_MODMEM(sm_hv_optcount(edns)),
+            gh_opts(rr.rdoff, len, used),
+            len - used
+        )
+        SM_GHOST(gh_opt_def(used, len);)
         if(len < used + 4) return BP_ENDS_OPT_HDR_OVERRUN;
         // uint16_t optcode = (uptr[used+0] << 8) | uptr[used+1];
         uint16_t optlen = (uptr[used+2] << 8) | uptr[used+3];
diff --git a/server/dns/write.c b/server/dns/write.c
index c785748..7c6b877 100644
--- a/server/dns/write.c
+++ b/server/dns/write.c
@@ -133,15 +133,33 @@ size_t write_qstn(const dns_qstn_t qstn, char *out, size_t cap, size_t used){
     labels_t it;
     size_t needed = 5;  // qtype + qclass + null-termination of name
     lstr_t *l = labels_iter(&it, qstn.ptr, qstn.off);
+    SM_CUT_DECL(needed)
     for(; l; l = labels_next(&it)){
+        SM_CUT(needed,
+            SM_MOD(needed) SM_MOD(it) SM_MOD(gh) SM_MODPTR(l, &it.lstr)
+            SM_MODPTR(it.ptr, qstn.ptr)
+            SM_KEEPMEM,
+            l == &it.lstr && gh_needed(qstn.off, &it, needed),
+            256 - gh.n
+        )
         needed += l->len + 1;
     }
 
     if(used + needed > cap) return used + needed;
 
     // qname
+    SM_GHOST(const size_t start = used;)
     l = labels_iter(&it, qstn.ptr, qstn.off);
+    SM_CUT_DECL(qname)
     for(; l; l = labels_next(&it)){
+        SM_CUT(qname,
+            SM_MOD(used) SM_MOD(it) SM_MOD(gh) SM_MODPTR(l, &it.lstr)
+            SM_MODPTR(it.ptr, qstn.ptr)
+            SM_MODPTR(it.lstr.str, qstn.ptr + gh_any())
+            SM_KEEPMEM,
+            l == &it.lstr && gh_qname(qstn.off, &it, start, used),
+            256 - gh.n
+        )
         used = put_uint8(l->len, out, used);
         used = put_lstr(*l, out, used);
     }
-- 
2.43.0


From 6f8ce97b34d03c9b28c5e61f644a9c72f96ee3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 11/46] fix: dstr_grow0 erases the old buffer and records the
 new size

dstr_grow0() called the variant which does not erase, and
dstr_grow0_quiet() left ds->size at the old size.
---
 libdstr/common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index eb0da77..62e3db4 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -576,12 +576,13 @@ derr_type_t dstr_grow0_quiet(dstr_t *ds, size_t min_size){
     memcpy(new, ds->data, ds->len);
     dstr_zeroize(ds);
     free(ds->data);
+    ds->size = newsize;
     ds->data = new;
     return E_NONE;
 }
 derr_t dstr_grow0(dstr_t* ds, size_t min_size){
     derr_t e = E_OK;
-    derr_type_t type = dstr_grow_quiet(ds, min_size);
+    derr_type_t type = dstr_grow0_quiet(ds, min_size);
     if(type) ORIG(&e, type, "unable to grow dstr");
     return e;
 }
-- 
2.43.0


From b2fb7da84c20578edf1ea4e8231c39b67c6eafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 12/46] fix: dstr_count of an empty pattern terminates

---
 libdstr/common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index 62e3db4..aad73fe 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -485,7 +485,8 @@ static size_t do_dstr_count2(
             count++;
             // no need to search anymore until end of current pattern
             // (compensating for the fact that the loop adds 1 to i)
-            i += pattern.len - 1;
+            // (an empty pattern matches once at every position)
+            i += MAX(pattern.len, 1) - 1;
         }
     }
     return count;
-- 
2.43.0


From 3b69e1875ddba6571998696434c082d1323de87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 13/46] fix: dstr_cmp tells a string from its extension by a
 zero byte

It returned 0 for "a" and "a\0", and a result of the wrong sign (read
from a byte which might not be there) if one string had no buffer.
---
 libdstr/common.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index aad73fe..16483b7 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -251,10 +251,6 @@ static int do_dstr_cmp2(const dstr_t a, const dstr_t b, bool sensitive){
     if(a.len == 0 && b.len == 0){
         return 0;
     }
-    // but one NULL and one not are not matching
-    if(!a.data || !b.data){
-        return a.data ? *a.data : *b.data;
-    }
     // don't read past the end of either string
     size_t max = MIN(a.len, b.len);
 
@@ -268,14 +264,14 @@ static int do_dstr_cmp2(const dstr_t a, const dstr_t b, bool sensitive){
         }
     }
 
-    // one string might be longer than the other
+    // one string might be longer than the other, even if just by a '\0'
     if(a.len > b.len){
         int ca = (int)(char_fn(a.data[b.len]));
-        return ca;
+        return ca ? ca : 1;
     }
     if(b.len > a.len){
         int cb = (int)(char_fn(b.data[a.len]));
-        return -cb;
+        return cb ? -cb : -1;
     }
 
     // strings match
-- 
2.43.0


From 202950dd9de1a4d61eb022790bfa1155ff958501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 14/46] fix: hex2bin refuses an odd number of digits and never
 passes isspace a negative

---
 libdstr/common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index 16483b7..4952487 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -1381,7 +1381,7 @@ derr_t hex2bin(const dstr_t* hex, dstr_t* bin){
             val = (unsigned char)(hex->data[i] - 'A' + 10);
         }else if (hex->data[i] >= 'a' && hex->data[i] <= 'f'){
             val = (unsigned char)(hex->data[i] - 'a' + 10);
-        }else if (isspace(hex->data[i])){
+        }else if (isspace((unsigned char)hex->data[i])){
             // ignore whitespace
             continue;
         }else{
@@ -1395,6 +1395,8 @@ derr_t hex2bin(const dstr_t* hex, dstr_t* bin){
             *byte = 0;
         }
     }
+    // half a byte is not a byte
+    if(shift) ORIG(&e, E_PARAM, "bad hex input");
     return e;
 }
 
-- 
2.43.0


From 07c4e126d51962646e97b4a1458f9b07e6cb2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 15/46] verify: loop contracts for dstr basics, text search,
 base64 and hex

---
 libdstr/common.c | 63 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/libdstr/common.c b/libdstr/common.c
index 4952487..8c0c4e9 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -80,7 +80,11 @@ void consume_e_usermsg(derr_t *e, dstr_t *buf){
 derr_type_t dstr_new_quiet(dstr_t *ds, size_t size){
     // only malloc in power of 2
     size_t new_size = 2;
+    SM_CUT_DECL(newsize)
     while(new_size < size){
+        SM_CUT(newsize,
+            SM_MOD(new_size), new_size >= 2 && new_size < size, size - new_size
+        )
         new_size *= 2;
     }
     ds->data = (char*)malloc(new_size);
@@ -256,7 +260,9 @@ static int do_dstr_cmp2(const dstr_t a, const dstr_t b, bool sensitive){
 
     char (*char_fn)(char) = sensitive ? noichar : ichar;
 
+    SM_CUT_DECL(cmp)
     for(size_t i = 0; i < max; i++){
+        SM_CUT(cmp, SM_MOD(i), i < max && gh_cmp(i), max - i)
         char ca = char_fn(a.data[i]);
         char cb = char_fn(b.data[i]);
         if(ca != cb){
@@ -465,11 +471,25 @@ static size_t do_dstr_count2(
 ){
     char (*char_fn)(char) = sensitive ? noichar : ichar;
     size_t count = 0;
+    SM_CUT_DECL(count)
     for(size_t i = 0; i + pattern.len <= text.len; i++){
+        SM_CUT(count,
+            SM_MOD(i) SM_MOD(count),
+            i <= text.len && i + pattern.len <= text.len && gh_count(i, count)
+            && (!exitfirst || count == 0),
+            text.len - i + 1
+        )
+        SM_GHOST(gh_count_def(i);)
         // we know from loop boundary there's always room for a full match
         // so now we can safely just check the whole pattern
         bool match = true;
+        SM_CUT_DECL(match)
         for(size_t j = 0; j < pattern.len; j++){
+            SM_CUT(match,
+                SM_MOD(j) SM_MODB(match),
+                match && j < pattern.len && gh_match(i, j),
+                pattern.len - j
+            )
             if(char_fn(text.data[i + j]) != char_fn(pattern.data[j])){
                 // nope, not a match.  Continue search from i
                 match = false;
@@ -543,7 +563,12 @@ derr_type_t dstr_grow_quiet(dstr_t *ds, size_t min_size){
     if(ds->fixed_size) return E_FIXEDSIZE;
     // upgrade buffer size by powers of 2
     size_t newsize = MAX(ds->size, 2);
+    SM_CUT_DECL(grow)
     while(newsize < min_size){
+        SM_CUT(grow,
+            SM_MOD(newsize), newsize >= 2 && newsize < min_size,
+            min_size - newsize
+        )
         newsize *= 2;
     }
     void* new = realloc(ds->data, newsize);
@@ -565,7 +590,12 @@ derr_type_t dstr_grow0_quiet(dstr_t *ds, size_t min_size){
     if(ds->fixed_size) return E_FIXEDSIZE;
     // upgrade buffer size by powers of 2
     size_t newsize = MAX(ds->size, 2);
+    SM_CUT_DECL(grow0)
     while(newsize < min_size){
+        SM_CUT(grow0,
+            SM_MOD(newsize), newsize >= 2 && newsize < min_size,
+            min_size - newsize
+        )
         newsize *= 2;
     }
     void* new = malloc(newsize);
@@ -1127,8 +1157,16 @@ derr_type_t bin2b64_quiet(
     }
 
     size_t i;
+    SM_CUT_DECL(bin2b64)
     // encode each byte
     for(i = 0; i < end_condition; i++){
+        SM_CUT(bin2b64,
+            SM_MOD(i) SM_MOD(ch_idx) SM_MOD(type)
+            SM_MOD(ch[0]) SM_MOD(ch[1]) SM_MOD(ch[2])
+            SM_KEEP(line_break) SM_MODMEM(sm_hv_text(NULL)),
+            i < end_condition && gh_bin2b64(i, ch, ch_idx),
+            end_condition - i
+        )
         ch[ch_idx++] = (unsigned char)bin->data[i];
         // check to flush chunk
         if(ch_idx == 3 || i == bin->len - 1){
@@ -1213,7 +1251,16 @@ derr_type_t b642bin_quiet(const dstr_t* b64, dstr_t* bin, size_t *consumed){
     size_t total_read = 0;
     if(consumed) *consumed = 0;
 
+    SM_CUT_DECL(b642bin)
     for(size_t i = 0; i < b64->len; i++){
+        SM_CUT(b642bin,
+            SM_MOD(i) SM_MOD(ch_idx) SM_MOD(skip) SM_MOD(total_read) SM_MOD(type)
+            SM_MOD(ch[0]) SM_MOD(ch[1]) SM_MOD(ch[2]) SM_MOD(ch[3])
+            SM_MODMEM(sm_hv_text(NULL)),
+            i < b64->len && gh_b642bin(i, ch, ch_idx, skip, total_read),
+            b64->len - i
+        )
+        SM_GHOST(gh_b642bin_step(i);)
         char c = b64->data[i];
         /* due to the range checks, these casts cannot result in undefined
            behavior */
@@ -1339,7 +1386,15 @@ static derr_type_t bin2hex_quiet(const dstr_t* bin, dstr_t* hex){
     derr_type_t type;
     DSTR_VAR(temp, 3);
     temp.len = 2;
+    SM_CUT_DECL(bin2hex)
     for(size_t i = 0; i < bin->len; i++){
+        SM_CUT(bin2hex,
+            SM_MOD(i) SM_MOD(type) SM_MOD(temp_buffer[0]) SM_MOD(temp_buffer[1])
+            SM_MOD(temp_buffer[2]) SM_KEEP(temp)
+            SM_MODMEM(sm_hv_text(NULL)),
+            i < bin->len && gh_bin2hex(i),
+            bin->len - i
+        )
         int ret = snprintf(
             temp.data, temp.size, "%.2x", (unsigned char)bin->data[i]
         );
@@ -1373,7 +1428,15 @@ derr_t hex2bin(const dstr_t* hex, dstr_t* bin){
     *byte = 0;
 
     // decode each character
+    SM_CUT_DECL(hex2bin)
     for(size_t i = 0; i < hex->len; i++){
+        SM_CUT(hex2bin,
+            SM_MOD(i) SM_MOD(shift) SM_MODMEM(sm_hv_text(byte)) SM_KEEP(e)
+            SM_KEEP(one_char),
+            i < hex->len && gh_hex2bin(i, shift, *byte),
+            hex->len - i
+        )
+        SM_GHOST(gh_hex2bin_step(i);)
         unsigned char val;
         if(hex->data[i] >= '0' && hex->data[i] <= '9'){
             val = (unsigned char)(hex->data[i] - '0');
-- 
2.43.0


From 81bf30498eb10e4c4db6be6fc1810c29d57ff0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:51 +0000
Subject: [PATCH 16/46] fix: decrypter length checks do not wrap around

A length of 4294967295 in the metadata passed the check and was used as
an index, far outside of the buffer; a length of 0 took all of the rest.
---
 libcrypto/crypto.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index bc4cabf..f17a32d 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -977,19 +977,19 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < hash_len + 1){
+                if(leftover.len < (size_t)hash_len + 1){
                     // we don't have the whole line
                     return e;
                 }
                 // otherwise read the hash of the key
                 dstr_t hash;
-                hash = dstr_sub(&leftover, 0, hash_len);
+                hash = dstr_sub2(leftover, 0, hash_len);
                 // verify that after the hash we have a colon
                 if(leftover.data[hash_len] != ':'){
                     ORIG(&e, E_PARAM, "failed to parse R line");
                 }
                 // update the leftover string
-                leftover = dstr_sub(&leftover, hash_len + 1, 0);
+                leftover = dstr_sub(&leftover, (size_t)hash_len + 1, 0);
                 // find the end of the encrypted key length
                 pos = dstr_find(&leftover, &colon, NULL, NULL);
                 // encrypted key length should be 4 charcaters or less
@@ -1008,13 +1008,13 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < key_len + 1){
+                if(leftover.len < (size_t)key_len + 1){
                     // we don't have the whole line
                     return e;
                 }
                 // otherwise read the encrypted key
                 dstr_t key;
-                key = dstr_sub(&leftover, 0, key_len);
+                key = dstr_sub2(leftover, 0, key_len);
                 // verify that after the key we have a new line
                 if(leftover.data[key_len] != '\n'){
                     ORIG(&e, E_PARAM, "failed to parse R line");
@@ -1053,13 +1053,13 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < iv_len + 1){
+                if(leftover.len < (size_t)iv_len + 1){
                     // we don't have the whole line
                     return e;
                 }
                 // otherwise read the iv
                 dstr_t iv;
-                iv = dstr_sub(&leftover, 0, iv_len);
+                iv = dstr_sub2(leftover, 0, iv_len);
                 // verify that after the iv we have a newline
                 if(leftover.data[iv_len] != '\n'){
                     ORIG(&e, E_PARAM, "failed to parse IV line");
-- 
2.43.0


From 0913cfa59bbd52c45b2e8c2b2a6ed3c9bf0ea678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:51 +0000
Subject: [PATCH 17/46] fix: decrypter does not stop at a line which decodes to
 nothing

If the whole of the metadata ended at the end of a line, or a line was
blank, the rest of the lines given in the same call was left unread.
---
 libcrypto/crypto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index f17a32d..6dd666a 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -1199,7 +1199,7 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
         // are we ready to push encrypted message bytes into the decrypter?
         if(dc->message_started == true){
             // dump *buffer into the EVP_CIPHER
-            if(dc->buffer.len == 0) break;
+            if(dc->buffer.len == 0) continue;
             unsigned char* bin = (unsigned char*)dc->buffer.data;
             size_t inl = dc->buffer.len;
             /* the output written will be as much as (inl + block_size - 1),
-- 
2.43.0


From ad514f79ec2d6ebe5d10e14429277f7126e1f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:51 +0000
Subject: [PATCH 18/46] fix: overlong metadata is a bad message, not an
 internal error

---
 libcrypto/crypto.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 6dd666a..912ecfb 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -1178,7 +1178,7 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
             // that should never error
             CATCH(&e2, E_FIXEDSIZE){
                 RETHROW_GO(&e, &e2, E_PARAM, fail);
-            }else PROP(&e, e2);
+            }else PROP_VAR_GO(&e, &e2, fail);
             // that's all for the whole encryption message;
             read = in->len;
             break;
@@ -1189,7 +1189,11 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
         read += sub.len;
 
         // now push *base64 through the decoder
-        NOFAIL_GO(&e, E_FIXEDSIZE, b642bin_stream(&dc->base64, &dc->buffer), fail);
+        e2 = b642bin_stream(&dc->base64, &dc->buffer);
+        // the message part always fits, but a line of metadata might not
+        CATCH(&e2, E_FIXEDSIZE){
+            RETHROW_GO(&e, &e2, E_PARAM, fail);
+        }else PROP_VAR_GO(&e, &e2, fail);
 
         // are we still parsing metadata?
         if(dc->message_started == false){
-- 
2.43.0


From 4d7215bf7659575f88007a5482fc33856c51305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:51 +0000
Subject: [PATCH 19/46] fix: decrypter requires the whole GCM tag

A message whose tag was cut down to a byte was accepted if that byte
matched, so that anybody could forge a message in a few hundred tries.
---
 libcrypto/crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 912ecfb..c6e91b1 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -1247,9 +1247,9 @@ derr_t decrypter_finish(decrypter_t* dc, dstr_t* out){
         ORIG(&e, E_PARAM, "tried to finish decryption before the message began");
     }
 
-    // under no circumstances should the GCM tag be longer than this
-    if(dc->tag.len > INT_MAX){
-        ORIG(&e, E_INTERNAL, "gcm tag is way too long");
+    // openssl would accept a truncated tag, which could be guessed
+    if(dc->tag.len != CIPHER_TAG_LEN){
+        ORIG_GO(&e, E_PARAM, "missing or wrong-sized gcm tag", cleanup);
     }
     int taglen = (int)dc->tag.len;
     // set the GCM authentication tag
-- 
2.43.0


From cbafd09738b384e462630adc144a4cd361a5fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:51 +0000
Subject: [PATCH 20/46] fix: an empty message can be decrypted

---
 libcrypto/crypto.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index c6e91b1..d80b3bb 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -916,7 +916,11 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
     dstr_t sub;
     char* pos;
     // as long as there might be another tag, keep trying to parse
-    while(dc->buffer.len >= longest_tag_len){
+    while(
+        dc->buffer.len >= longest_tag_len
+        // the last tag may be all there is, if the message is empty
+        || dstr_eq(dc->buffer, DSTR_LIT("M:"))
+    ){
         // now try to parse a line
         size_t which_tag;
         pos = dstr_find(&dc->buffer, &tags, &which_tag, NULL);
-- 
2.43.0


From c96e781420f2a6c4d2da0ffc4030551d6c0e6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:51 +0000
Subject: [PATCH 21/46] verify: loop contracts for the decrypter and
 constant-time comparison

---
 libcrypto/cmp.c    |  4 ++++
 libcrypto/crypto.c | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/libcrypto/cmp.c b/libcrypto/cmp.c
index 42156d7..5ccb00f 100644
--- a/libcrypto/cmp.c
+++ b/libcrypto/cmp.c
@@ -9,7 +9,11 @@ bool dstr_eq_consttime(const dstr_t *provided, const dstr_t *secret){
     // when lengths differ, compare provided against itself
     const dstr_t *other = valid ? secret : provided;
 
+    SM_CUT_DECL(consttime)
     for(size_t i = 0; i < provided->len; i++){
+        SM_CUT(consttime, SM_MOD(i) SM_MODB(valid),
+            i < provided->len && gh_consttime(i, valid), provided->len - i
+        )
         valid &= provided->data[i] == other->data[i];
     }
 
diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index d80b3bb..a25ffcd 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -916,11 +916,19 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
     dstr_t sub;
     char* pos;
     // as long as there might be another tag, keep trying to parse
+    SM_CUT_DECL(metadata)
     while(
         dc->buffer.len >= longest_tag_len
         // the last tag may be all there is, if the message is empty
         || dstr_eq(dc->buffer, DSTR_LIT("M:"))
     ){
+        SM_CUT(metadata,
+            SM_MODMEM(sm_hv_metadata(dc)) SM_KEEP(e) SM_KEEP(colon)
+            SM_KEEP(line_end) SM_KEEP(tags) SM_MOD(sub) SM_MOD(pos),
+            dc->buffer.len >= 2 && gh_metadata(dc),
+            dc->buffer.len
+        )
+        SM_GHOST(gh_metadata_step(dc);)
         // now try to parse a line
         size_t which_tag;
         pos = dstr_find(&dc->buffer, &tags, &which_tag, NULL);
@@ -1139,7 +1147,14 @@ derr_t decrypter_update(decrypter_t* dc, dstr_t* in, dstr_t* out){
         }
     }
 
+    SM_CUT_DECL(decrypt)
     while(read < in->len){
+        SM_CUT(decrypt,
+            SM_MODMEM(sm_hv_decrypt(dc, out)) SM_MOD(read) SM_MOD(e2.type)
+            SM_KEEP(e),
+            read < in->len && gh_decrypt(dc, in, read, out),
+            in->len - read
+        )
         // if we already found the tag, ignore everything left
         if(dc->tag_found){
             read = in->len;
-- 
2.43.0


From 94013f4ee4da9863b338a65a915db89860d29d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:04 +0000
Subject: [PATCH 22/46] fix: SEARCH in an empty mailbox is answered with a
 tagged OK

---
 libimaildir/dn.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 9c52eeb..ce1fd1f 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -759,18 +759,16 @@ derr_t dn_search(
 
     PROP(&e, healthcheck(dn) );
 
-    // handle the empty maildir case
-    if(dn->views.size == 0){
-        PROP(&e, send_search_resp(dn, NULL, out) );
-        return e;
-    }
+    ie_nums_t *nums = NULL;
 
-    // now figure out some constants to do the search
-    unsigned int seq_max;
-    PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
+    // nothing matches in an empty maildir
+    if(dn->views.size > 0){
+        // now figure out some constants to do the search
+        unsigned int seq_max;
+        PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
 
-    ie_nums_t *nums = NULL;
-    PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+        PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+    }
 
     link_t temp = {0};
 
-- 
2.43.0


From 64d053887dde4c9650489ce543828431a904211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:10 +0000
Subject: [PATCH 23/46] fix: SEARCH looks at every header of the wanted name

---
 libimaildir/search.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libimaildir/search.c b/libimaildir/search.c
index 6e6f9c7..b07a8ce 100644
--- a/libimaildir/search.c
+++ b/libimaildir/search.c
@@ -60,18 +60,31 @@ static derr_t find_header(
 }
 
 
-// find a header matching `name`, return if its value contains `value`
+// is there a header matching `name` whose value contains `value`?
 static derr_t search_headers(
     search_args_t *args, const dstr_t name, const dstr_t value, bool *out
 ){
     derr_t e = E_OK;
     *out = false;
 
-    dstr_t hvalue;
-    PROP(&e, find_header(args, name, &hvalue) );
-    if(!hvalue.data) return e;
+    const imf_hdrs_t *hdrs;
+    IF_PROP(&e, args->get_hdrs(args->get_hdrs_data, &hdrs) ){
+        TRACE(&e, "failed to parse message for header SEARCH\n");
+        DUMP(e);
+        DROP_VAR(&e);
+        return e;
+    }
 
-    if(dstr_icount2(hvalue, value) > 0) *out = true;
+    // a header may appear many times, any one of which may match
+    for(const imf_hdr_t *hdr = hdrs->hdr; hdr; hdr = hdr->next){
+        dstr_t hname = dstr_from_off(hdr->name);
+        if(dstr_icmp2(hname, name) != 0) continue;
+        dstr_t hvalue = dstr_from_off(hdr->value);
+        if(dstr_icount2(hvalue, value) > 0){
+            *out = true;
+            return e;
+        }
+    }
 
     return e;
 }
-- 
2.43.0


From 515e5ec4d3b4b6755a0d691a773818ab4bdd1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:10 +0000
Subject: [PATCH 24/46] verify: loop contracts for search and message sets

---
 libimaildir/search.c | 15 +++++++++++++++
 libimap/expression.c |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/libimaildir/search.c b/libimaildir/search.c
index b07a8ce..50ceef7 100644
--- a/libimaildir/search.c
+++ b/libimaildir/search.c
@@ -16,7 +16,12 @@ typedef struct {
 
 static bool in_seq_set(unsigned int val, const ie_seq_set_t *seq_set,
         unsigned int max){
+    SM_CUT_DECL(seqset)
     for(; seq_set != NULL; seq_set = seq_set->next){
+        SM_CUT(seqset, SM_MODPTR(seq_set, sm_hv_seqset()),
+            seq_set != NULL && seq_set == gh_node && !gh_any, gh_left
+        )
+        SM_GHOST(gh_seqset_step(val, max);)
         // straighten out the range
         unsigned int n1 = seq_set->n1 ? seq_set->n1 : max;
         unsigned int n2 = seq_set->n2 ? seq_set->n2 : max;
@@ -46,7 +51,12 @@ static derr_t find_header(
     }
 
     // find a matching header field
+    SM_CUT_DECL(findhdr)
     for(const imf_hdr_t *hdr = hdrs->hdr; hdr; hdr = hdr->next){
+        SM_CUT(findhdr, SM_MODPTR(hdr, sm_hv_hdr()),
+            hdr != NULL && hdr == gh_hdr && !gh_any, gh_left
+        )
+        SM_GHOST(gh_hdr_step();)
         // does this header name match?
         dstr_t hname = dstr_from_off(hdr->name);
         if(dstr_icmp2(hname, name) == 0){
@@ -76,7 +86,12 @@ static derr_t search_headers(
     }
 
     // a header may appear many times, any one of which may match
+    SM_CUT_DECL(hdrs)
     for(const imf_hdr_t *hdr = hdrs->hdr; hdr; hdr = hdr->next){
+        SM_CUT(hdrs, SM_MODPTR(hdr, sm_hv_hdr()),
+            hdr != NULL && hdr == gh_hdr && !gh_any, gh_left
+        )
+        SM_GHOST(gh_hdr_step();)
         dstr_t hname = dstr_from_off(hdr->name);
         if(dstr_icmp2(hname, name) != 0) continue;
         dstr_t hvalue = dstr_from_off(hdr->value);
diff --git a/libimap/expression.c b/libimap/expression.c
index 6d76b6f..7dc0e22 100644
--- a/libimap/expression.c
+++ b/libimap/expression.c
@@ -964,7 +964,10 @@ unsigned int ie_seq_set_iter(ie_seq_set_trav_t *trav,
     trav->min = min;
     trav->max = max;
 
+    SM_CUT_DECL(setiter)
     while(trav->ptr){
+        SM_CUT(setiter, SM_MODMEM(sm_hv_trav(trav)), gh_trav(trav), gh_left)
+        SM_GHOST(gh_trav_step(trav);)
         // handle zeros
         unsigned int n1 = trav->ptr->n1 ? trav->ptr->n1 : trav->max;
         unsigned int n2 = trav->ptr->n2 ? trav->ptr->n2 : trav->max;
@@ -994,7 +997,10 @@ unsigned int ie_seq_set_next(ie_seq_set_trav_t *trav){
         trav->ptr = trav->ptr->next;
         if(!trav->ptr) return 0;
 
+        SM_CUT_DECL(setnext)
         while(trav->ptr){
+            SM_CUT(setnext, SM_MODMEM(sm_hv_trav(trav)), gh_trav(trav), gh_left)
+            SM_GHOST(gh_trav_step(trav);)
             // handle zeros
             unsigned int n1 = trav->ptr->n1 ? trav->ptr->n1 : trav->max;
             unsigned int n2 = trav->ptr->n2 ? trav->ptr->n2 : trav->max;
-- 
2.43.0


From 0f16ffbc209867cb3ecfc13afe11d903055179d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:53 +0000
Subject: [PATCH 25/46] verify: loop contracts for search, split and recode

---
 libdstr/common.c | 53 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/libdstr/common.c b/libdstr/common.c
index 8c0c4e9..4437644 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -339,13 +339,33 @@ char* dstr_find(const dstr_t* text, const LIST(dstr_t)* patterns,
     size_t max_partial = 0;
 
     // loop through all characters
+    SM_CUT_DECL(find)
     for(size_t i = 0; i < text->len; i++){
+        SM_CUT(find,
+            SM_MOD(i) SM_MOD(max_partial) SM_MODMEM(sm_hv_find()),
+            i < text->len && gh_find(i, max_partial),
+            text->len - i
+        )
         // loop through each pattern
+        SM_CUT_DECL(findpat)
         for(size_t p = 0; p < patterns->len; p++){
+            SM_CUT(findpat,
+                SM_MOD(p) SM_MOD(max_partial) SM_MODMEM(sm_hv_find()),
+                p < patterns->len && gh_find_pat(i, p, max_partial),
+                patterns->len - p
+            )
+            SM_GHOST(gh_find_pat_def(i, p, max_partial);)
             dstr_t* pat = &patterns->data[p];
             // try and match each character in the pattern
             bool match = true;
+            SM_CUT_DECL(findchar)
             for(size_t j = 0; j < pat->len; j++){
+                SM_CUT(findchar,
+                    SM_MOD(j) SM_MODB(match) SM_MOD(max_partial),
+                    match && j < pat->len
+                    && gh_find_char(i, p, j, max_partial),
+                    pat->len - j
+                )
                 // first check the length limit for identifying partial matches
                 if(i + j == text->len){
                     max_partial = MAX(max_partial, j);
@@ -359,6 +379,7 @@ char* dstr_find(const dstr_t* text, const LIST(dstr_t)* patterns,
                     break;
                 }
             }
+            SM_GHOST(gh_find_partial(p, max_partial);)
             if(match == true){
                 // we found a match!
                 if(which_pattern) *which_pattern = p;
@@ -386,7 +407,14 @@ static derr_t do_dstr_recode(const dstr_t* in,
     if(found_stop) *found_stop = false;
 
     char* cpy_from = in->data;
+    SM_CUT_DECL(recode)
     while((uintptr_t)cpy_from - (uintptr_t)in->data < in->len){
+        SM_CUT(recode,
+            SM_MODPTR(cpy_from, sm_hv_recode()) SM_KEEP(e) SM_KEEPMEM,
+            gh_recode(cpy_from)
+            && (uintptr_t)cpy_from - (uintptr_t)in->data < in->len,
+            in->len - ((uintptr_t)cpy_from - (uintptr_t)in->data)
+        )
         // search *in for one of the search strings
         char* position;
         size_t which_pattern;
@@ -716,7 +744,16 @@ static derr_t do_dstr_split(const dstr_t* text, const dstr_t* pattern,
     size_t word_end;
 
     bool should_continue = true;
+    SM_CUT_DECL(split)
     while(should_continue){
+        SM_CUT(split,
+            SM_MOD(word_start) SM_MOD(word_end) SM_MOD(position)
+            SM_MODB(should_continue) SM_KEEP(e) SM_KEEP(patterns)
+            SM_MODMEM(sm_hv_split(out)),
+            should_continue && gh_split(word_start, out),
+            text->len - word_start + 1
+        )
+        SM_GHOST(gh_split_step();)
         // check if there's another string
         dstr_t sub = dstr_sub(text, word_start, text->len);
         position = dstr_find(&sub, &patterns, NULL, NULL);
@@ -791,7 +828,14 @@ static derr_t do_dstr_split2(
     derr_t e = E_OK;
 
     // zeroize outputs
+    SM_CUT_DECL(zeroouts)
     for(size_t i = 0; i < nouts; i++){
+        SM_CUT(zeroouts,
+            SM_MOD(i) SM_MODMEM(sm_hv_outs()),
+            i < nouts && gh_zeroouts(i),
+            nouts - i
+        )
+        SM_GHOST(gh_outs(outs, i);)
         if(outs[i] != NULL){
             *outs[i] = (dstr_t){0};
         }
@@ -814,7 +858,16 @@ static derr_t do_dstr_split2(
     size_t word_end;
 
     bool should_continue = true;
+    SM_CUT_DECL(split2)
     while(should_continue){
+        SM_CUT(split2,
+            SM_MOD(len) SM_MOD(word_start) SM_MOD(word_end) SM_MOD(position)
+            SM_MODB(should_continue) SM_KEEP(e) SM_KEEP(patterns)
+            SM_MODMEM(sm_hv_outs()),
+            should_continue && len <= nouts && gh_split2(word_start, len),
+            text.len - word_start + 1
+        )
+        SM_GHOST(gh_split2_step(outs, len, nouts);)
         // check if there's another string
         dstr_t sub = dstr_sub2(text, word_start, text.len);
         position = dstr_find(&sub, &patterns, NULL, NULL);
-- 
2.43.0


From f99826cb4bf8a2c67278bed52ad3a18035ce5b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:20 +0000
Subject: [PATCH 26/46] fix: a file name too short to be a maildir name is
 refused

---
 libimaildir/name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/name.c b/libimaildir/name.c
index edb1b23..b5563ea 100644
--- a/libimaildir/name.c
+++ b/libimaildir/name.c
@@ -49,7 +49,7 @@ derr_t maildir_name_parse(
     // first just check to make sure we have met a minimum length
     if(name->len < 16){
         // this filename is too short for an maildir name
-        return e;
+        ORIG(&e, E_PARAM, "too short for a maildir name");
     }
 
     // split major tokens
-- 
2.43.0


From c0a3adf20e400ebf72f763172f0f14bf0f3bfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:20 +0000
Subject: [PATCH 27/46] verify: loop contract for message flags

---
 libimaildir/log.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libimaildir/log.c b/libimaildir/log.c
index a4af3e9..779db65 100644
--- a/libimaildir/log.c
+++ b/libimaildir/log.c
@@ -167,7 +167,14 @@ static derr_t parse_flags(const dstr_t *flags_str, msg_flags_t *flags){
 
     msg_flags_t temp = {0};
 
+    SM_CUT_DECL(flags)
     for(size_t i = 0; i < flags_str->len; i++){
+        SM_CUT(flags,
+            SM_MOD(i) SM_MOD(temp) SM_KEEP(e) SM_KEEPMEM,
+            i < flags_str->len && gh_flags(flags_str, i, &temp),
+            flags_str->len - i
+        )
+        SM_GHOST(gh_flags_step(flags_str, i);)
         char c = flags_str->data[i];
         switch(c){
             case 'a':
-- 
2.43.0


From c3307fab4627c2c7994c435c09373f2742ca8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:25 +0000
Subject: [PATCH 28/46] fix: compacting the log does not bring back forgotten
 messages

---
 libimaildir/log_file.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index f13c047..c4c4a1e 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -70,7 +70,7 @@ static derr_t maybe_compact(log_t *log){
         size_t len = strnlen(buf, sizeof(buf));
 
         // valid lines end in a '\n'
-        if(line[len-1] != '\n'){
+        if(len == 0 || line[len-1] != '\n'){
             if(!feof(f)){
                 TRACE(&e, "line-too-long: %x\n", FS(line));
                 ORIG_GO(&e,
@@ -96,8 +96,16 @@ static derr_t maybe_compact(log_t *log){
             ORIG_GO(&e, E_PARAM, "missing '|' in logfile line", cu);
         }
 
-        // ignore values we wouldn't write anymore
-        if(dstr_eq(val, DSTR_LIT("1:0:0:x"))) continue;
+        /* forget values we don't need to write anymore, along with whatever
+           came before them under the same key */
+        if(dstr_eq(val, DSTR_LIT("1:0:0:x"))){
+            hash_elem_t *gone = hashmap_dels(&h, &key);
+            if(gone){
+                mss = CONTAINER_OF(gone, map_str_str_t, elem);
+                map_str_str_free(&mss);
+            }
+            continue;
+        }
 
         // put this key/val pair in the map
         PROP_GO(&e, map_str_str_new(key, val, &mss), cu);
@@ -406,7 +414,7 @@ static derr_t read_all_keys(
         size_t len = strnlen(buf, sizeof(buf));
 
         // valid lines end in a '\n'
-        if(line[len-1] != '\n'){
+        if(len == 0 || line[len-1] != '\n'){
             if(!feof(f)){
                 TRACE(&e, "line-too-long: %x\n", FS(line));
                 ORIG(&e, E_PARAM, "line-too-long in logfile, discarding");
-- 
2.43.0


From 973f78428312d858badd7aeeec5b0051045deb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:50 +0000
Subject: [PATCH 29/46] verify: loop contracts for the mailbox log

---
 libimaildir/log_file.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index c4c4a1e..363637e 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -55,7 +55,14 @@ static derr_t maybe_compact(log_t *log){
     PROP_GO(&e, dfopen_path(&path, "r", &f), cu);
 
     char buf[MAX_LINE_LEN];
+    SM_CUT_DECL(relines)
     while(true){
+        SM_CUT(relines,
+            SM_MODPTR(mss, NULL) SM_KEEP(buf) SM_KEEP(e) SM_KEEP(h)
+            SM_MODMEM(sm_hv_relines()),
+            mss == NULL && gh_relines(f, &h),
+            gh_lines_left()
+        )
         // read one line
         char *line = fgets(buf, sizeof(buf), f);
         if(line == NULL){
@@ -127,7 +134,14 @@ static derr_t maybe_compact(log_t *log){
     // empty hashmap into the new file
     uint64_t lines = 0;
     elem = hashmap_pop_iter(&trav, &h);
+    SM_CUT_DECL(rewrite)
     for(; elem != NULL; elem = hashmap_pop_next(&trav)){
+        SM_CUT(rewrite,
+            SM_MODPTR(elem, sm_hv_elem()) SM_MODPTR(mss, NULL) SM_MOD(lines)
+            SM_KEEP(e) SM_KEEP(trav) SM_MODMEM(sm_hv_rewrite()),
+            mss == NULL && gh_rewrite(f, elem, lines),
+            gh_elems_left()
+        )
         mss = CONTAINER_OF(elem, map_str_str_t, elem);
         PROP_GO(&e, FFMT(f, "%x|%x\n", FD(mss->key), FD(mss->val)), cu);
         map_str_str_free(&mss);
@@ -151,7 +165,14 @@ cu:
     if(f) fclose(f);
     map_str_str_free(&mss);
     elem = hashmap_pop_iter(&trav, &h);
+    SM_CUT_DECL(empty)
     for(; elem != NULL; elem = hashmap_pop_next(&trav)){
+        SM_CUT(empty,
+            SM_MODPTR(elem, sm_hv_elem()) SM_MODPTR(mss, NULL) SM_KEEP(trav)
+            SM_MODMEM(sm_hv_empty()),
+            mss == NULL && gh_empty(elem),
+            gh_elems_left()
+        )
         mss = CONTAINER_OF(elem, map_str_str_t, elem);
         map_str_str_free(&mss);
     }
@@ -399,7 +420,14 @@ static derr_t read_all_keys(
     *want_trunc = false;
     *himodseq_dn = 1;
 
+    SM_CUT_DECL(lines)
     while(true){
+        SM_CUT(lines,
+            SM_KEEP(buf) SM_KEEP(e)
+            SM_MODMEM(sm_hv_lines(log, valid_len, himodseq_dn)),
+            !*want_trunc && gh_lines(f, log, *valid_len, *himodseq_dn),
+            gh_lines_left()
+        )
         // read one line
         char *line = fgets(buf, sizeof(buf), f);
         if(line == NULL){
@@ -564,7 +592,13 @@ derr_t imaildir_log_open(
         PROP_GO(&e, dfseek(f, 0, SEEK_SET), cu);
         PROP_GO(&e, dfopen_path(&tmppath, "w", &f2), cu);
 
+        SM_CUT_DECL(trunc)
         for(long i = 0; i < valid_len; i++){
+            SM_CUT(trunc,
+                SM_MOD(i) SM_KEEP(e) SM_MODMEM(sm_hv_trunc()),
+                i >= 0 && i < valid_len && gh_trunc(f, f2, i),
+                (size_t)(valid_len - i)
+            )
             int c;
             PROP_GO(&e, dfgetc(f, &c), cu);
             if(c == EOF){
-- 
2.43.0


From 75f88c161c42aa5363e1b401db065ebc0ae091d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:22 +0000
Subject: [PATCH 30/46] fix: building a sequence set keeps nested ranges and
 the highest UID whole

---
 libimaildir/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libimaildir/util.c b/libimaildir/util.c
index da03e16..0131cf8 100644
--- a/libimaildir/util.c
+++ b/libimaildir/util.c
@@ -174,9 +174,9 @@ ie_seq_set_t *seq_set_builder_extract(derr_t *e, seq_set_builder_t *ssb){
         seq_set_builder_elem_t *ssbe =
             CONTAINER_OF(node, seq_set_builder_elem_t, node);
         // sequences touch?
-        if(ssbe->n1 <= cur->n2 + 1){
+        if(ssbe->n1 - 1 <= cur->n2){
             // yes, extend the current seq_set_t
-            cur->n2 = ssbe->n2;
+            cur->n2 = MAX(cur->n2, ssbe->n2);
         }else{
             // no, start a new one
             cur->next = ie_seq_set_new(e, ssbe->n1, ssbe->n2);
-- 
2.43.0


From d8bdc78f9b51a723d39f7f5b82ee2a7ef2c7bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:53 +0000
Subject: [PATCH 31/46] fix: closing a loaded message twice does not free its
 headers twice

---
 libimaildir/dn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index ce1fd1f..30780ef 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -185,6 +185,7 @@ fail:
 static void loader_close(loader_t *loader){
     imf_hdrs_free(loader->hdrs);
     imf_free(loader->imf);
+    loader->hdrs = NULL;
     loader->imf = NULL;
     if(!loader->taken){
         ie_dstr_free(loader->content);
-- 
2.43.0


From 19a8371265d602a22d7b962e33dc391c68709361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:53 +0000
Subject: [PATCH 32/46] fix: a mailbox opened with EXAMINE is not changed by
 CLOSE or FETCH

---
 libimaildir/dn.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 30780ef..deba19d 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1545,8 +1545,9 @@ static derr_t fetch_begin(
     }
 
     /* some FETCH commands can't cause any \Seen flags to get set, while
-       other FETCH commands don't happen to affect any unseen messages */
-    bool ispeek = fetch_is_peek_only(dn->fetch.cmd);
+       other FETCH commands don't happen to affect any unseen messages; and
+       nothing may be changed in a mailbox opened with EXAMINE */
+    bool ispeek = dn->examine || fetch_is_peek_only(dn->fetch.cmd);
     msg_key_list_t *nonpeeks = NULL;
     if(!ispeek){
         PROP(&e, nonpeek_msgs(dn, dn->fetch.uids_dn, &nonpeeks) );
@@ -2067,7 +2068,8 @@ fail:
 static derr_t disconnect_begin(dn_t *dn, bool expunge, bool *ok){
     derr_t e = E_OK;
 
-    if(!expunge){
+    // CLOSE does not expunge from a mailbox opened with EXAMINE
+    if(!expunge || dn->examine){
         /* since the server_t is not allowed to process commands while it is
            waiting for the dn_t to respond to a command, there's no additional
            need to synchronize at this point */
-- 
2.43.0


From 7423f7251316c3a41f726c7ed923153f0d304517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:22 +0000
Subject: [PATCH 33/46] verify: loop contracts for sets of messages and the
 commands using them

---
 libimaildir/dn.c   | 56 ++++++++++++++++++++++++++++++++++++++++++++++
 libimaildir/util.c | 20 +++++++++++++++++
 2 files changed, 76 insertions(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index deba19d..b2b6df5 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -704,7 +704,15 @@ static derr_t dn_search_loop(
     loader_t loader = {0};
 
     // check every message in the view in reverse order
+    SM_CUT_DECL(search)
     for(; node != NULL; node = jsw_atprev(&trav)){
+        SM_CUT(search,
+            SM_MODPTR(node, sm_hv_view()) SM_MOD(view) SM_MOD(seq)
+            SM_MODPTR(nums, sm_hv_nums()) SM_MOD(loader) SM_KEEP(e)
+            SM_KEEP(trav) SM_MODMEM(sm_hv_search()),
+            !is_error(e) && gh_search(node, seq, nums, &loader),
+            gh_views_left()
+        )
         view = CONTAINER_OF(node, msg_view_t, node);
 
         loader = loader_prep(dn->m, view->key);
@@ -843,7 +851,14 @@ static derr_t seq_set_to_canonical_uids_dn(
 
     if(!uid_mode){
         // manually verify none of the ranges in the seq_set are too large
+        SM_CUT_DECL(ranges)
         for(const ie_seq_set_t *p = old; p; p = p->next){
+            SM_CUT(ranges,
+                SM_MODPTR(p, sm_hv_range()),
+                p != NULL && gh_range(p),
+                gh_ranges_left()
+            )
+            SM_GHOST(gh_range_step(p);)
             if(MAX(p->n1, p->n2) > dn->views.size){
                 // invalid seqset in non-uid command
                 *ok = false;
@@ -857,7 +872,14 @@ static derr_t seq_set_to_canonical_uids_dn(
 
     ie_seq_set_trav_t trav;
     unsigned int i = ie_seq_set_iter(&trav, old, first, last);
+    SM_CUT_DECL(canon)
     for(; i != 0; i = ie_seq_set_next(&trav)){
+        SM_CUT(canon,
+            SM_MOD(i) SM_MOD(node) SM_KEEP(e) SM_KEEP(trav)
+            SM_KEEP(ssb) SM_MODMEM(sm_hv_canon()),
+            !is_error(e) && gh_canon(i),
+            gh_nums_left()
+        )
         if(uid_mode){
             // uid_dn in mailbox?
             node = jsw_afind(&dn->views, &i, NULL);
@@ -897,7 +919,14 @@ static derr_t uids_dn_to_msg_keys(
     // no need for first or last since uids_dn is canonicalized
     ie_seq_set_trav_t trav;
     unsigned int i = ie_seq_set_iter(&trav, uids_dn, 0, 0);
+    SM_CUT_DECL(keys)
     for(; i != 0; i = ie_seq_set_next(&trav)){
+        SM_CUT(keys,
+            SM_MOD(i) SM_MODPTR(keys, sm_hv_keys()) SM_KEEP(e) SM_KEEP(trav)
+            SM_MODMEM(sm_hv_canon()),
+            !is_error(e) && gh_keys(i, keys, true),
+            gh_nums_left()
+        )
         // uid_dn in mailbox?
         jsw_anode_t *node = jsw_afind(&dn->views, &i, NULL);
         if(!node){
@@ -977,7 +1006,13 @@ static derr_t store_begin(
     msg_flags_t cmd_flags = msg_flags_from_flags(store->flags);
     ie_seq_set_trav_t trav;
     unsigned int uid_dn = ie_seq_set_iter(&trav, uids_dn, 0, 0);
+    SM_CUT_DECL(store)
     for(; uid_dn != 0; uid_dn = ie_seq_set_next(&trav)){
+        SM_CUT(store,
+            SM_MOD(uid_dn) SM_KEEP(e) SM_KEEP(trav) SM_MODMEM(sm_hv_canon()),
+            !is_error(e) && gh_store(dn, uid_dn),
+            gh_nums_left()
+        )
         jsw_anode_t *node = jsw_afind(&dn->views, &uid_dn, NULL);
         if(!node){
             ORIG_GO(&e, E_INTERNAL, "uid_dn not found", cu);
@@ -1481,7 +1516,14 @@ static derr_t send_fetch_resp(
 
 static bool fetch_is_peek_only(const ie_fetch_cmd_t *fetch){
     if(fetch->attr->rfc822 || fetch->attr->rfc822_text) return false;
+    SM_CUT_DECL(extras)
     for(const ie_fetch_extra_t *p = fetch->attr->extras; p; p = p->next){
+        SM_CUT(extras,
+            SM_MODPTR(p, sm_hv_extra()),
+            p != NULL && gh_extra(p),
+            gh_extras_left()
+        )
+        SM_GHOST(gh_extra_step(p);)
         if(!p->peek) return false;
     }
     return true;
@@ -1501,7 +1543,14 @@ static derr_t nonpeek_msgs(
 
     ie_seq_set_trav_t trav;
     unsigned int uid_dn = ie_seq_set_iter(&trav, uids_dn, 0, 0);
+    SM_CUT_DECL(nonpeek)
     for(; uid_dn != 0; uid_dn = ie_seq_set_next(&trav)){
+        SM_CUT(nonpeek,
+            SM_MOD(uid_dn) SM_MODPTR(keys, sm_hv_keys()) SM_KEEP(e)
+            SM_KEEP(trav) SM_MODMEM(sm_hv_canon()),
+            !is_error(e) && gh_keys(uid_dn, keys, !gh_wview->flags.seen),
+            gh_nums_left()
+        )
         jsw_anode_t *node = jsw_afind(&dn->views, &uid_dn, NULL);
         if(!node){
             msg_key_list_free(keys);
@@ -2048,7 +2097,14 @@ static derr_t get_msg_keys_to_expunge(dn_t *dn, msg_key_list_t **out){
 
     jsw_atrav_t atrav;
     jsw_anode_t *node = jsw_atfirst(&atrav, &dn->views);
+    SM_CUT_DECL(expunge)
     for(; node; node = jsw_atnext(&atrav)){
+        SM_CUT(expunge,
+            SM_MODPTR(node, sm_hv_view()) SM_MODPTR(keys, sm_hv_keys())
+            SM_KEEP(e) SM_KEEP(atrav) SM_MODMEM(sm_hv_search()),
+            !is_error(e) && gh_expunge(node, keys),
+            gh_views_left()
+        )
         msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
         if(view->flags.deleted){
             keys = msg_key_list_new(&e, view->key, keys);
diff --git a/libimaildir/util.c b/libimaildir/util.c
index 0131cf8..bcccb78 100644
--- a/libimaildir/util.c
+++ b/libimaildir/util.c
@@ -77,7 +77,13 @@ void seq_set_builder_prep(seq_set_builder_t *ssb){
 // free all the nodes of the ssb
 void seq_set_builder_free(seq_set_builder_t *ssb){
     jsw_anode_t *node;
+    SM_CUT_DECL(ssbfree)
     while((node = jsw_apop(ssb))){
+        SM_CUT(ssbfree,
+            SM_MODPTR(node, sm_hv_popped()) SM_MODMEM(sm_hv_ssbfree()),
+            gh_popped(node),
+            gh_ssbe_left()
+        )
         seq_set_builder_elem_t *ssbe =
             CONTAINER_OF(node, seq_set_builder_elem_t, node);
         free(ssbe);
@@ -120,7 +126,14 @@ void seq_set_builder_del_val(seq_set_builder_t *ssb, unsigned int val){
     // erase all nodes with a matching n1
     // (this assumes add_range() was never called)
     jsw_anode_t *node;
+    SM_CUT_DECL(ssbdel)
     while((node = jsw_aerase(ssb, &val))){
+        SM_CUT(ssbdel,
+            SM_MODPTR(node, sm_hv_popped()) SM_KEEP(val)
+            SM_MODMEM(sm_hv_ssbfree()),
+            gh_popped(node),
+            gh_ssbe_left()
+        )
         seq_set_builder_elem_t *ssbe =
             CONTAINER_OF(node, seq_set_builder_elem_t, node);
         free(ssbe);
@@ -170,7 +183,14 @@ ie_seq_set_t *seq_set_builder_extract(derr_t *e, seq_set_builder_t *ssb){
     CHECK_GO(e, fail);
 
     // handle all other nodes
+    SM_CUT_DECL(extract)
     for(node = jsw_atnext(&trav); node != NULL; node = jsw_atnext(&trav)){
+        SM_CUT(extract,
+            SM_MODPTR(node, sm_hv_ssbe()) SM_MODPTR(cur, sm_hv_set())
+            SM_KEEP(trav) SM_MODMEM(sm_hv_extract()),
+            !is_error(*e) && gh_extract(base, cur, node),
+            gh_ssbe_left()
+        )
         seq_set_builder_elem_t *ssbe =
             CONTAINER_OF(node, seq_set_builder_elem_t, node);
         // sequences touch?
-- 
2.43.0


From 936066740b5f8d5eef0c04ce03a5523bf5820357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:40 +0000
Subject: [PATCH 34/46] verify: loop contracts for what a session is told

---
 libimaildir/dn.c | 58 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index b2b6df5..4842b7b 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -454,8 +454,15 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
 
     unsigned int seq = 1;
     jsw_atrav_t trav;
+    SM_CUT_DECL(unseen)
     jsw_anode_t *node = jsw_atfirst(&trav, &dn->views);
     for(; node != NULL; seq++, node = jsw_atprev(&trav)){
+        SM_CUT(unseen,
+            SM_MODPTR(node, sm_hv_unseen()) SM_MOD(seq) SM_KEEP(trav)
+            SM_KEEP(e) SM_KEEPMEM,
+            gh_unseen(node, seq),
+            gh_unseen_left()
+        )
         msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
         if(view->flags.seen) continue;
 
@@ -1494,7 +1501,15 @@ static derr_t send_fetch_resp(
     if(fetch->attr->modseq) TRACE_ORIG(&e, E_INTERNAL, "not implemented");
 
     ie_fetch_extra_t *extra = fetch->attr->extras;
+    SM_CUT_DECL(parts)
     for( ; extra; extra = extra->next){
+        SM_CUT(parts,
+            SM_MODPTR(extra, sm_hv_part()) SM_MODPTR(f, gh_fresp())
+            SM_MODB(*part_missing) SM_KEEP(e) SM_KEEP(loader) SM_KEEPMEM,
+            gh_part(extra, f, *part_missing),
+            gh_parts_left()
+        )
+        SM_GHOST(gh_part_step(extra);)
         f = build_fetch_resp_extra(&e, f, extra, &loader, part_missing);
     }
 
@@ -2401,8 +2416,15 @@ static derr_t gather_send_responses(
     // step 1: any EXPUNGEs don't get FETCHes or count for EXISTS
     /* (these EXPUNGEs are not witheld EXPUNGEs, hence it the choice to not
        report FETCH responses) */
+    SM_CUT_DECL(unsent)
     node = jsw_atfirst(&trav, &gather->expunges);
     for(; node; node = jsw_atnext(&trav)){
+        SM_CUT(unsent,
+            SM_MODPTR(node, sm_hv_gathered()) SM_KEEP(trav)
+            SM_MODMEM(sm_hv_send(&temp)),
+            gh_gathered(1, node, &temp),
+            gh_gathered_left()
+        )
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
         node = jsw_aerase(&gather->news, &gathered->uid_dn);
@@ -2413,8 +2435,15 @@ static derr_t gather_send_responses(
     }
 
     // step 2: any new messages don't get FETCHes
+    SM_CUT_DECL(fresh)
     node = jsw_atfirst(&trav, &gather->news);
     for(; node; node = jsw_atnext(&trav)){
+        SM_CUT(fresh,
+            SM_MODPTR(node, sm_hv_gathered()) SM_KEEP(trav)
+            SM_MODMEM(sm_hv_send(&temp)),
+            gh_gathered(2, node, &temp),
+            gh_gathered_left()
+        )
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
         node = jsw_aerase(&gather->metas, &gathered->uid_dn);
@@ -2426,8 +2455,15 @@ static derr_t gather_send_responses(
         // STORE commands have very special rules for what they report back
         PROP_GO(&e, send_store_fetch_resps(dn, gather, &temp), cu);
     }else{
+        SM_CUT_DECL(metas)
         node = jsw_atfirst(&trav, &gather->metas);
         for(; node; node = jsw_atnext(&trav)){
+            SM_CUT(metas,
+                SM_MODPTR(node, sm_hv_gathered()) SM_KEEP(trav) SM_KEEP(e)
+                SM_MODMEM(sm_hv_send(&temp)),
+                gh_gathered(3, node, &temp),
+                gh_gathered_left()
+            )
             gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
             // find our view of this uid_dn
@@ -2447,8 +2483,15 @@ static derr_t gather_send_responses(
     }
 
     // step 4: send expunge updates (in reverse order)
+    SM_CUT_DECL(gone)
     node = jsw_atlast(&trav, &gather->expunges);
     for(; node; node = jsw_atprev(&trav)){
+        SM_CUT(gone,
+            SM_MODPTR(node, sm_hv_gathered()) SM_KEEP(trav) SM_KEEP(e)
+            SM_MODMEM(sm_hv_send(&temp)),
+            gh_gathered(4, node, &temp),
+            gh_gathered_left()
+        )
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
         // find our view of this uid_dn
@@ -2501,7 +2544,14 @@ static derr_t gather_updates_dont_send(
            situation a little less ambiguous */
 
     update_t *update, *temp;
+    SM_CUT_DECL(updates)
     LINK_FOR_EACH_SAFE(update, temp, &dn->pending_updates, update_t, link){
+        SM_CUT(updates,
+            SM_MODPTR(update, sm_hv_update()) SM_MODPTR(temp, gh_next_update())
+            SM_KEEP(e) SM_MODMEM(sm_hv_updates()),
+            gh_update(update, temp),
+            gh_updates_left()
+        )
         switch(update->type){
             // ignore everything but the status-type response
             case UPDATE_NEW:
@@ -2711,7 +2761,15 @@ static derr_t send_store_fetch_resps(dn_t *dn, gather_t *gather, link_t *out){
     gathered = CONTAINER_OF(node, gathered_t, node);
 
     // quit when we reach the end of both lists
+    SM_CUT_DECL(merge)
     while(exp_flags || gathered){
+        SM_CUT(merge,
+            SM_MODPTR(exp_flags, sm_hv_exp()) SM_MODPTR(gathered, sm_hv_met())
+            SM_MOD(node) SM_KEEP(e) SM_KEEP(etrav) SM_KEEP(gtrav)
+            SM_MODMEM(sm_hv_merge(&temp)),
+            gh_merge(exp_flags, gathered, &temp),
+            gh_merge_left()
+        )
         if(gathered){
             // maybe there's no more exp_flags or gathered is behind
             if(!exp_flags || exp_flags->uid_dn > gathered->uid_dn){
-- 
2.43.0


From f826c50c6d18d811f0f3ff2c9cf96aa0258b06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:40 +0000
Subject: [PATCH 35/46] fix: no EXPUNGE response for a message the client was
 never told about

A message which arrives and is expunged within one batch of updates is left
out of EXISTS, but its EXPUNGE was still sent, with a sequence number the
client does not know.
---
 libimaildir/dn.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 4842b7b..8d33687 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -5,6 +5,8 @@
 
 typedef struct {
     unsigned int uid_dn;
+    // an expunged message which the client has never been told about
+    bool unseen;
     jsw_anode_t node;
 } gathered_t;
 DEF_CONTAINER_OF(gathered_t, node, jsw_anode_t)
@@ -2428,6 +2430,7 @@ static derr_t gather_send_responses(
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
         node = jsw_aerase(&gather->news, &gathered->uid_dn);
+        gathered->unseen = !!node;
         if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
 
         node = jsw_aerase(&gather->metas, &gathered->uid_dn);
@@ -2504,6 +2507,9 @@ static derr_t gather_send_responses(
         jsw_aerase(&dn->views, &gathered->uid_dn);
         msg_view_free(&view);
 
+        // don't mention messages that the client was never told about
+        if(gathered->unseen) continue;
+
         unsigned int seq_num;
         PROP_GO(&e, index_to_seq_num(index, &seq_num), cu);
         PROP_GO(&e, send_expunge(dn, seq_num, &temp), cu);
-- 
2.43.0


From cba96dfd11357c29661ffba19dc5df121b2f4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:40 +0000
Subject: [PATCH 36/46] fix: gathered_new() detects a failed malloc()

---
 libimaildir/dn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 8d33687..b979855 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2319,7 +2319,7 @@ static derr_t gathered_new(gathered_t **out, unsigned int uid_dn){
     *out = NULL;
 
     gathered_t *gathered = malloc(sizeof(*gathered));
-    if(!out) ORIG(&e, E_NOMEM, "nomem");
+    if(!gathered) ORIG(&e, E_NOMEM, "nomem");
     *gathered = (gathered_t){ .uid_dn = uid_dn };
 
     *out = gathered;
-- 
2.43.0


From 1c91e08bd4e7ba143a5f9cb81162baf53d978b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:40 +0000
Subject: [PATCH 37/46] fix: SELECT reports the first unseen message

The views were walked backwards from the first one, so UNSEEN was only ever
reported if the very first message was unseen.
---
 libimaildir/dn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index b979855..c40833f 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -458,7 +458,7 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
     jsw_atrav_t trav;
     SM_CUT_DECL(unseen)
     jsw_anode_t *node = jsw_atfirst(&trav, &dn->views);
-    for(; node != NULL; seq++, node = jsw_atprev(&trav)){
+    for(; node != NULL; seq++, node = jsw_atnext(&trav)){
         SM_CUT(unseen,
             SM_MODPTR(node, sm_hv_unseen()) SM_MOD(seq) SM_KEEP(trav)
             SM_KEEP(e) SM_KEEPMEM,
@@ -482,6 +482,7 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
         CHECK(&e);
 
         link_list_append(out, &resp->link);
+        break;
     }
 
     // if no messages were unseen, don't report anything
-- 
2.43.0


From 9925c310089fcad2080b45210fa3caab909a9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:40 +0000
Subject: [PATCH 38/46] fix: dn_store() reports an error from store_begin()

---
 libimaildir/dn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index c40833f..f447431 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1142,7 +1142,7 @@ derr_t dn_store(
     PROP(&e, healthcheck(dn) );
 
     if(!dn->store.started){
-        store_begin(dn, tagp, store, out, ok);
+        PROP(&e, store_begin(dn, tagp, store, out, ok) );
         return e;
     }
 
-- 
2.43.0


From e230b1c3f9fb7c475cf46f26e1841085c1cd3b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:59 +0000
Subject: [PATCH 39/46] fix: FETCH RFC822.TEXT survives a message which can not
 be loaded

---
 libimaildir/dn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index f447431..15e305d 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1473,8 +1473,10 @@ static derr_t send_fetch_resp(
 
     if(fetch->attr->rfc822_text){
         const imf_t *imf = loader_parse_imf(&e, &loader);
-        ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
-        f = ie_fetch_resp_rfc822_text(&e, f, body);
+        if(!is_error(e)){
+            ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
+            f = ie_fetch_resp_rfc822_text(&e, f, body);
+        }
     }
 
     if(fetch->attr->rfc822_size){
-- 
2.43.0


From e7a91a11187a08149080ba2f3dd13ee36b6db45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:25 +0000
Subject: [PATCH 40/46] verify: loop contracts for what a session is told,
 continued

---
 libimaildir/dn.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 15e305d..2277cdf 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2426,7 +2426,7 @@ static derr_t gather_send_responses(
     for(; node; node = jsw_atnext(&trav)){
         SM_CUT(unsent,
             SM_MODPTR(node, sm_hv_gathered()) SM_KEEP(trav)
-            SM_MODMEM(sm_hv_send(&temp)),
+            SM_KEEP(temp) SM_MODMEM(sm_hv_send(&temp)),
             gh_gathered(1, node, &temp),
             gh_gathered_left()
         )
@@ -2446,7 +2446,7 @@ static derr_t gather_send_responses(
     for(; node; node = jsw_atnext(&trav)){
         SM_CUT(fresh,
             SM_MODPTR(node, sm_hv_gathered()) SM_KEEP(trav)
-            SM_MODMEM(sm_hv_send(&temp)),
+            SM_KEEP(temp) SM_MODMEM(sm_hv_send(&temp)),
             gh_gathered(2, node, &temp),
             gh_gathered_left()
         )
@@ -2466,7 +2466,7 @@ static derr_t gather_send_responses(
         for(; node; node = jsw_atnext(&trav)){
             SM_CUT(metas,
                 SM_MODPTR(node, sm_hv_gathered()) SM_KEEP(trav) SM_KEEP(e)
-                SM_MODMEM(sm_hv_send(&temp)),
+                SM_KEEP(temp) SM_MODMEM(sm_hv_send(&temp)),
                 gh_gathered(3, node, &temp),
                 gh_gathered_left()
             )
@@ -2494,7 +2494,7 @@ static derr_t gather_send_responses(
     for(; node; node = jsw_atprev(&trav)){
         SM_CUT(gone,
             SM_MODPTR(node, sm_hv_gathered()) SM_KEEP(trav) SM_KEEP(e)
-            SM_MODMEM(sm_hv_send(&temp)),
+            SM_KEEP(temp) SM_MODMEM(sm_hv_send(&temp)),
             gh_gathered(4, node, &temp),
             gh_gathered_left()
         )
@@ -2561,6 +2561,7 @@ static derr_t gather_updates_dont_send(
             gh_update(update, temp),
             gh_updates_left()
         )
+        SM_GHOST(gh_update_step(update);)
         switch(update->type){
             // ignore everything but the status-type response
             case UPDATE_NEW:
@@ -2775,7 +2776,7 @@ static derr_t send_store_fetch_resps(dn_t *dn, gather_t *gather, link_t *out){
         SM_CUT(merge,
             SM_MODPTR(exp_flags, sm_hv_exp()) SM_MODPTR(gathered, sm_hv_met())
             SM_MOD(node) SM_KEEP(e) SM_KEEP(etrav) SM_KEEP(gtrav)
-            SM_MODMEM(sm_hv_merge(&temp)),
+            SM_KEEP(temp) SM_MODMEM(sm_hv_merge(&temp)),
             gh_merge(exp_flags, gathered, &temp),
             gh_merge_left()
         )
-- 
2.43.0


From f67f292a7becaa6b7754857cadc6c3078aeed003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:25 +0000
Subject: [PATCH 41/46] fix: FETCH answers NO if any part is missing, not only
 the last one

---
 libimaildir/dn.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 2277cdf..ae66a59 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1295,7 +1295,6 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
 ){
     ie_dstr_t *content_resp = NULL;
 
-    *part_missing = false;
     if(is_error(*e)) goto fail;
 
     ie_sect_t *sect = extra->sect;
-- 
2.43.0


From 7b3d98d8b8765bc196942ade153ca637cc9cfda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:15 +0000
Subject: [PATCH 42/46] verify: loop contracts for the header fields of a FETCH

---
 libimaildir/dn.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index ae66a59..0960e1f 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1165,9 +1165,24 @@ static ie_dstr_t *copy_hdr_fields(
 
     ie_dstr_t *out = ie_dstr_new_empty(e);
     const imf_hdr_t *hdr = hdrs->hdr;
+    SM_CUT_DECL(flds)
     for( ; hdr; hdr = hdr->next){
+        SM_CUT(flds,
+            SM_MODPTR(hdr, sm_hv_hdr()) SM_MODPTR(out, gh_flds())
+            SM_MODMEM(sm_hv_flds(e)),
+            gh_hdr(hdr, out, e),
+            gh_hdrs_left()
+        )
+        SM_GHOST(gh_hdr_step(hdr);)
         const ie_dstr_t *name = names;
+        SM_CUT_DECL(names)
         for( ; name; name = name->next){
+            SM_CUT(names,
+                SM_MODPTR(name, sm_hv_name()) SM_KEEPMEM,
+                gh_name(name),
+                gh_names_left()
+            )
+            SM_GHOST(gh_name_step(name);)
             if(dstr_icmp2(dstr_from_off(hdr->name), name->dstr) == 0){
                 dstr_t hdr_bytes = dstr_from_off(hdr->bytes);
                 out = ie_dstr_append(e, out, &hdr_bytes, KEEP_RAW);
@@ -1191,10 +1206,25 @@ static ie_dstr_t *copy_hdr_fields_not(
 
     ie_dstr_t *out = ie_dstr_new_empty(e);
     const imf_hdr_t *hdr = hdrs->hdr;
+    SM_CUT_DECL(nflds)
     for( ; hdr; hdr = hdr->next){
+        SM_CUT(nflds,
+            SM_MODPTR(hdr, sm_hv_hdr()) SM_MODPTR(out, gh_flds())
+            SM_MODMEM(sm_hv_flds(e)),
+            gh_hdr(hdr, out, e),
+            gh_hdrs_left()
+        )
+        SM_GHOST(gh_hdr_step(hdr);)
         const ie_dstr_t *name = names;
         bool keep = true;
+        SM_CUT_DECL(nnames)
         for( ; name; name = name->next){
+            SM_CUT(nnames,
+                SM_MODPTR(name, sm_hv_name()) SM_MODB(keep) SM_KEEPMEM,
+                gh_name(name) && keep,
+                gh_names_left()
+            )
+            SM_GHOST(gh_name_step(name);)
             if(dstr_icmp2(dstr_from_off(hdr->name), name->dstr) == 0){
                 keep = false;
                 break;
-- 
2.43.0


From 4db0ae23a0e0548a73705af4a6a59a45406b30a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:15 +0000
Subject: [PATCH 43/46] fix: BODY[1.HEADER.FIELDS.NOT (...)] of a part without
 headers is missing

It dereferenced NULL, which any client could trigger.
---
 libimaildir/dn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 0960e1f..0c6bad9 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1305,6 +1305,7 @@ static bool build_sect_txt_content_resp(
             break;
 
         case IE_SECT_HDR_FLDS_NOT:
+            if(!imf) return true;
             // just the headers of the message
             *content_resp_out = imf_copy_hdr_fields_not(
                 e, imf, sect_txt->headers
-- 
2.43.0


From c96e3c81ae0632aefa12845c32806d37faf7b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:15 +0000
Subject: [PATCH 44/46] fix: BODY[]<a.b> does not free the content which other
 parts are read from

FETCH 1 (BODY[]<0.10> BODY[]) was a use-after-free.
---
 libimaildir/dn.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 0c6bad9..7b78948 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1407,7 +1407,12 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
         dstr_t sub = ie_dstr_sub(content_resp, start, end);
         ie_dstr_t *temp = content_resp;
         content_resp = ie_dstr_new(e, &sub, KEEP_RAW);
-        ie_dstr_free(temp);
+        if(temp == loader->content){
+            // we only used a copy; the loader may still need the content
+            loader->taken = false;
+        }else{
+            ie_dstr_free(temp);
+        }
         // in the response, only the start offset is specified
         offset = ie_nums_new(e, extra->partial->a);
     }
-- 
2.43.0


From 0f1a3a62f388eb861cf04b6e99f5130a335e7fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 45/46] verify: loop contracts for what a session is told,
 continued

---
 libimaildir/dn.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 7b78948..ec7b89c 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1178,8 +1178,9 @@ static ie_dstr_t *copy_hdr_fields(
         SM_CUT_DECL(names)
         for( ; name; name = name->next){
             SM_CUT(names,
-                SM_MODPTR(name, sm_hv_name()) SM_KEEPMEM,
-                gh_name(name),
+                SM_MODPTR(name, sm_hv_name()) SM_MODPTR(out, gh_flds())
+                SM_KEEPMEM,
+                gh_name(name) && out == gh_flds(),
                 gh_names_left()
             )
             SM_GHOST(gh_name_step(name);)
@@ -1220,8 +1221,9 @@ static ie_dstr_t *copy_hdr_fields_not(
         SM_CUT_DECL(nnames)
         for( ; name; name = name->next){
             SM_CUT(nnames,
-                SM_MODPTR(name, sm_hv_name()) SM_MODB(keep) SM_KEEPMEM,
-                gh_name(name) && keep,
+                SM_MODPTR(name, sm_hv_name()) SM_MODPTR(out, gh_flds())
+                SM_MODB(keep) SM_KEEPMEM,
+                gh_name(name) && keep && out == gh_flds(),
                 gh_names_left()
             )
             SM_GHOST(gh_name_step(name);)
@@ -1545,8 +1547,9 @@ static derr_t send_fetch_resp(
     for( ; extra; extra = extra->next){
         SM_CUT(parts,
             SM_MODPTR(extra, sm_hv_part()) SM_MODPTR(f, gh_fresp())
-            SM_MODB(*part_missing) SM_KEEP(e) SM_KEEP(loader) SM_KEEPMEM,
-            gh_part(extra, f, *part_missing),
+            SM_MODB(*part_missing) SM_KEEP(e) SM_KEEP(loader)
+            SM_MODMEM(sm_hv_parts(&e)),
+            gh_part(extra, f, &e, *part_missing),
             gh_parts_left()
         )
         SM_GHOST(gh_part_step(extra);)
-- 
2.43.0


From 2cacd71c57de671021fe72a8e90fa1352d086b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:37 +0000
Subject: [PATCH 46/46] fix: BODYSTRUCTURE of a message with an unreadable part
 does not crash

---
 libimap/imf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 8f0cb16..0189acb 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1216,7 +1216,7 @@ static derr_t read_bodystructure(
             };
 
             // recurse
-            ie_body_t *new_part;
+            ie_body_t *new_part = NULL;
             // delay error handling until ie_body_add
             e = read_bodystructure(
                 part_hdrs,
-- 
2.43.0

