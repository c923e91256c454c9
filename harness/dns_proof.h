/* Contracts for the DNS parser, iterators and writers, and the proof of each
   function against its own, with its callees' contracts in place of them. */
SM_DEFINE_ERRORS
/* ---- recursive specification functions, given to the solver as uninterpreted
   functions plus the instances of their defining equations that a proof needs.

   V(p,n,w): from offset p, with n bytes of name so far (w: p was reached by a
   pointer), the rest is a well-formed name.  Well-founded in (256-n, w).
   E(p):     where the name's own bytes end (well-founded: p grows).
   W, C:     number of bytes / labels left, for well-formed names.
   For the one walk over the labels of the name at gh_w0:
   P(k): offset of label k's text; SP(k), SN(k): state before label k; NB(i):
             byte i of the name with its pointers resolved.
   RV(p,k):  k well-formed resource records start at p; RE: where they end;
   NO:       how many of them are OPT records; EO: offset of the first one.
   OV(p,e):  well-formed EDNS options fill p..e.
   A UDP datagram has at most 65535 bytes: 32 bits hold every offset. */
typedef uint32_t off_;
_Bool __CPROVER_uninterpreted_V(off_ p, uint16_t n, _Bool w);
off_ __CPROVER_uninterpreted_E(off_ p);
uint16_t __CPROVER_uninterpreted_W(off_ p, uint16_t n, _Bool w);
uint16_t __CPROVER_uninterpreted_C(off_ p, uint16_t n, _Bool w);
off_ __CPROVER_uninterpreted_P(uint16_t k);
off_ __CPROVER_uninterpreted_SP(uint16_t k);
uint16_t __CPROVER_uninterpreted_SN(uint16_t k);
uint8_t __CPROVER_uninterpreted_NB(uint16_t i);
_Bool __CPROVER_uninterpreted_RV(off_ p, uint16_t k);
off_ __CPROVER_uninterpreted_RE(off_ p, uint16_t k);
uint16_t __CPROVER_uninterpreted_NO(off_ p, uint16_t k);
off_ __CPROVER_uninterpreted_EO(off_ p, uint16_t k);
_Bool __CPROVER_uninterpreted_OV(off_ p, off_ e);
#define xV(p, n, w) __CPROVER_uninterpreted_V((off_)(p), (uint16_t)(n), w)
#define xE(p) ((size_t)__CPROVER_uninterpreted_E((off_)(p)))
#define xW(p, n, w) ((size_t)__CPROVER_uninterpreted_W((off_)(p), (uint16_t)(n), w))
#define xC(p, n, w) ((size_t)__CPROVER_uninterpreted_C((off_)(p), (uint16_t)(n), w))
#define xP(k) ((size_t)__CPROVER_uninterpreted_P((uint16_t)(k)))
#define xSP(k) ((size_t)__CPROVER_uninterpreted_SP((uint16_t)(k)))
#define xSN(k) ((size_t)__CPROVER_uninterpreted_SN((uint16_t)(k)))
#define xNB(k) __CPROVER_uninterpreted_NB((uint16_t)(k))
#define xRV(p, k) __CPROVER_uninterpreted_RV((off_)(p), (uint16_t)(k))
#define xRE(p, k) ((size_t)__CPROVER_uninterpreted_RE((off_)(p), (uint16_t)(k)))
#define xNO(p, k) ((size_t)__CPROVER_uninterpreted_NO((off_)(p), (uint16_t)(k)))
#define xEO(p, k) ((size_t)__CPROVER_uninterpreted_EO((off_)(p), (uint16_t)(k)))
#define xOV(p, e) __CPROVER_uninterpreted_OV((off_)(p), (off_)(e))

static const uint8_t *gh_q;         // the datagram
static size_t gh_qlen;
static size_t gh_w0;                // the name whose labels are walked


static size_t gh_wabs, gh_ws;
static size_t gh_j;                 // witness label, counted from the end
static bool gh_nolemma;

// lemma (p_name_lemma): a well-formed name has at most 255 bytes
static void lemma_at(size_t p, size_t n, bool w){
    SM_ASSUME(!xV(p, n, w) || (n <= 254 && xW(p, n, w) <= 254 - n && xC(p, n, w) <= 127 && 2 * xC(p, n, w) <= xW(p, n, w)));
}
// the defining equations of V, E, W, C at one point
static void gh_name_def(size_t p, size_t n, bool w){
    if(!gh_nolemma) lemma_at(p, n, w);
    if(p >= gh_qlen){
        SM_ASSUME(!xV(p, n, w) && xE(p) == p);
        return;
    }
    uint8_t l = gh_q[p];
    if(l >= 0xC0){
        SM_ASSUME(xE(p) == p + 2);
        if(w || p + 1 >= gh_qlen){ SM_ASSUME(!xV(p, n, w)); return; }
        size_t t = (size_t)(l & 0x3F) * 256 + gh_q[p+1];
        SM_ASSUME(xV(p, n, w) == xV(t, n, true));
        SM_ASSUME(xW(p, n, w) == xW(t, n, true) && xC(p, n, w) == xC(t, n, true));
        return;
    }
    SM_ASSUME(xE(p) == (l ? xE(p + 1 + l) : p + 1));
    if(l > 63 || p + 1 + l > gh_qlen || n + l + 1 > 255){ SM_ASSUME(!xV(p, n, w)); return; }
    if(!l){ SM_ASSUME(xV(p, n, w) && xW(p, n, w) == 0 && xC(p, n, w) == 0); return; }
    SM_ASSUME(xV(p, n, w) == xV(p + 1 + l, n + l + 1, false));
    SM_ASSUME(xW(p, n, w) == l + 1 + xW(p + 1 + l, n + l + 1, false));
    SM_ASSUME(xC(p, n, w) == 1 + xC(p + 1 + l, n + l + 1, false));
    if(!gh_nolemma) lemma_at(p + 1 + l, n + l + 1, false);
}
static unsigned q16(size_t p){ return p < gh_qlen && p + 1 < gh_qlen ? gh_q[p] * 256u + gh_q[p+1] : 0; }
static void gh_rr_def(size_t p, size_t k){
    // lemma (p_rr_lemma)
    if(!gh_nolemma) SM_ASSUME(xNO(p, k) <= k);
    if(!k){ SM_ASSUME(xRV(p, 0) && xRE(p, 0) == p && xNO(p, 0) == 0); return; }
    gh_name_def(p, 0, false);
    size_t e = xE(p);
    bool ok = xV(p, 0, false) && e <= gh_qlen && e + 10 <= gh_qlen && e + 10 + q16(e + 8) <= gh_qlen;
    if(!ok){ SM_ASSUME(!xRV(p, k) && xNO(p, k) == 0); return; }
    size_t nx = e + 10 + q16(e + 8);
    SM_ASSUME(xRV(p, k) == xRV(nx, k - 1) && xRE(p, k) == xRE(nx, k - 1));
    SM_ASSUME(xNO(p, k) == (q16(e) == 41) + xNO(nx, k - 1));
    SM_ASSUME(xEO(p, k) == (q16(e) == 41 ? p : xEO(nx, k - 1)));
    if(k == 1) SM_ASSUME(xRV(nx, 0) && xRE(nx, 0) == nx && xNO(nx, 0) == 0);
    else if(!gh_nolemma) SM_ASSUME(xNO(nx, k - 1) <= k - 1);
}
static void gh_opt_def(size_t p, size_t e){
    if(p >= e){ SM_ASSUME(xOV(p, e) == (p == e)); return; }
    if(p + 4 > e || p + 4 + q16(p + 2) > e){ SM_ASSUME(!xOV(p, e)); return; }
    SM_ASSUME(xOV(p, e) == xOV(p + 4 + q16(p + 2), e));
    if(p + 4 + q16(p + 2) == e) SM_ASSUME(xOV(e, e));
}
/* induction steps of the two lemmas */
static void datagram(void){
    gh_qlen = sm_range(0, 65535);
    dstr_t d = sm_dstr_in(gh_qlen);
    gh_q = (const uint8_t*)d.data;
}
SM_HARNESS(p_name_lemma){
    datagram();
    gh_nolemma = true;
    size_t p = sm_range(0, 70000), n = sm_range(0, 255); bool w = sm_bool();
    gh_name_def(p, n, w);
    if(p < gh_qlen){   // induction hypothesis at whatever follows
        uint8_t l = gh_q[p];
        if(l >= 0xC0){ if(p + 1 < gh_qlen) lemma_at((size_t)(l & 0x3F) * 256 + gh_q[p+1], n, true); }
        else lemma_at(p + 1 + l, n + l + 1, false);
    }
    if(xV(p, n, w)){
        SM_COVER("valid");
        SM_ASSERT(n <= 254 && xW(p, n, w) <= 254 - n && xC(p, n, w) <= 127 && 2 * xC(p, n, w) <= xW(p, n, w), "lemma: a name has at most 255 bytes");
    }
}
SM_HARNESS(p_rr_lemma){
    datagram();
    gh_nolemma = true;
    size_t p = sm_range(0, 70000), k = sm_u16();
    gh_rr_def(p, k);
    size_t e = xE(p), nx = e + 10 + q16(e + 8);
    if(k) SM_ASSUME(xNO(nx, k - 1) <= k - 1);   // induction hypothesis
    SM_ASSERT(xNO(p, k) <= k, "lemma: no more OPT records than records");
    SM_COVER("lemma");
}

/* ---------------------------------------------------------- parse_name */
static bool gh_name(size_t start, size_t len, size_t used, bool after_ptr, bool was_ptr, size_t preptr, size_t n){
    if(len != gh_qlen || n > 255 || used > len + 0x4000) return false;
    if(xV(start, 0, false) != xV(used, n, was_ptr)) return false;
    return after_ptr ? preptr == xE(start) && preptr <= len : !was_ptr && used <= len && xE(used) == xE(start);
}
size_t c_parse_name(const char *ptr, size_t len, size_t used){
    if(is_bad_parse(used)) return used;
    SM_ASSERT(ptr == (const char*)gh_q && len == gh_qlen && used <= len, "parse_name: inside the datagram");
    size_t r = sm_u64();
    if(xV(used, 0, false)) SM_ASSUME(r == xE(used) && r <= len);
    else SM_ASSUME(is_bad_parse(r));
    return r;
}
SM_HARNESS(p_parse_name){
    datagram();
    size_t start = sm_range(0, 70000);
    SM_ASSUME(start <= gh_qlen);
    size_t r = parse_name((const char*)gh_q, gh_qlen, start);
    SM_ASSERT(is_bad_parse(r) == !xV(start, 0, false), "a name is accepted iff it is well-formed");
    if(is_bad_parse(r)){ SM_COVER("bad"); return; }
    SM_COVER("good");
    SM_ASSERT(r == xE(start) && r <= gh_qlen, "and its end is where its own bytes end");
}

/* ----------------------------------------------- skip_name, labels_next */
static void gh_walk_start(size_t start){
    SM_ASSERT(start == gh_w0, "ghost: one walk per proof");
    gh.n = 0; gh.k = 0; gh.at = start; gh.wp = false;
    SM_ASSUME(xSP(0) == start && xSN(0) == 0);
    lemma_at(start, 0, false);
}
static void gh_walk_at(size_t pos){
    SM_ASSERT(gh.wp ? pos == gh.at : pos == xSP(gh.k) && gh.n == xSN(gh.k), "the iterator continues the walk");
    gh.at = pos;
    gh_name_def(pos, gh.n, gh.wp);
}
static void gh_walk_ptr(void){
    gh.at = (size_t)(gh_q[gh.at] & 0x3F) * 256 + gh_q[gh.at + 1];
    gh.wp = true;
}
static void gh_walk_label(void){
    size_t l = gh_q[gh.at];
    SM_ASSUME(xSP(gh.k + 1) == gh.at + 1 + l && xSN(gh.k + 1) == gh.n + l + 1 && xP(gh.k) == gh.at + 1);
    gh.k++; gh.n += l + 1; gh.wp = false;
}
static bool gh_skip(size_t start, size_t used){
    return xV(start, 0, false) && xV(used, gh.n, false) && xE(used) == xE(start) && gh.n <= 255 && used <= gh_qlen;
}
size_t c_skip_name(const char *ptr, size_t used){
    SM_ASSERT(ptr == (const char*)gh_q && xV(used, 0, false), "skip_name: at a well-formed name");
    return xE(used);
}
SM_HARNESS(p_skip_name){
    datagram();
    gh_w0 = sm_range(0, 70000);
    SM_ASSUME(gh_w0 <= gh_qlen && xV(gh_w0, 0, false));
    size_t r = skip_name((const char*)gh_q, gh_w0);
    SM_ASSERT(r == xE(gh_w0), "skips exactly the name");
    SM_COVER("skipped");
}
// label number k (from 0) is in `it`
static bool gh_labels(size_t start, const labels_t *it, size_t k){
    if(gh.wp || gh.k != k + 1 || gh.k < 1 || gh.k > 127 || gh.n < 1 || gh.n > 254 || it->ptr != (const char*)gh_q || start != gh_w0) return false;
    if(!xV(start, 0, false) || !xV(it->pos, gh.n, false) || xW(it->pos, gh.n, false) > 255 || xC(it->pos, gh.n, false) > 255) return false;
    if(xC(start, 0, false) != k + 1 + xC(it->pos, gh.n, false)) return false;
    if(xW(start, 0, false) != gh.n + xW(it->pos, gh.n, false)) return false;
    if(it->pos != xSP(gh.k) || gh.n != xSN(gh.k)) return false;
    if(xP(k) < 1 || xP(k) > gh_qlen || it->lstr.len > gh_qlen - xP(k)) return false;
    if(it->lstr.len < 1 || it->lstr.len > 63 || gh.n < it->lstr.len + 1) return false;
    return it->lstr.str == (const char*)gh_q + xP(k) && it->lstr.len == gh_q[xP(k) - 1] && gh.n == xSN(k) + it->lstr.len + 1;
}
static void gh_witness(size_t k, size_t l){
    size_t o = gh_wabs - gh_ws;
    if(gh_wabs >= gh_ws && o >= xSN(k) && o < xSN(k) + l + 1)
        SM_ASSUME(xNB(o) == (o == xSN(k) ? l : gh_q[xP(k) + (o - xSN(k) - 1)]));
}
// before label number gh.k
static bool at_label(const labels_t *it){
    return !gh.wp && it->ptr == (const char*)gh_q && it->pos == xSP(gh.k) && gh.n == xSN(gh.k) && gh.n <= 254 && gh.k <= 127 && xV(it->pos, gh.n, false);
}
lstr_t *c_labels_next(labels_t *it){
    SM_ASSERT(at_label(it), "labels_next: continues the walk");
    size_t p = it->pos, n = gh.n, k = gh.k;
    it->after_ptr = sm_bool(); it->used = sm_u64();
    it->pos = xSP(k + 1);
    if(xC(p, n, false) == 0){ SM_ASSUME(xW(p, n, false) == 0); return NULL; }
    size_t o = xP(k);
    SM_ASSUME(o >= 1 && o <= gh_qlen);
    size_t l = gh_q[o - 1];
    SM_ASSUME(l >= 1 && l <= 63 && l <= gh_qlen - o);
    it->lstr = (lstr_t){ .str = (const char*)gh_q + o, .len = l };
    SM_ASSUME(xV(it->pos, n + l + 1, false) && xC(p, n, false) == 1 + xC(it->pos, n + l + 1, false)
        && xW(p, n, false) == l + 1 + xW(it->pos, n + l + 1, false) && xSN(k + 1) == n + l + 1);
    lemma_at(it->pos, n + l + 1, false);
    gh_witness(k, l);
    gh.k++; gh.n += l + 1;
    return &it->lstr;
}
SM_HARNESS(p_labels_next){
    datagram();
    labels_t it; it.ptr = (const char*)gh_q; it.after_ptr = sm_bool();
    gh.k = sm_range(0, 127); gh.n = sm_range(0, 254); gh.wp = false;
    it.pos = sm_range(0, 70000);
    SM_ASSUME(at_label(&it));
    size_t p = it.pos, n = gh.n, k = gh.k;
    lstr_t *l = labels_next(&it);
    SM_ASSERT((l == NULL) == (xC(p, n, false) == 0), "ends after the last label");
    if(!l){ SM_COVER("end"); SM_ASSERT(xW(p, n, false) == 0, "the name ends"); return; }
    SM_COVER("label");
    SM_ASSERT(l == &it.lstr && it.ptr == (const char*)gh_q && !gh.wp && gh.k == k + 1 && gh.n == n + l->len + 1, "the next label");
    SM_ASSERT(it.pos == xSP(k + 1) && gh.n == xSN(k + 1) && xV(it.pos, gh.n, false), "stays in the name");
    SM_ASSERT(xC(p, n, false) == 1 + xC(it.pos, gh.n, false) && xW(p, n, false) == l->len + 1 + xW(it.pos, gh.n, false), "what is left");
    SM_ASSERT(xP(k) >= 1 && xP(k) <= gh_qlen && l->len >= 1 && l->len <= 63 && l->len <= gh_qlen - xP(k), "the label is inside the datagram");
    SM_ASSERT(l->str == (const char*)gh_q + xP(k) && l->len == gh_q[xP(k) - 1], "the label's text and length");
}
static void sm_hv_labels(lstr_t *lstrs, size_t cap){
    SM_ASSERT(cap == 6, "ghost: the caller's array");
    for(size_t i = 0; i < 6; i++){ lstr_t t; lstrs[i] = t; }
}
static bool is_label(lstr_t l, size_t k){
    return xP(k) >= 1 && xP(k) <= gh_qlen && l.str == (const char*)gh_q + xP(k) && l.len == gh_q[xP(k)-1] && l.len <= gh_qlen - xP(k)
        && l.len >= 1 && l.len <= 63 && xSN(k + 1) == xSN(k) + l.len + 1;
}
static bool gh_saved(const lstr_t *lstrs, size_t cap, size_t total, size_t n){
    if(total != xC(gh_w0, 0, false) || n >= total) return false;
    // the witness label, once passed, is in its place
    if(gh_j < total && gh_j < cap && n > total - 1 - gh_j) return is_label(lstrs[gh_j], total - 1 - gh_j);
    return true;
}
size_t c_labels_read_reverse(const char *ptr, size_t start, lstr_t *lstrs, size_t cap){
    SM_ASSERT(ptr == (const char*)gh_q && start == gh_w0 && xV(start, 0, false) && cap == 6, "labels_read_reverse: at a well-formed name");
    size_t total = xC(start, 0, false);
    SM_ASSUME(total <= 127 && xW(start, 0, false) == xSN(total) && xSN(0) == 0);
    for(size_t j = 0; j < 6; j++){
        lstr_t t;
        if(j < total){
            size_t p = xP(total - 1 - j);
            SM_ASSUME(p >= 1 && p <= gh_qlen);
            t.str = (const char*)gh_q + p; t.len = gh_q[p-1];
            SM_ASSUME(is_label(t, total - 1 - j));
            lstrs[j] = t;
        }
    }
    return total;
}
SM_HARNESS(p_labels_read_reverse){
    datagram();
    gh_w0 = sm_range(0, 70000);
    gh_j = sm_range(0, 5);
    SM_ASSUME(gh_w0 <= gh_qlen && xV(gh_w0, 0, false));
    lstr_t lstrs[6];
    for(size_t i = 0; i < 6; i++) lstrs[i] = (lstr_t){ .len = 99 + i };
    size_t total = labels_read_reverse((const char*)gh_q, gh_w0, lstrs, 6);
    SM_ASSERT(total == xC(gh_w0, 0, false), "the number of labels");
    SM_ASSERT(xW(gh_w0, 0, false) == xSN(total) && xSN(0) == 0, "the name's length is its labels'");
    if(gh_j < total) SM_ASSERT(is_label(lstrs[gh_j], total - 1 - gh_j), "label j, from the end, is in place j");
    if(total > 6) SM_COVER("many");
    if(total > gh_j && total < 6) SM_COVER("few");
}

/* ---------------------------------------------------------- parse_qstn */
static bool gh_qnames(size_t off, size_t i, size_t used){
    return (i != 0 || used == off) && (i == 0 || xV(off, 0, false)) && (i != 1 || used == xE(off));
}
static bool qstn_ok(size_t used){
    return xV(used, 0, false) && xE(used) <= gh_qlen && xE(used) + 4 <= gh_qlen;
}
static bool is_qstn(const dns_qstn_t *q, size_t off){
    return q->ptr == (const char*)gh_q && q->off == off && q->qdcount == 1
        && q->qtype == q16(xE(off)) && q->qclass == q16(xE(off) + 2);
}
size_t c_parse_qstn(dns_qstn_t *qstn, uint16_t qdcount, const char *ptr, size_t len, size_t used){
    if(is_bad_parse(used)) return used;
    SM_ASSERT(ptr == (const char*)gh_q && len == gh_qlen && used <= len, "parse_qstn: inside the datagram");
    dns_qstn_t t; t.ptr = ptr; *qstn = t;
    size_t r = sm_u64();
    SM_ASSUME(is_bad_parse(r) || r <= len);
    if(qdcount == 1){
        if(qstn_ok(used)) SM_ASSUME(r == xE(used) + 4);
        else SM_ASSUME(is_bad_parse(r));
    }
    if(!is_bad_parse(r)){
        SM_ASSUME(qstn->qdcount == qdcount);
        if(qdcount == 1) SM_ASSUME(is_qstn(qstn, used));
    }
    return r;
}
SM_HARNESS(p_parse_qstn){
    datagram();
    size_t start = sm_range(0, 70000);
    SM_ASSUME(start <= gh_qlen);
    uint16_t n = sm_u16();
    dns_qstn_t q;
    size_t r = parse_qstn(&q, n, (const char*)gh_q, gh_qlen, start);
    if(n == 1) SM_ASSERT(is_bad_parse(r) == !qstn_ok(start), "one question is accepted iff it is well-formed");
    if(is_bad_parse(r)){ SM_COVER("bad"); return; }
    SM_ASSERT(r <= gh_qlen && q.qdcount == n, "stays inside the datagram");
    if(n != 1) return;
    SM_COVER("one");
    SM_ASSERT(is_qstn(&q, start) && r == xE(start) + 4, "the question's fields");
}

/* ------------------------------------------------------------ parse_rr */
static bool gh_rrs(size_t start, size_t count, size_t used, size_t i){
    return xRV(start, count) == xRV(used, count - i) && xRE(start, count) == xRE(used, count - i);
}
size_t c_parse_rr(dns_rr_t *rr, uint16_t count, const char *ptr, size_t len, size_t used){
    if(is_bad_parse(used)) return used;
    SM_ASSERT(ptr == (const char*)gh_q && len == gh_qlen && used <= len, "parse_rr: inside the datagram");
    dns_rr_t t; *rr = t;
    rr->ptr = ptr; rr->off = used; rr->count = count;
    size_t r = sm_u64();
    if(xRV(used, count)) SM_ASSUME(r == xRE(used, count) && r <= len);
    else SM_ASSUME(is_bad_parse(r));
    return r;
}
SM_HARNESS(p_parse_rr){
    datagram();
    size_t start = sm_range(0, 70000);
    SM_ASSUME(start <= gh_qlen);
    uint16_t n = sm_u16();
    dns_rr_t rr;
    if(n == 0) gh_rr_def(start, 0);
    size_t r = parse_rr(&rr, n, (const char*)gh_q, gh_qlen, start);
    SM_ASSERT(is_bad_parse(r) == !xRV(start, n), "records are accepted iff they are well-formed");
    if(is_bad_parse(r)){ SM_COVER("bad"); return; }
    SM_COVER("good");
    SM_ASSERT(r == xRE(start, n) && r <= gh_qlen, "and end where the last one ends");
    SM_ASSERT(rr.ptr == (const char*)gh_q && rr.off == start && rr.count == n, "the section's fields");
}
/* ----------------------------------------------------------- find_edns */
static bool is_rr(const rr_t *r, size_t p){
    size_t e = xE(p);
    return r->ptr == (const char*)gh_q && r->nameoff == p && p < gh_qlen && xV(p, 0, false) && e <= gh_qlen && e + 10 <= gh_qlen
        && r->type == q16(e) && r->class == q16(e + 2) && r->ttl == q16(e + 4) * 65536u + q16(e + 6)
        && r->rdlen == q16(e + 8) && r->rdoff == e + 10 && r->rdoff + r->rdlen <= gh_qlen;
}
static void sm_hv_edns(rr_t *edns){ rr_t t; t.ptr = sm_bool() ? (const char*)gh_q : NULL; *edns = t; }
static bool gh_edns(size_t off, size_t count, const rrs_t *it, bool found, const rr_t *edns){
    if(it->ptr != (const char*)gh_q || it->count != count || it->seen < 1 || it->seen > it->count) return false;
    size_t rest = it->count - it->seen;
    if(!xRV(it->pos, rest) || xNO(it->pos, rest) > rest || !is_rr(&it->rr, it->rr.nameoff) || it->pos != it->rr.rdoff + it->rr.rdlen) return false;
    if(rest == 0 && xNO(it->pos, 0) != 0) return false;
    if(xNO(off, count) != (size_t)found + (it->rr.type == 41) + xNO(it->pos, rest)) return false;
    if(found) return is_rr(edns, xEO(off, count)) && edns->type == 41;
    return xEO(off, count) == (it->rr.type == 41 ? it->rr.nameoff : xEO(it->pos, rest));
}
size_t c_find_edns(rr_t *edns, const dns_rr_t addl){
    SM_ASSERT(addl.ptr == (const char*)gh_q && xRV(addl.off, addl.count), "find_edns: well-formed records");
    rr_t t; t.ptr = (const char*)gh_q; *edns = t;
    size_t no = xNO(addl.off, addl.count);
    if(no > 1) return BP_DOUBLE_EDNS;
    if(no == 1) SM_ASSUME(is_rr(edns, xEO(addl.off, addl.count)) && edns->type == 41);
    return no;
}
SM_HARNESS(p_find_edns){
    datagram();
    dns_rr_t addl = { .ptr = (const char*)gh_q, .off = sm_range(0, 70000), .count = sm_u16() };
    SM_ASSUME(addl.off <= gh_qlen && xRV(addl.off, addl.count));
    if(!addl.count) gh_rr_def(addl.off, 0);
    rr_t edns;
    size_t r = find_edns(&edns, addl);
    size_t no = xNO(addl.off, addl.count);
    SM_ASSERT(r == (no > 1 ? BP_DOUBLE_EDNS : no), "none, one, or too many OPT records");
    if(r == 1){ SM_COVER("one"); SM_ASSERT(is_rr(&edns, xEO(addl.off, addl.count)) && edns.type == 41, "the OPT record"); }
    if(r == 0) SM_COVER("none");
    if(r > 1) SM_COVER("two");
}
static void sm_hv_optcount(edns_t *edns){ edns->optcount = sm_u64(); }
static bool gh_opts(size_t off, size_t len, size_t used){
    return used >= off && used < len && len <= gh_qlen && xOV(off, len) == xOV(used, len);
}
static bool edns_ok(const rr_t *r){
    return gh_q[r->nameoff] == 0 && xOV(r->rdoff, r->rdoff + r->rdlen);
}
size_t c_parse_edns(edns_t *edns, const rr_t rr){
    SM_ASSERT(is_rr(&rr, rr.nameoff), "parse_edns: a record");
    edns_t t; t.ptr = rr.ptr; *edns = t;
    edns->found = true;
    SM_ASSUME(edns->udp_size == rr.class && edns->ptr == rr.ptr && edns->optoff == rr.rdoff);
    if(edns_ok(&rr)) return 0;
    size_t r = sm_u64();
    SM_ASSUME(is_bad_parse(r));
    return r;
}
SM_HARNESS(p_parse_edns){
    datagram();
    rr_t rr; rr.ptr = (const char*)gh_q; size_t p = sm_range(0, 70000);
    SM_ASSUME(is_rr(&rr, p));
    gh_opt_def(rr.rdoff, rr.rdoff + rr.rdlen);
    edns_t edns;
    size_t r = parse_edns(&edns, rr);
    SM_ASSERT(is_bad_parse(r) == !edns_ok(&rr), "accepted iff unnamed and its options fill it exactly");
    SM_ASSERT(is_bad_parse(r) || r == 0, "zero for ok");
    SM_ASSERT(edns.found, "found");
    if(r) { SM_COVER("bad"); return; }
    SM_COVER("good");
    SM_ASSERT(edns.udp_size == rr.class && edns.ptr == rr.ptr && edns.optoff == rr.rdoff, "the OPT record's fields");
}
/* ----------------------------------------------------------- parse_pkt */
static bool pkt_edns_ok(size_t p, size_t k){
    size_t no = xNO(p, k);
    if(no == 0) return true;
    if(no > 1) return false;
    size_t o = xEO(p, k), e = xE(o);
    return o < gh_qlen && gh_q[o] == 0 && xOV(e + 10, e + 10 + q16(e + 8));
}
// a query with one question is well-formed
static bool pkt_ok_(void){
    if(gh_qlen < 12 || !qstn_ok(12)) return false;
    size_t p = xE(12) + 4;
    if(!xRV(p, q16(6))) return false;
    p = xRE(p, q16(6));
    if(!xRV(p, q16(8))) return false;
    p = xRE(p, q16(8));
    return xRV(p, q16(10)) && pkt_edns_ok(p, q16(10));
}
// what the datagram says, evaluated once
static struct { bool done, ok, edns; size_t addl; unsigned id, flags, qd, type, class, udp; } gd;
static void gd_eval(void){
    if(gd.done) return;
    gd.done = true;
    gd.ok = pkt_ok_();
    gd.addl = xRE(xRE(xE(12) + 4, q16(6)), q16(8));
    gd.id = q16(0); gd.flags = q16(2); gd.qd = q16(4);
    gd.type = q16(xE(12)); gd.class = q16(xE(12) + 2);
    gd.edns = xNO(gd.addl, q16(10)) == 1;
    gd.udp = q16(xE(xEO(gd.addl, q16(10))) + 2);
}
static bool pkt_ok(void){ gd_eval(); return gd.ok; }
static bool is_pkt(const dns_pkt_t *k){
    gd_eval();
    if(k->hdr.id != gd.id || k->hdr.qr != gd.flags >> 15 || k->hdr.opcode != ((gd.flags >> 11) & 15) || k->hdr.rd != ((gd.flags >> 8) & 1)) return false;
    if(k->hdr.qdcount != gd.qd) return false;
    if(k->hdr.qdcount != 1) return true;
    if(k->qstn.ptr != (const char*)gh_q || k->qstn.off != 12 || k->qstn.qdcount != 1 || k->qstn.qtype != gd.type || k->qstn.qclass != gd.class) return false;
    return k->edns.found == gd.edns && (!k->edns.found || k->edns.udp_size == gd.udp);
}
size_t c_parse_pkt(dns_pkt_t *pkt, const char *ptr, size_t len){
    SM_ASSERT(ptr == (const char*)gh_q && len == gh_qlen, "parse_pkt: the datagram");
    dns_pkt_t t; t.qstn.ptr = ptr; t.edns.found = sm_bool(); *pkt = t;
    size_t r = sm_u64();
    SM_ASSUME(r == 0 || is_bad_parse(r));
    gd_eval();
    if(gh_qlen >= 12 && gd.qd == 1) SM_ASSUME(is_bad_parse(r) == !pkt_ok());
    if(!r) SM_ASSUME(gh_qlen >= 12 && is_pkt(pkt));
    return r;
}
SM_HARNESS(p_parse_pkt){
    datagram();
    dns_pkt_t pkt;
    size_t r = parse_pkt(&pkt, (const char*)gh_q, gh_qlen);
    SM_ASSERT(r == 0 || is_bad_parse(r), "parsed, or an error");
    if(gh_qlen >= 12 && q16(4) == 1){
        SM_ASSERT(is_bad_parse(r) == !pkt_ok(), "a datagram with one question is accepted iff it is well-formed");
        SM_COVER("one question");
    }
    if(r){ SM_COVER("bad"); return; }
    SM_ASSERT(gh_qlen >= 12 && is_pkt(&pkt), "its fields are the ones on the wire");
    if(pkt.edns.found) SM_COVER("edns");
}
#include "dns_proof2.h"
