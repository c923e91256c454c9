/* what the in-place annotations of parse.c and write.c refer to */
struct { size_t n, k, at; bool wp; uint8_t x; } gh;   // x: the witness byte of the output
static void gh_name_def(size_t p, size_t n, bool w);
static void gh_rr_def(size_t p, size_t k);
static void gh_opt_def(size_t p, size_t e);
static bool gh_name(size_t start, size_t len, size_t used, bool after_ptr, bool was_ptr, size_t preptr, size_t n);
static void gh_walk_start(size_t start);
static void gh_walk_at(size_t pos);
static void gh_walk_ptr(void);
static void gh_walk_label(void);
static bool gh_skip(size_t start, size_t used);
static bool gh_labels(size_t start, const labels_t *it, size_t k);
static void sm_hv_labels(lstr_t *lstrs, size_t cap);
static bool gh_saved(const lstr_t *lstrs, size_t cap, size_t total, size_t n);
static bool gh_qnames(size_t off, size_t i, size_t used);
static bool gh_rrs(size_t start, size_t count, size_t used, size_t i);
static void sm_hv_edns(rr_t *edns);
static bool gh_edns(size_t off, size_t count, const rrs_t *it, bool found, const rr_t *edns);
static void sm_hv_optcount(edns_t *edns);
static bool gh_opts(size_t off, size_t len, size_t used);
static size_t gh_any(void){ return sm_len(0); }
static bool gh_needed(size_t off, const labels_t *it, size_t needed);
static bool gh_qname(size_t off, const labels_t *it, size_t start, size_t used);
/* memcpy's contract (put_lstr alone); of the destination only a witness byte
   is observed */
static char *gh_mo; static size_t gh_mw;
static void *sm_memcpy(void *dst, const void *src, size_t n){
    SM_ASSERT(n == 0 || __CPROVER_r_ok(src, n), "memcpy reads only valid memory");
    SM_ASSERT(n == 0 || __CPROVER_w_ok(dst, n), "memcpy writes only valid memory");
    size_t o = (size_t)((char*)dst - gh_mo);
    if(gh_mw >= o && gh_mw - o < n) gh_mo[gh_mw] = ((const char*)src)[gh_mw - o];
    return dst;
}
#define memcpy sm_memcpy
