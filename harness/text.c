/* comparison and search: libdstr/common.c */
#include "sm.h"
#ifdef SM_PROOF
static dstr_t gh_a, gh_b;        // the two strings compared; or text and pattern
static size_t gh_f;              // comparison: the first index where they differ
static bool gh_exact;
static int fold(char c);
static bool gh_cmp(size_t i);
static bool gh_count(size_t i, size_t count);
static void gh_count_def(size_t i);
static bool gh_match(size_t i, size_t j);
#endif
static int fold_if(char c, bool exact){
    if(!exact && c >= 'a' && c <= 'z') return c - 'a' + 'A';
    return c;
}
#ifndef SM_NATIVE
#include "libdstr/common.c"
#endif
#ifdef SM_PROOF
static int fold(char c){ return fold_if(c, gh_exact); }

/* ---- comparison.  gh_f is the first index at which the strings differ (one
   of them may end there); before it they agree */
static void agree(size_t i){
    if(i < gh_f && i < gh_a.len && i < gh_b.len) SM_ASSUME(fold(gh_a.data[i]) == fold(gh_b.data[i]));
}
static bool gh_cmp(size_t i){
    agree(i);
    return i <= gh_f;
}
static int sign(int x){ return (x > 0) - (x < 0); }
static void setup(void){
    size_t n = sm_len(0), m = sm_len(0);
    gh_a = sm_dstr_in(n); gh_b = sm_dstr_in(m);
    // an empty string may have no buffer at all
    if(n == 0 && sm_bool()) gh_a.data = NULL;
    if(m == 0 && sm_bool()) gh_b.data = NULL;
    gh_exact = sm_bool();
}
/* the order: lexicographic over (case-folded) chars; the end of a string sorts
   between the negative chars and '\0' */
static bool cmp_setup(bool exact, int *want){
    setup();
    gh_exact = exact;
    gh_f = sm_u64();
    bool equal = gh_a.len == gh_b.len && gh_f >= gh_a.len;
    *want = 0;
    if(!equal){
        SM_ASSUME(gh_f <= gh_a.len && gh_f <= gh_b.len && !(gh_f == gh_a.len && gh_f == gh_b.len));
        if(gh_f == gh_a.len){ int cb = fold(gh_b.data[gh_f]); *want = cb < 0 ? 1 : -1; }
        else if(gh_f == gh_b.len){ int ca = fold(gh_a.data[gh_f]); *want = ca < 0 ? -1 : 1; }
        else{
            int ca = fold(gh_a.data[gh_f]), cb = fold(gh_b.data[gh_f]);
            SM_ASSUME(ca != cb);
            *want = ca < cb ? -1 : 1;
        }
    }
    agree(0);
    return equal;
}
#define CMP(name, exact, call) SM_HARNESS(name){ \
    int want; bool equal = cmp_setup(exact, &want); \
    int r = call; \
    SM_ASSERT((r == 0) == equal, "a comparison is zero exactly on equal strings"); \
    SM_ASSERT(sign(r) == want, "comparison is the lexicographic order"); \
    if(equal && gh_a.len) SM_COVER("equal"); \
    if(!equal) SM_COVER("different"); \
}
#define EQ(name, exact, call) SM_HARNESS(name){ \
    int want; bool equal = cmp_setup(exact, &want); \
    bool r = call; \
    SM_ASSERT(r == equal, "equality is exact: same length, same bytes (up to ASCII case)"); \
    if(equal && gh_a.len) SM_COVER("equal"); \
    if(!equal) SM_COVER("different"); \
}
CMP(p_cmp, true, dstr_cmp(&gh_a, &gh_b))
CMP(p_cmp2, true, dstr_cmp2(gh_a, gh_b))
CMP(p_icmp, false, dstr_icmp(&gh_a, &gh_b))
CMP(p_icmp2, false, dstr_icmp2(gh_a, gh_b))
EQ(p_eq, true, dstr_eq(gh_a, gh_b))
EQ(p_ieq, false, dstr_ieq(gh_a, gh_b))

/* ---- matches.  M(i): the pattern matches at offset i of the text.  K(i): an
   index at which it does not.  C(i): matches found from offset i on, each
   search resuming after the previous match */
_Bool __CPROVER_uninterpreted_match(uint64_t i);
uint64_t __CPROVER_uninterpreted_mismatch(uint64_t i);
uint64_t __CPROVER_uninterpreted_matches(uint64_t i);
#define M(i) __CPROVER_uninterpreted_match(i)
#define K(i) __CPROVER_uninterpreted_mismatch(i)
#define C(i) __CPROVER_uninterpreted_matches(i)
// the definition of M, at offset i and pattern index j
static bool gh_match(size_t i, size_t j){
    SM_ASSUME(!M(i) || fold(gh_a.data[i+j]) == fold(gh_b.data[j]));
    return M(i) || j <= K(i);
}
static void match_def(size_t i){
    if(!M(i)){
        size_t k = K(i);
        SM_ASSUME(k < gh_b.len);
        SM_ASSUME(fold(gh_a.data[i+k]) != fold(gh_b.data[k]));
    }
}
static void gh_count_def(size_t i){
    match_def(i);
    size_t step = gh_b.len ? gh_b.len : 1;
    SM_ASSUME(C(i) == (M(i) ? 1 + C(i + step) : C(i + 1)));
    // and at the next offset, whichever it is, in case the search ends there
    size_t nx = M(i) ? i + step : i + 1;
    if(nx + gh_b.len > gh_a.len) SM_ASSUME(C(nx) == 0);
    // (at most one match per offset)
    SM_ASSUME(C(nx) <= gh_a.len + 1);
}
static bool gh_count(size_t i, size_t count){
    return count + C(i) == C(0) && count <= i;
}
#define COUNT(name, exact, first, call) SM_HARNESS(name){ \
    setup(); \
    gh_exact = exact; \
    if(gh_b.len > gh_a.len) SM_ASSUME(C(0) == 0); \
    size_t r = call; \
    SM_ASSERT(first ? r == (C(0) > 0) : r == C(0), "the number of matches, each after the previous one; contained exactly if there is one"); \
    SM_COVER("counted"); \
    if(r) SM_COVER("found"); \
}
COUNT(p_count, true, false, dstr_count(&gh_a, &gh_b))
COUNT(p_count2, true, false, dstr_count2(gh_a, gh_b))
COUNT(p_icount2, false, false, dstr_icount2(gh_a, gh_b))
COUNT(p_contains, true, true, dstr_contains(gh_a, gh_b))
COUNT(p_icontains, false, true, dstr_icontains(gh_a, gh_b))
/* begins/ends: equality of the corresponding part */
static bool gh_eq_called; static dstr_t gh_x, gh_y; static bool gh_eq_exact, gh_eq_r;
bool c_dstr_eq(const dstr_t a, const dstr_t b){ gh_eq_called = true; gh_eq_exact = true; gh_x = a; gh_y = b; return gh_eq_r; }
bool c_dstr_ieq(const dstr_t a, const dstr_t b){ gh_eq_called = true; gh_eq_exact = false; gh_x = a; gh_y = b; return gh_eq_r; }
static bool is_part(dstr_t x, const char *p, size_t n){ return x.len == n && (n == 0 || x.data == p); }
SM_HARNESS(p_ends){
    setup();
    gh_eq_called = false; gh_eq_r = sm_bool();
    // equality of strings of different length is false
    if(gh_b.len > gh_a.len) gh_eq_r = false;
    bool r; bool begin = sm_bool();
    if(begin) r = gh_exact ? (sm_bool() ? dstr_beginswith2(gh_a, gh_b) : dstr_beginswith(&gh_a, &gh_b)) : dstr_ibeginswith2(gh_a, gh_b);
    else r = gh_exact ? (sm_bool() ? dstr_endswith2(gh_a, gh_b) : dstr_endswith(&gh_a, &gh_b)) : dstr_iendswith2(gh_a, gh_b);
    if(gh_b.len > gh_a.len){ SM_ASSERT(!r, "a longer string is no prefix or suffix"); return; }
    if(!gh_eq_called) return;
    SM_COVER("ends");
    const char *part = begin ? gh_a.data : gh_a.data + (gh_a.len - gh_b.len);
    SM_ASSERT(r == gh_eq_r && gh_eq_exact == gh_exact, "prefix or suffix: decided by equality");
    SM_ASSERT((is_part(gh_x, gh_b.data, gh_b.len) && is_part(gh_y, part, gh_b.len))
        || (is_part(gh_y, gh_b.data, gh_b.len) && is_part(gh_x, part, gh_b.len)), "prefix or suffix: of that part of the text");
}
#else
static int spec_cmp(dstr_t a, dstr_t b, bool exact){
    for(size_t i = 0;; i++){
        if(i == a.len && i == b.len) return 0;
        if(i == a.len) return fold_if(b.data[i], exact) < 0 ? 1 : -1;
        if(i == b.len) return fold_if(a.data[i], exact) < 0 ? -1 : 1;
        int x = fold_if(a.data[i], exact), y = fold_if(b.data[i], exact);
        if(x != y) return x < y ? -1 : 1;
    }
}
static bool at(dstr_t t, dstr_t p, size_t i, bool exact){
    if(i > t.len || p.len > t.len - i) return false;
    for(size_t j = 0; j < p.len; j++) if(fold_if(t.data[i+j], exact) != fold_if(p.data[j], exact)) return false;
    return true;
}
static dstr_t any_text(size_t n){
    dstr_t d = sm_dstr_in(sm_range(0, n));
    // few letters, so that matches happen
    unsigned mode = sm_u8() % 3;
    if(mode) for(size_t i = 0; i < d.len; i++) d.data[i] = mode == 1 ? "aAbB"[d.data[i] & 3] : "a\0z\x80"[d.data[i] & 3];
    if(d.len == 0 && sm_bool()) d.data = NULL;
    return d;
}
SM_HARNESS(s_text){
    dstr_t a = any_text(24), b = any_text(sm_bool() ? 24 : 4);
    if(sm_u8() % 4 == 0 && b.len <= a.len){ size_t o = sm_range(0, a.len - b.len); for(size_t i = 0; i < b.len; i++) a.data[o+i] = b.data[i] ^ (sm_u8() % 5 == 0 ? 32 : 0); }
    for(int exact = 0; exact < 2; exact++){
        int w = spec_cmp(a, b, exact);
        int r = exact ? dstr_cmp2(a, b) : dstr_icmp2(a, b);
        SM_ASSERT((r > 0) - (r < 0) == w, "comparison is the lexicographic order");
        r = exact ? dstr_cmp(&a, &b) : dstr_icmp(&a, &b);
        SM_ASSERT((r > 0) - (r < 0) == w, "comparison is the lexicographic order");
        SM_ASSERT((exact ? dstr_eq(a, b) : dstr_ieq(a, b)) == (w == 0), "equality");
        size_t c = 0;
        for(size_t i = 0; i + b.len <= a.len;){ if(at(a, b, i, exact)){ c++; i += b.len ? b.len : 1; } else i++; }
        SM_ASSERT((exact ? dstr_count2(a, b) : dstr_icount2(a, b)) == c, "count");
        if(exact) SM_ASSERT(dstr_count(&a, &b) == c, "count");
        SM_ASSERT((exact ? dstr_contains(a, b) : dstr_icontains(a, b)) == (c > 0), "contains");
        bool bw = at(a, b, 0, exact), ew = b.len <= a.len && at(a, b, a.len - b.len, exact);
        SM_ASSERT((exact ? dstr_beginswith2(a, b) : dstr_ibeginswith2(a, b)) == bw, "beginswith");
        SM_ASSERT((exact ? dstr_endswith2(a, b) : dstr_iendswith2(a, b)) == ew, "endswith");
        if(exact) SM_ASSERT(dstr_beginswith(&a, &b) == bw && dstr_endswith(&a, &b) == ew, "begins/ends");
    }
}
#endif
