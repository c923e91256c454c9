/* integer parsing: libdstr/cvt.c */
#include "sm.h"

static int spec_digit(unsigned char c, int base){
    int d = -1;
    if(c >= '0' && c <= '9') d = c - '0';
    else if(c >= 'a' && c <= 'f') d = c - 'a' + 10;
    else if(c >= 'A' && c <= 'F') d = c - 'A' + 10;
    return d >= 0 && d < base ? d : -1;
}

#ifdef SM_PROOF
SM_DEFINE_ERRORS
/* ghost: the exact value of the digits read so far.  bad: a char which is not
   a digit was read.  big: the exact value does not fit in 64 bits (and so
   neither does that of any longer digit string). */
struct { size_t pos; uint64_t val; bool bad, big; } gh;
static int gh_base;
static dstr_t gh_in;
static bool gh_number_prefix(const dstr_t in, size_t i, char c, uintmax_t integer, bool ok, bool negative){
    return i < in.len && c == in.data[i] && gh.pos == i && !gh.bad && !gh.big && gh.val == integer && !ok
        && negative == (in.data[0] == '-');
}
static void gh_number_char(char c){
    int d = spec_digit((unsigned char)c, gh_base);
    if(d < 0){ gh.bad = true; return; }
    unsigned __int128 v = (unsigned __int128)gh.val * (unsigned)gh_base + (unsigned)d;
    if(v > UINT64_MAX) gh.big = true;
    gh.val = (uint64_t)v;
    gh.pos++;
}
#endif
#include "libdstr/cvt.c"

#ifdef SM_PROOF
typedef __int128 i128;
static void check(derr_type_t t, i128 out, int base, bool is_signed, i128 lo, i128 hi){
    size_t n = gh_in.len;
    bool sign = n > 0 && (gh_in.data[0] == '-' || gh_in.data[0] == '+');
    bool neg = n > 0 && gh_in.data[0] == '-';
    SM_ASSERT(t == E_NONE || t == E_PARAM, "refusal is reported as a parameter error");
    if(n <= (size_t)sign){
        SM_ASSERT(t != E_NONE, "no digits: refused");
        return;
    }
    if(t == E_NONE){
        SM_COVER("accepted");
        SM_ASSERT(!gh.bad && !gh.big && gh.pos == n, "accepted only if every char is a digit");
        i128 v = neg ? -(i128)gh.val : (i128)gh.val;
        SM_ASSERT(v >= lo && v <= hi, "accepted only if the value fits the type");
        SM_ASSERT(out == v, "the value is exact");
        SM_ASSERT(!neg || is_signed, "unsigned types take no minus sign");
    }else{
        SM_ASSERT(out == 0, "output is zero after a refusal");
        if(gh.bad || gh.big) return;
        SM_ASSERT(gh.pos == n, "refused only after reading everything");
        i128 v = neg ? -(i128)gh.val : (i128)gh.val;
        SM_ASSERT(v < lo || v > hi || (neg && !is_signed) || (neg && v == 0), "every representable number is accepted");
        SM_COVER("out of range");
    }
}
static void setup(int base){
    gh_in = sm_dstr_in(sm_len(0));
    gh_base = base;
    size_t start = gh_in.len > 0 && (gh_in.data[0] == '-' || gh_in.data[0] == '+');
    gh.pos = start; gh.val = 0; gh.bad = false; gh.big = false;
}
#define ENTRY(name, fn, type, base, sgn, lo, hi) \
    SM_HARNESS(name){ setup(base); type out = 1; derr_type_t t = fn(gh_in, &out, base); check(t, (i128)out, base, sgn, (i128)(lo), (i128)(hi)); }
ENTRY(p_u10, dstr_tou_quiet, unsigned, 10, false, 0, UINT_MAX)
ENTRY(p_ul10, dstr_toul_quiet, unsigned long, 10, false, 0, ULONG_MAX)
ENTRY(p_size10, dstr_tosize_quiet, size_t, 10, false, 0, SIZE_MAX)
ENTRY(p_ull10, dstr_toull_quiet, unsigned long long, 10, false, 0, ULLONG_MAX)
ENTRY(p_u6410, dstr_tou64_quiet, uint64_t, 10, false, 0, UINT64_MAX)
ENTRY(p_umax8, dstr_toumax_quiet, uintmax_t, 8, false, 0, UINTMAX_MAX)
ENTRY(p_umax10, dstr_toumax_quiet, uintmax_t, 10, false, 0, UINTMAX_MAX)
ENTRY(p_umax16, dstr_toumax_quiet, uintmax_t, 16, false, 0, UINTMAX_MAX)
ENTRY(p_u16, dstr_tou_quiet, unsigned, 16, false, 0, UINT_MAX)
ENTRY(p_i10, dstr_toi_quiet, int, 10, true, INT_MIN, INT_MAX)
ENTRY(p_l10, dstr_tol_quiet, long, 10, true, LONG_MIN, LONG_MAX)
ENTRY(p_ll10, dstr_toll_quiet, long long, 10, true, LLONG_MIN, LLONG_MAX)
ENTRY(p_i6410, dstr_toi64_quiet, int64_t, 10, true, INT64_MIN, INT64_MAX)
ENTRY(p_imax10, dstr_toimax_quiet, intmax_t, 10, true, INTMAX_MIN, INTMAX_MAX)
ENTRY(p_imax16, dstr_toimax_quiet, intmax_t, 16, true, INTMAX_MIN, INTMAX_MAX)
// any other base is refused
SM_HARNESS(p_badbase){
    gh_in = sm_dstr_in(sm_len(0));
    int base = (int)sm_u32();
    SM_ASSUME(base != 8 && base != 10 && base != 16);
    uintmax_t out;
    SM_ASSERT(dstr_toumax_quiet(gh_in, &out, base) == E_PARAM, "unsupported base refused");
    SM_COVER("badbase");
}
#else
// search: independent evaluation in 128 bits
typedef __int128 i128;
static bool spec_number(dstr_t in, int base, i128 *out, bool *neg){
    size_t i = 0;
    *neg = false;
    if(in.len && (in.data[0] == '-' || in.data[0] == '+')){ *neg = in.data[0] == '-'; i++; }
    if(i == in.len) return false;
    i128 v = 0;
    for(; i < in.len; i++){
        int d = spec_digit((unsigned char)in.data[i], base);
        if(d < 0) return false;
        v = v * base + d;
        if(v > ((i128)1 << 70)) v = (i128)1 << 70;
    }
    *out = *neg ? -v : v;
    return true;
}
#define TRY(fn, type, sgn, lo, hi) { \
    type out = 1; \
    derr_type_t t = fn(in, &out, base); \
    bool want = ok && v >= (i128)(lo) && v <= (i128)(hi) && (sgn || !neg); \
    if(!(neg && v == 0)){ \
        SM_ASSERT((t == E_NONE) == want, #fn ": accepted iff representable"); \
        if(want) SM_ASSERT((i128)out == v, #fn ": exact value"); \
    } \
    if(t != E_NONE) SM_ASSERT(out == 0 && t == E_PARAM, #fn ": refusal"); \
}
#ifdef SM_CBMC
SM_DEFINE_ERRORS
#endif
SM_HARNESS(s_cvt){
    int base = (int[]){8, 10, 16}[sm_range(0, 2)];
    size_t n = sm_len(24);
    dstr_t in = sm_dstr_in(n);
    // all digits but for one arbitrary byte, or all arbitrary
    bool raw = sm_range(0, 15) == 15;
    size_t odd = sm_range(0, 47);
    char oddc = (char)sm_u8();
    for(size_t i = 0; i < n && !raw; i++){
        unsigned char c = (unsigned char)in.data[i];
        in.data[i] = i == odd ? oddc : "0123456789abcdefABCDEF"[c % (unsigned)(base == 16 ? 22 : base)];
    }
    unsigned k = (unsigned)sm_range(0, 2);
    if(k && n) in.data[0] = k == 1 ? '-' : '+';
    i128 v = 0; bool neg;
    bool ok = spec_number(in, base, &v, &neg);
    TRY(dstr_tou_quiet, unsigned, false, 0, UINT_MAX)
    TRY(dstr_toul_quiet, unsigned long, false, 0, ULONG_MAX)
    TRY(dstr_tosize_quiet, size_t, false, 0, SIZE_MAX)
    TRY(dstr_toull_quiet, unsigned long long, false, 0, ULLONG_MAX)
    TRY(dstr_tou64_quiet, uint64_t, false, 0, UINT64_MAX)
    TRY(dstr_toumax_quiet, uintmax_t, false, 0, UINTMAX_MAX)
    TRY(dstr_toi_quiet, int, true, INT_MIN, INT_MAX)
    TRY(dstr_tol_quiet, long, true, LONG_MIN, LONG_MAX)
    TRY(dstr_toll_quiet, long long, true, LLONG_MIN, LLONG_MAX)
    TRY(dstr_toi64_quiet, int64_t, true, INT64_MIN, INT64_MAX)
    TRY(dstr_toimax_quiet, intmax_t, true, INTMAX_MIN, INTMAX_MAX)
}
// around the limits of every type
SM_HARNESS(s_cvt_edge){
    static const char *const edges[] = {
        "4294967295", "4294967296", "2147483647", "2147483648", "2147483649",
        "9223372036854775807", "9223372036854775808", "9223372036854775809",
        "18446744073709551615", "18446744073709551616", "18446744073709551620", "184467440737095516150",
        "ffffffff", "100000000", "7fffffff", "80000000", "80000001", "ffffffffffffffff", "10000000000000000",
        "37777777777", "40000000000", "1777777777777777777777", "2000000000000000000000",
    };
    char buf[40];
    unsigned k = (unsigned)sm_range(0, 2), e = (unsigned)sm_range(0, sizeof(edges)/sizeof(*edges) - 1), z = (unsigned)sm_range(0, 3);
    int base = (int[]){8, 10, 16}[sm_range(0, 2)];
    size_t n = 0;
    if(k) buf[n++] = k == 1 ? '-' : '+';
    while(z--) buf[n++] = '0';
    for(const char *p = edges[e]; *p; p++) buf[n++] = *p;
    int tweak = (int)sm_range(0, 3);
    if(tweak == 1 && buf[n-1] > '0' && buf[n-1] <= '9') buf[n-1]--;
    if(tweak == 2 && buf[n-1] >= '0' && buf[n-1] < '9') buf[n-1]++;
    dstr_t in = { .data = buf, .len = n, .size = n, .fixed_size = true };
    i128 v = 0; bool neg;
    bool ok = spec_number(in, base, &v, &neg);
    TRY(dstr_tou_quiet, unsigned, false, 0, UINT_MAX)
    TRY(dstr_toul_quiet, unsigned long, false, 0, ULONG_MAX)
    TRY(dstr_tosize_quiet, size_t, false, 0, SIZE_MAX)
    TRY(dstr_toull_quiet, unsigned long long, false, 0, ULLONG_MAX)
    TRY(dstr_tou64_quiet, uint64_t, false, 0, UINT64_MAX)
    TRY(dstr_toumax_quiet, uintmax_t, false, 0, UINTMAX_MAX)
    TRY(dstr_toi_quiet, int, true, INT_MIN, INT_MAX)
    TRY(dstr_tol_quiet, long, true, LONG_MIN, LONG_MAX)
    TRY(dstr_toll_quiet, long long, true, LLONG_MIN, LLONG_MAX)
    TRY(dstr_toi64_quiet, int64_t, true, INT64_MIN, INT64_MAX)
    TRY(dstr_toimax_quiet, intmax_t, true, INTMAX_MIN, INTMAX_MAX)
}
#endif
