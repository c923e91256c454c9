/* base64url (RFC 7515 / RFC 4648 section 5, unpadded): libacme/b64url.c */
#include "sm.h"

/* ---- the specification, written from the RFC, on 3-byte/4-char groups ---- */
static char spec_char(unsigned v){
    if(v < 26) return (char)('A' + v);
    if(v < 52) return (char)('a' + (v - 26));
    if(v < 62) return (char)('0' + (v - 52));
    return v == 62 ? '-' : '_';
}
// 0..63, or -1 if not in the alphabet
static int spec_val(unsigned char c){
    if(c >= 'A' && c <= 'Z') return c - 'A';
    if(c >= 'a' && c <= 'z') return c - 'a' + 26;
    if(c >= '0' && c <= '9') return c - '0' + 52;
    if(c == '-') return 62;
    if(c == '_') return 63;
    return -1;
}
// the r'th sextet of the group b0 b1 b2
static unsigned spec_sextet(unsigned b0, unsigned b1, unsigned b2, unsigned r){
    unsigned v = (b0 << 16) | (b1 << 8) | b2;
    return (v >> (18 - 6*r)) & 63;
}
// the r'th byte of the group of four sextets
static unsigned spec_byte(unsigned s0, unsigned s1, unsigned s2, unsigned s3, unsigned r){
    unsigned v = (s0 << 18) | (s1 << 12) | (s2 << 6) | s3;
    return (v >> (16 - 8*r)) & 255;
}

#ifdef SM_PROOF
SM_DEFINE_ERRORS
/* ghost state: how much output has been observed so far, as (q, r): q is the
   input offset at which the current group starts, r the number of output
   symbols of that group already seen */
struct {
    size_t q;
    size_t g;
    unsigned r;
    bool oom;
} gh;
static dstr_t gh_in;          // the input, constant
static bool gh_all_valid;     // precondition "every input char is in the alphabet"

static unsigned in_at(size_t i){
    return i < gh_in.len ? ((unsigned char*)gh_in.data)[i] : 0;
}
static unsigned val_at(size_t i){
    return i < gh_in.len ? (unsigned)spec_val(((unsigned char*)gh_in.data)[i]) & 63 : 0;
}
static bool gh_b64url_encoding(size_t i, unsigned char u){
    if(gh.oom) return false;
    if(gh.g > SM_HUGE || gh.q != 3*gh.g || gh.q > i || i - gh.q > 2) return false;
    if(gh.r != i - gh.q) return false;
    if(gh.r == 0) return u == 0;
    if(gh.r == 1) return u == ((in_at(gh.q) & 0x03) << 4);
    return u == ((in_at(gh.q + 1) & 0x0f) << 2);
}
static bool gh_b64url_decoding(size_t i, unsigned char l){
    // instantiate the precondition at the index about to be read
    if(gh_all_valid) SM_ASSUME(spec_val(in_at(i)) >= 0);
    if(gh.oom) return false;
    if(gh.q % 4 || gh.q > i || i - gh.q > 3) return false;
    unsigned k = (unsigned)(i - gh.q);
    if(gh.r != (k ? k - 1 : 0)) return false;
    // chars already accepted in this group are in the alphabet
    if(k > 0 && spec_val(in_at(gh.q)) < 0) return false;
    if(k > 1 && spec_val(in_at(gh.q + 1)) < 0) return false;
    if(k > 2 && spec_val(in_at(gh.q + 2)) < 0) return false;
    if(k == 0) return l == 0;
    if(k == 1) return l == ((val_at(gh.q) << 2) & 255);
    if(k == 2) return l == ((val_at(gh.q + 1) << 4) & 255);
    return l == ((val_at(gh.q + 2) << 6) & 255);
}

// contract of dstr_append_char, with the emitted byte observed
derr_type_t dstr_append_char(dstr_t *out, char c){
    (void)out;
    if(sm_bool()){ gh.oom = true; return sm_bool() ? E_NOMEM : E_FIXEDSIZE; }
    SM_ASSERT(
        (unsigned char)c == spec_byte(
            val_at(gh.q), val_at(gh.q+1),
            gh.r < 1 ? 0 : val_at(gh.q+2), gh.r < 2 ? 0 : val_at(gh.q+3), gh.r
        ),
        "decoded byte is the one RFC 4648 assigns"
    );
    gh.r++;
    if(gh.r == 3){ gh.r = 0; gh.q += 4; }
    return E_NONE;
}
#endif

#ifdef SM_CBMC
#include "libacme/b64url.h"
#define LIBACME_H
#include "libacme/b64url.c"
#else
#include "libacme/b64url.h"
#define LIBACME_H
#include "libacme/b64url.c"
#endif

#ifdef SM_PROOF
static derr_type_t obs_putc(writer_i *o, char c){
    (void)o;
    if(sm_bool()){ gh.oom = true; return E_NOMEM; }
    unsigned b0 = in_at(gh.q), b1 = in_at(gh.q+1), b2 = in_at(gh.q+2);
    // never more symbols than the input calls for
    SM_ASSERT(gh.q < gh_in.len, "no output beyond the encoding");
    SM_ASSERT(gh.r < 2 || gh.q + gh.r - 1 < gh_in.len, "no output beyond the encoding of the last group");
    SM_ASSERT(c == spec_char(spec_sextet(b0, b1, b2, gh.r)), "encoded char is the one RFC 4648 assigns");
    gh.r++;
    if(gh.r == 4){ gh.r = 0; gh.q += 3; gh.g++; }
    return E_NONE;
}
static derr_type_t obs_puts(writer_i *o, const char *s, size_t n){
    (void)o; (void)s; (void)n;
    SM_ASSERT(0, "encoder emits single chars");
    return E_NONE;
}

/* postcondition: the output is exactly the RFC 4648 encoding, or an error from
   the writer is passed on */
SM_HARNESS(p_encode){
    size_t n = sm_len(0);
    gh_in = sm_dstr_in(n);
    gh.q = 0; gh.g = 0; gh.r = 0; gh.oom = false;
    writer_t w = { .puts = obs_puts, .putc = obs_putc };
    writer_i out = { .w = &w };
    derr_type_t t = do_bin2b64url(gh_in, &out);
    SM_ASSERT((t != E_NONE) == gh.oom, "encoding fails only if the output cannot grow");
    if(t != E_NONE) return;
    SM_COVER("encode returns success");
    SM_ASSERT(gh.q <= n && n - gh.q < 3 && gh.q == 3*gh.g, "all whole groups are emitted");
    SM_ASSERT(gh.r == (n - gh.q ? n - gh.q + 1 : 0), "the last partial group is emitted without padding");
}

/* postcondition on acceptance: only alphabet chars, no dangling bits, bytes
   are exactly the decoding */
SM_HARNESS(p_decode){
    size_t n = sm_len(0);
    gh_in = sm_dstr_in(n);
    gh.q = 0; gh.g = 0; gh.r = 0; gh.oom = false; gh_all_valid = false;
    size_t w = sm_u64();   // arbitrary witness index
    dstr_t out = {0};
    derr_type_t t = b64url2bin_quiet(gh_in, &out);
    if(t != E_NONE) return;
    SM_COVER("decode returns success");
    SM_ASSERT(!gh.oom, "a failure to grow the output is reported");
    size_t k = n - gh.q;
    SM_ASSERT(gh.q <= n && k < 4 && gh.q % 4 == 0, "all whole groups are decoded");
    SM_ASSERT(k != 1, "no encoding has length 1 mod 4");
    SM_ASSERT(gh.r == (k ? k - 1 : 0), "the last partial group is decoded");
    SM_ASSERT(k != 2 || (val_at(gh.q+1) & 15) == 0, "dangling bits are rejected (two-char tail)");
    SM_ASSERT(k != 3 || (val_at(gh.q+2) & 3) == 0, "dangling bits are rejected (three-char tail)");
    (void)w;
}

/* acceptance is complete: every well-formed encoding is accepted */
SM_HARNESS(p_decode_complete){
    size_t n = sm_len(0);
    gh_in = sm_dstr_in(n);
    gh.q = 0; gh.g = 0; gh.r = 0; gh.oom = false; gh_all_valid = true;
    size_t tail = n % 4;
    SM_ASSUME(tail != 1);
    if(tail == 2) SM_ASSUME((val_at(n - 1) & 15) == 0);
    if(tail == 3) SM_ASSUME((val_at(n - 1) & 3) == 0);
    if(tail) SM_ASSUME(spec_val(in_at(n - 1)) >= 0);
    dstr_t out = {0};
    derr_type_t t = b64url2bin_quiet(gh_in, &out);
    SM_COVER("decode_complete returns");
    SM_ASSERT(t == E_NONE || gh.oom, "every well-formed base64url string is accepted");
}

/* the set of chars rejected: any char outside the alphabet fails the decode */
SM_HARNESS(p_decode_char){
    unsigned char c = sm_u8();
    SM_ASSERT((unb64urllut[c] == 255) == (spec_val(c) < 0), "decode table rejects exactly the non-alphabet bytes");
    if(spec_val(c) >= 0) SM_ASSERT(unb64urllut[c] == spec_val(c), "decode table value");
    SM_COVER("table");
}

/* lemma: the two specifications are inverse, so decode(encode(x)) == x */
SM_HARNESS(p_roundtrip_lemma){
    unsigned b[3] = { sm_u8(), sm_u8(), sm_u8() };
    unsigned k = (unsigned)sm_range(1, 3);
    if(k < 3) b[2] = 0;
    if(k < 2) b[1] = 0;
    unsigned s[4];
    for(unsigned r = 0; r < 4; r++){
        s[r] = 0;
        if(r < k + 1){
            char c = spec_char(spec_sextet(b[0], b[1], b[2], r));
            SM_ASSERT(spec_val((unsigned char)c) >= 0, "encoder emits alphabet chars");
            s[r] = (unsigned)spec_val((unsigned char)c);
        }
    }
    if(k == 1) SM_ASSERT((s[1] & 15) == 0, "no dangling bits (1 byte)");
    if(k == 2) SM_ASSERT((s[2] & 3) == 0, "no dangling bits (2 bytes)");
    for(unsigned r = 0; r < k; r++)
        SM_ASSERT(spec_byte(s[0], s[1], s[2], s[3], r) == b[r], "decode(encode(x)) == x on a group");
    SM_COVER("roundtrip lemma");
}
#else

/* search / bounded stand-in: the same statement end to end on the real code */
#ifdef SM_CBMC
#include "libdstr/common.c"
#endif
SM_HARNESS(s_b64url){
    size_t n = sm_len(7);
    dstr_t bin = sm_dstr_in(n);
    DSTR_VAR(enc, 32); DSTR_VAR(dec, 32);
    if(sm_bool()){
        SM_ASSERT(bin2b64url_quiet(bin, &enc) == E_NONE, "encode ok");
        SM_ASSERT(enc.len == n/3*4 + (n%3 ? n%3 + 1 : 0), "encoded length");
        unsigned char *d = (unsigned char*)bin.data;
        for(size_t i = 0; i < enc.len; i++){
            size_t g = i/4*3;
            unsigned s = spec_sextet(d[g], g+1 < n ? d[g+1] : 0, g+2 < n ? d[g+2] : 0, (unsigned)(i%4));
            SM_ASSERT(enc.data[i] == spec_char(s), "encoded char");
        }
        SM_ASSERT(b64url2bin_quiet(enc, &dec) == E_NONE, "decode ok");
        SM_ASSERT(dec.len == n, "roundtrip length");
        for(size_t i = 0; i < n; i++) SM_ASSERT(dec.data[i] == bin.data[i], "roundtrip byte");
    }else{
        derr_type_t t = b64url2bin_quiet(bin, &dec);
        bool ok = n % 4 != 1;
        for(size_t i = 0; i < n; i++) if(spec_val((unsigned char)bin.data[i]) < 0) ok = false;
        if(ok && n % 4 == 2 && (spec_val((unsigned char)bin.data[n-1]) & 15)) ok = false;
        if(ok && n % 4 == 3 && (spec_val((unsigned char)bin.data[n-1]) & 3)) ok = false;
        SM_ASSERT((t == E_NONE) == ok, "decode accepts exactly the well-formed strings");
        if(!ok) return;
        SM_ASSERT(bin2b64url_quiet(dec, &enc) == E_NONE, "re-encode ok");
        SM_ASSERT(enc.len == n, "re-encode length");
        for(size_t i = 0; i < n; i++) SM_ASSERT(enc.data[i] == bin.data[i], "re-encode byte");
    }
}
#endif
