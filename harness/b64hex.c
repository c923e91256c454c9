/* base64 (RFC 4648 section 4, in lines, in pieces) and hex: libdstr/common.c */
#include "sm.h"

/* ---- the specification, on groups of 3 bytes / 4 chars */
static char spec_char(unsigned v){
    if(v < 26) return (char)('A' + v);
    if(v < 52) return (char)('a' + (v - 26));
    if(v < 62) return (char)('0' + (v - 52));
    return v == 62 ? '+' : '/';
}
// 0..63; 64 is the pad; -1: not in the alphabet
static int spec_val(unsigned char c){
    if(c >= 'A' && c <= 'Z') return c - 'A';
    if(c >= 'a' && c <= 'z') return c - 'a' + 26;
    if(c >= '0' && c <= '9') return c - '0' + 52;
    if(c == '+') return 62;
    if(c == '/') return 63;
    if(c == '=') return 64;
    return -1;
}
// the r'th char of the encoding of k bytes (1..3), which are zero beyond k
static char spec_enc(unsigned b0, unsigned b1, unsigned b2, unsigned k, unsigned r){
    if(r > k) return '=';
    unsigned v = (b0 << 16) | (b1 << 8) | b2;
    return spec_char((v >> (18 - 6*r)) & 63);
}
static unsigned spec_byte(const unsigned *q, unsigned r){
    unsigned v = ((q[0] & 63) << 18) | ((q[1] & 63) << 12) | ((q[2] & 63) << 6) | (q[3] & 63);
    return (v >> (16 - 8*r)) & 255;
}
// number of bytes of a group, or -1 if the pads are misplaced
static int spec_quad(const unsigned *q){
    if(q[0] == 64 || q[1] == 64) return -1;
    if(q[2] == 64) return q[3] == 64 ? 1 : -1;
    return q[3] == 64 ? 2 : 3;
}
static int spec_hex(unsigned char c){
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    if(c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static bool spec_space(unsigned char c){ return c == ' ' || (c >= 9 && c <= 13); }
static char spec_nib(unsigned v){ return (char)(v < 10 ? '0' + v : 'a' + (v - 10)); }

#ifdef SM_PROOF
static dstr_t gh_in;
static size_t gh_lw, gh_end;       // line width, bytes to be encoded
static bool gh_oom;
static struct {
    size_t g;      // 3-byte groups encoded
    size_t lines;  // whole lines
    size_t col;    // input bytes in the present line
    bool nl;       // a line break is due
} e64;
static struct {
    unsigned q[4], n;   // the present group
    int due;            // bytes of the group just completed, not yet delivered
    unsigned want[3];
    size_t last;        // end of the last whole group
    bool bad;           // misplaced pad: the outcome is left open
    bool done;          // pads seen: the end
} d64;
static struct { bool have, due; unsigned hi, want; } hx;
static size_t gh_hexed;
static unsigned in_at(size_t i){ return i < gh_in.len ? ((unsigned char*)gh_in.data)[i] : 0; }

/* encoding: groups 0..g-1 are written, the bytes since are in ch */
static bool gh_bin2b64(size_t i, const unsigned char *ch, size_t k){
    if(gh_oom || e64.nl || e64.g > SM_HUGE) return false;
    size_t q = 3*e64.g;
    if(q > i || i - q != k || k > 2) return false;
    if(gh_lw){
        size_t c = gh_lw/4*3;
        if(e64.lines > SM_HUGE || e64.col >= c || e64.col % 3 || q != e64.lines*c + e64.col) return false;
    }
    return ch[0] == (k > 0 ? in_at(q) : 0) && ch[1] == (k > 1 ? in_at(q+1) : 0) && ch[2] == 0;
}
/* decoding: one char of the specification */
static void gh_b642bin_step(size_t i){
    int v = spec_val((unsigned char)in_at(i));
    if(v < 0) return;
    d64.q[d64.n++] = (unsigned)v;
    if(d64.n < 4) return;
    d64.n = 0;
    d64.last = i + 1;
    d64.due = spec_quad(d64.q);
    if(d64.due < 0) d64.bad = true;
    else for(unsigned r = 0; r < 3; r++) d64.want[r] = spec_byte(d64.q, r);
    if(d64.due < 3) d64.done = true;
}
static bool gh_b642bin(size_t i, const unsigned char *ch, int n, int skip, size_t total){
    if(n < 0 || n > 3 || skip < 0 || skip > n || total > i) return false;
    if(d64.n != (unsigned)n || d64.due || d64.done || d64.bad || gh_oom || d64.last != total) return false;
    int pads = 0;
    for(int k = 0; k < 3; k++) if(k < n){
        if(d64.q[k] > 64) return false;
        if(d64.q[k] == 64) pads++;
        else if(ch[k] != d64.q[k]) return false;
    }
    for(int k = 0; k < 4; k++) if(ch[k] > 63) return false;
    return pads == skip;
}
static void sm_hv_text(unsigned char *byte){
    SM_MOD(e64) SM_MOD(d64) SM_MODB(e64.nl) SM_MODB(d64.bad) SM_MODB(d64.done)
    SM_MOD(hx) SM_MODB(hx.have) SM_MODB(hx.due) SM_MODB(gh_oom) SM_MOD(gh_hexed)
    if(byte) *byte = sm_u8();
}
static bool gh_bin2hex(size_t i){ return gh_hexed == i && !gh_oom; }
static void gh_hex2bin_step(size_t i){
    int v = spec_hex((unsigned char)in_at(i));
    if(v < 0) return;
    if(!hx.have){ hx.have = true; hx.hi = (unsigned)v; }
    else{ hx.have = false; hx.due = true; hx.want = hx.hi*16 + (unsigned)v; }
}
static bool gh_ok_sofar(size_t i){
    return spec_hex((unsigned char)in_at(i)) >= 0 || spec_space((unsigned char)in_at(i));
}
static size_t gh_badidx; // index of a char that is neither, if any
static bool gh_valid;   // precondition: every char is a digit or white space
static bool gh_hex2bin(size_t i, int shift, unsigned char byte){
    if(gh_valid) SM_ASSUME(gh_ok_sofar(i));
    if(i > gh_badidx || gh_oom || hx.due || hx.hi > 15 || (shift != 0 && shift != 1)) return false;
    return hx.have ? shift == 1 && byte == hx.hi*16 : shift == 0 && byte == 0;
}
static int sm_isspace(int c){
    SM_ASSERT(c >= -1 && c <= 255, "isspace is given an unsigned char");
    return spec_space((unsigned char)c) && c >= 0;
}
static int sm_snprintf(char *d, size_t n, const char *f, unsigned v){
    SM_ASSERT(f[0] == '%' && f[1] == '.' && f[2] == '2' && f[3] == 'x' && f[4] == 0, "the format is two hex digits");
    SM_ASSERT(v < 256, "two digits suffice");
    SM_ASSERT(n >= 3, "there is room for two digits and the NUL");
    d[0] = spec_nib(v >> 4); d[1] = spec_nib(v & 15); d[2] = 0;
    return 2;
}
#undef isspace
#include <ctype.h>
#undef isspace
#define isspace sm_isspace
#define snprintf sm_snprintf
#endif
#ifndef SM_NATIVE
#include "libdstr/common.c"
#endif
#ifdef SM_PROOF
#undef snprintf
static dstr_t *gh_out;
static derr_type_t oom(void){ gh_oom = true; return sm_bool() ? E_NOMEM : E_FIXEDSIZE; }
/* contracts of the append (proved under C01), the bytes observed */
static unsigned gh_mode;   // 0 encode, 1 decode, 2 bin2hex, 3 hex2bin
static derr_type_t observe(dstr_t *out, const dstr_t *t){
    SM_ASSERT(out == gh_out, "appends to the output");
    if(sm_bool()) return oom();
    const unsigned char *d = (unsigned char*)t->data;
    switch(gh_mode){
    case 0:
        if(e64.nl){
            SM_ASSERT(t->len == 1 && d[0] == '\n', "a line break ends each line");
            e64.nl = false;
            break;
        }
        size_t q = 3*e64.g;
        SM_ASSERT(q < gh_end, "nothing beyond the encoding");
        unsigned k = gh_in.len - q < 3 ? (unsigned)(gh_in.len - q) : 3;
        SM_ASSERT(t->len == 4, "groups of four chars");
        unsigned b0 = in_at(q), b1 = in_at(q+1), b2 = in_at(q+2);
        for(unsigned r = 0; r < 4; r++) SM_ASSERT((char)d[r] == spec_enc(b0, b1, b2, k, r), "the chars are those RFC 4648 assigns");
        e64.g++;
        if(gh_lw){
            e64.col += 3;
            if(e64.col == gh_lw/4*3){ e64.col = 0; e64.lines++; e64.nl = true; }
            else if(gh_in.len - q <= 3) e64.nl = true;
        }
        break;
    case 1:
        if(d64.bad) return E_NONE;
        SM_ASSERT(d64.due > 0 && t->len == (size_t)d64.due, "as many bytes as the group encodes");
        for(int r = 0; r < 3; r++) if(r < d64.due) SM_ASSERT(d[r] == d64.want[r], "the bytes are those RFC 4648 assigns");
        d64.due = 0;
        break;
    case 2:
        SM_ASSERT(t->len == 2, "two digits for each byte");
        SM_ASSERT((char)d[0] == spec_nib(in_at(gh_hexed) >> 4) && (char)d[1] == spec_nib(in_at(gh_hexed) & 15), "the digits are those of the byte");
        gh_hexed++;
        break;
    case 3:
        SM_ASSERT(hx.due && t->len == 1 && d[0] == hx.want, "the byte is the one its two digits say");
        hx.due = false;
        break;
    }
    return E_NONE;
}
derr_type_t c_dstr_append_quiet(dstr_t *out, const dstr_t *t){ return observe(out, t); }
derr_t c_dstr_append(dstr_t *out, const dstr_t *t){ derr_t e = E_OK; e.type = observe(out, t); return e; }
static size_t gh_shift; static dstr_t *gh_shifted; static bool gh_did_shift;
void c_dstr_leftshift(dstr_t *d, size_t n){
    SM_ASSERT(!gh_did_shift, "input is consumed once");
    gh_did_shift = true; gh_shifted = d; gh_shift = n;
}
static bool alloc_fail(derr_type_t t){ return t == E_NOMEM || t == E_FIXEDSIZE; }
static dstr_t gh_outd;
static void begin(unsigned mode){
    gh_in = sm_dstr_in(sm_len(0));
    gh_mode = mode; gh_oom = false; gh_out = &gh_outd; gh_did_shift = false;
    gh_lw = 0; gh_end = gh_in.len; gh_valid = false; gh_badidx = SIZE_MAX;
    e64.g = 0; e64.lines = 0; e64.col = 0; e64.nl = false;
    d64.n = 0; d64.due = 0; d64.last = 0; d64.bad = false; d64.done = false;
    hx.have = false; hx.due = false; hx.hi = 0; gh_hexed = 0;
}
static void encoded(void){
    SM_ASSERT(!gh_oom, "a failure to append is reported");
    SM_ASSERT(!e64.nl, "the last line is ended");
    SM_ASSERT(3*e64.g >= gh_end && 3*e64.g - gh_end < 3, "the whole is encoded");
    SM_ASSERT(gh_end == gh_in.len || 3*e64.g == gh_end, "no pad before the end");
}
SM_HARNESS(p_b64_enc_all){
    begin(0);
    derr_t e = bin2b64(&gh_in, gh_out);
    if(e.type){ SM_ASSERT(gh_oom && alloc_fail(e.type), "encoding fails only if the output cannot grow"); return; }
    SM_COVER("encoded");
    encoded();
}
#define STREAM(name, force) SM_HARNESS(name){ \
    begin(0); gh_lw = 64; \
    if(!force) gh_end = gh_in.len - gh_in.len % 48; \
    derr_t e = bin2b64_stream(&gh_in, gh_out, 64, force); \
    if(e.type){ SM_ASSERT(gh_oom && alloc_fail(e.type), "encoding fails only if the output cannot grow"); return; } \
    SM_COVER("encoded"); \
    encoded(); \
    SM_ASSERT(gh_did_shift && gh_shifted == &gh_in && gh_shift == gh_end, "exactly what is encoded is consumed"); \
}
STREAM(p_b64_stream, false)
STREAM(p_b64_stream_end, true)
SM_HARNESS(p_b64_dec){
    begin(1);
    size_t consumed = 77; bool whole = sm_bool();
    derr_type_t t = b642bin_quiet(&gh_in, gh_out, whole ? NULL : &consumed);
    if(d64.bad) return;
    if(gh_oom){ SM_ASSERT(alloc_fail(t), "a failure to append is reported"); return; }
    SM_COVER("decoded");
    SM_ASSERT(d64.due == 0, "every whole group is decoded");
    bool complete = d64.n == 0 && d64.last == gh_in.len;
    if(whole) SM_ASSERT(t == (complete ? E_NONE : E_PARAM), "the whole must be groups, nothing after the last one");
    else SM_ASSERT(t == E_NONE && consumed == d64.last, "what is consumed is the whole groups");
    if(whole && complete && gh_in.len) SM_COVER("complete");
}
SM_HARNESS(p_b64_dec_all){
    begin(1);
    derr_t e = b642bin(&gh_in, gh_out);
    if(d64.bad) return;
    if(gh_oom){ SM_ASSERT(alloc_fail(e.type), "a failure to append is reported"); return; }
    bool complete = d64.n == 0 && d64.last == gh_in.len;
    SM_ASSERT(d64.due == 0 && e.type == (complete ? E_NONE : E_PARAM), "the whole must be groups, nothing after the last one");
    SM_COVER("decoded");
}
SM_HARNESS(p_b64_dec_stream){
    begin(1);
    derr_t e = b642bin_stream(&gh_in, gh_out);
    if(d64.bad) return;
    if(gh_oom){ SM_ASSERT(alloc_fail(e.type), "a failure to append is reported"); return; }
    SM_COVER("decoded");
    SM_ASSERT(d64.due == 0 && e.type == E_NONE, "every whole group is decoded");
    SM_ASSERT(gh_did_shift && gh_shifted == &gh_in && gh_shift == d64.last, "exactly the whole groups are consumed");
}
/* lemma: the two specifications are inverse on every group, and the encoder's
   groups have their pads where the decoder wants them; line breaks are not in
   the alphabet */
SM_HARNESS(p_b64_lemma){
    unsigned b[3] = { sm_u8(), sm_u8(), sm_u8() }, q[4];
    unsigned k = (unsigned)sm_range(1, 3);
    if(k < 3) b[2] = 0;
    if(k < 2) b[1] = 0;
    for(unsigned r = 0; r < 4; r++){
        int v = spec_val((unsigned char)spec_enc(b[0], b[1], b[2], k, r));
        SM_ASSERT(v >= 0, "the encoder emits the alphabet");
        q[r] = (unsigned)v;
    }
    SM_ASSERT(spec_quad(q) == (int)k, "the decoder sees as many bytes");
    for(unsigned r = 0; r < k; r++) SM_ASSERT(spec_byte(q, r) == b[r], "decoding undoes encoding");
    SM_ASSERT(spec_val('\n') < 0, "line breaks are skipped");
    SM_COVER("lemma");
}
/* the sizes announced are enough */
SM_HARNESS(p_b64_sizes){
    size_t n = sm_len(0);
    size_t a = bin2b64_output_len(n), b = b642bin_output_len(n);
    size_t g = sm_u64();
    SM_ASSUME(g <= SM_HUGE);
    if(3*g <= n && n - 3*g < 3) SM_ASSERT(a == 4*g + (n == 3*g ? 0 : 4), "size of the encoding");
    if(4*g <= n && n - 4*g < 4) SM_ASSERT(b == 3*g + (n == 4*g ? 0 : 3), "size of the decoding, at most");
    SM_COVER("sizes");
}
SM_HARNESS(p_hex_enc){
    begin(2);
    derr_t e = bin2hex(&gh_in, gh_out);
    if(e.type){ SM_ASSERT(gh_oom && alloc_fail(e.type), "encoding fails only if the output cannot grow"); return; }
    SM_COVER("hex");
    SM_ASSERT(!gh_oom && gh_hexed == gh_in.len, "every byte is written");
}
SM_HARNESS(p_hex_dec){
    begin(3);
    gh_valid = sm_bool();
    size_t w = sm_u64();
    derr_t e = hex2bin(&gh_in, gh_out);
    if(gh_oom){ SM_ASSERT(alloc_fail(e.type), "a failure to append is reported"); return; }
    if(e.type){
        SM_COVER("refused");
        SM_ASSERT(e.type == E_PARAM, "bad input is a parameter error");
        SM_ASSERT(!gh_valid || hx.have, "whole bytes of digits and white space are accepted");
        return;
    }
    SM_COVER("hex");
    SM_ASSERT(!hx.due && !hx.have, "every byte is read, and none is half");
    (void)w;
}
// every char is looked at: a char that is neither is refused
SM_HARNESS(p_hex_dec_bad){
    begin(3);
    size_t k = sm_u64();
    SM_ASSUME(k < gh_in.len && !gh_ok_sofar(k));
    gh_badidx = k;
    derr_t e = hex2bin(&gh_in, gh_out);
    SM_ASSERT(e.type != E_NONE, "any other char is refused");
    SM_COVER("refused");
}
SM_HARNESS(p_hex_nibbles){
    unsigned char u = sm_u8();
    SM_ASSERT(hex_high_nibble(u) == spec_nib(u >> 4) && hex_low_nibble(u) == spec_nib(u & 15), "nibbles");
    SM_COVER("nibbles");
}
#else
SM_HARNESS(s_b64){
    dstr_t in = sm_dstr_in(sm_len(140));
    unsigned char *d = (unsigned char*)in.data;
    size_t n = in.len;
    DSTR_VAR(enc, 1000); DSTR_VAR(exp, 1000); DSTR_VAR(dec, 1000); DSTR_VAR(src, 1000);
    unsigned mode = sm_u8() % 6;
    if(mode < 3){
        bool force = mode != 1; size_t lw = mode ? 64 : 0;
        size_t end = lw && !force ? n - n % 48 : n;
        for(size_t q = 0; q < end; q += 3){
            unsigned k = n - q < 3 ? (unsigned)(n - q) : 3;
            for(unsigned r = 0; r < 4; r++) exp.data[exp.len++] = spec_enc(d[q], k > 1 ? d[q+1] : 0, k > 2 ? d[q+2] : 0, k, r);
            if(lw && ((q + 3) % 48 == 0 || q + 3 >= n)) exp.data[exp.len++] = '\n';
        }
        dstr_append_quiet(&src, &in);
        size_t consumed = n;
        derr_t e = E_OK;
        if(mode == 0) e = bin2b64(&src, &enc);
        else if(sm_bool()){ e = bin2b64_stream(&src, &enc, lw, force); consumed = n - src.len; }
        else e.type = bin2b64_quiet(&src, &enc, lw, force, &consumed);
        SM_ASSERT(e.type == E_NONE && consumed == end, "encoded");
        SM_ASSERT(enc.len == exp.len && memcmp(enc.data, exp.data, exp.len) == 0, "the chars are those RFC 4648 assigns");
        SM_ASSERT(bin2b64_output_len(n) == (n + 2)/3*4, "size");
        // and back, in two pieces
        if(mode == 2 || mode == 0){
            size_t cut = sm_range(0, enc.len);
            dstr_t a = dstr_sub2(enc, 0, cut), b = dstr_sub2(enc, cut, enc.len);
            DSTR_VAR(st, 1000);
            dstr_append_quiet(&st, &a);
            e = b642bin_stream(&st, &dec); SM_ASSERT(e.type == E_NONE, "decoded");
            dstr_append_quiet(&st, &b);
            e = b642bin_stream(&st, &dec); SM_ASSERT(e.type == E_NONE, "decoded");
            SM_ASSERT(dec.len == n && (n == 0 || memcmp(dec.data, d, n) == 0), "decoding undoes encoding");
            if(mode == 0){
                dec.len = 0;
                e = b642bin(&enc, &dec);
                SM_ASSERT(e.type == E_NONE && dec.len == n && (n == 0 || memcmp(dec.data, d, n) == 0), "decoding undoes encoding");
            }
        }
    }else if(mode == 3){
        // arbitrary text, mostly in the alphabet
        static const char al[] = "AZaz09+/=Qw\n ";
        for(size_t i = 0; i < n; i++) if(d[i] & 0xf8) d[i] = (unsigned char)al[d[i] % (sizeof(al) - 1)];
        unsigned q[4], k = 0; size_t last = 0;
        for(size_t i = 0; i < n; i++){
            int v = spec_val(d[i]);
            if(v < 0) continue;
            q[k++] = (unsigned)v;
            if(k < 4) continue;
            k = 0; last = i + 1;
            int c = spec_quad(q);
            if(c < 0) return;
            for(int r = 0; r < c; r++) exp.data[exp.len++] = (char)spec_byte(q, (unsigned)r);
            if(c < 3) break;
        }
        size_t consumed;
        derr_type_t t = b642bin_quiet(&in, &dec, &consumed);
        SM_ASSERT(t == E_NONE && consumed == last, "consumed");
        SM_ASSERT(dec.len == exp.len && memcmp(dec.data, exp.data, exp.len) == 0, "the bytes are those RFC 4648 assigns");
        dec.len = 0;
        derr_t e = b642bin(&in, &dec);
        bool bad = e.type != E_NONE; DROP_VAR(&e);
        SM_ASSERT(bad == !(k == 0 && last == n), "the whole must be groups, nothing after the last one");
    }else if(mode == 4){
        derr_t e = bin2hex(&in, &enc);
        SM_ASSERT(e.type == E_NONE && enc.len == 2*n, "two digits for each byte");
        for(size_t i = 0; i < n; i++){
            SM_ASSERT(enc.data[2*i] == spec_nib(d[i] >> 4) && enc.data[2*i+1] == spec_nib(d[i] & 15), "the digits are those of the byte");
            SM_ASSERT(hex_high_nibble(d[i]) == spec_nib(d[i] >> 4) && hex_low_nibble(d[i]) == spec_nib(d[i] & 15), "nibbles");
        }
    }else{
        static const char al[] = "09afAF7c \n\t";
        for(size_t i = 0; i < n; i++) if(d[i] & 0xf0) d[i] = (unsigned char)al[d[i] % (sizeof(al) - 1)];
        bool ok = true, have = false; unsigned hi = 0;
        for(size_t i = 0; i < n; i++){
            int v = spec_hex(d[i]);
            if(v < 0){ if(!spec_space(d[i])) ok = false; continue; }
            if(have) exp.data[exp.len++] = (char)(hi*16 + (unsigned)v);
            else hi = (unsigned)v;
            have = !have;
        }
        derr_t e = hex2bin(&in, &dec);
        bool acc = e.type == E_NONE; DROP_VAR(&e);
        SM_ASSERT(acc == (ok && !have), "whole bytes of digits and white space are accepted, nothing else");
        if(acc) SM_ASSERT(dec.len == exp.len && memcmp(dec.data, exp.data, exp.len) == 0, "the byte is the one its two digits say");
    }
}
#endif
