/* UTF-8 and UTF-16: libdstr/unicode.c */
#include "sm.h"

/* ------------------------- specification (RFC 3629 section 4, RFC 2781) */
typedef struct { int n; uint32_t cp; } dec_t;    // n: bytes used; 0 incomplete; -1 malformed
static bool cont(unsigned b){ return b >= 0x80 && b <= 0xBF; }
// the char starting with bytes b[0..avail), avail capped at 4
static dec_t spec_utf8(const uint8_t b[4], size_t avail){
    dec_t bad = { -1, 0 }, more = { 0, 0 };
    if(!avail) return more;
    unsigned b0 = b[0];
    if(b0 <= 0x7F) return (dec_t){ 1, b0 };
    if(b0 < 0xC2 || b0 > 0xF4) return bad;
    unsigned lo = b0 == 0xE0 ? 0xA0 : b0 == 0xF0 ? 0x90 : 0x80;
    unsigned hi = b0 == 0xED ? 0x9F : b0 == 0xF4 ? 0x8F : 0xBF;
    if(avail < 2) return more;
    if(b[1] < lo || b[1] > hi) return bad;
    if(b0 < 0xE0) return (dec_t){ 2, ((b0 & 0x1Fu) << 6) | (b[1] & 0x3Fu) };
    if(avail < 3) return more;
    if(!cont(b[2])) return bad;
    if(b0 < 0xF0) return (dec_t){ 3, ((b0 & 0x0Fu) << 12) | ((b[1] & 0x3Fu) << 6) | (b[2] & 0x3Fu) };
    if(avail < 4) return more;
    if(!cont(b[3])) return bad;
    return (dec_t){ 4, ((b0 & 0x07u) << 18) | ((b[1] & 0x3Fu) << 12) | ((b[2] & 0x3Fu) << 6) | (b[3] & 0x3Fu) };
}
static bool scalar(uint32_t cp){ return cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF); }
static size_t spec_utf8_enc(uint32_t cp, uint8_t out[4]){
    if(cp < 0x80){ out[0] = (uint8_t)cp; return 1; }
    if(cp < 0x800){ out[0] = (uint8_t)(0xC0 + cp / 64); out[1] = (uint8_t)(0x80 + cp % 64); return 2; }
    if(cp < 0x10000){
        out[0] = (uint8_t)(0xE0 + cp / 4096); out[1] = (uint8_t)(0x80 + cp / 64 % 64); out[2] = (uint8_t)(0x80 + cp % 64);
        return 3;
    }
    out[0] = (uint8_t)(0xF0 + cp / 262144); out[1] = (uint8_t)(0x80 + cp / 4096 % 64);
    out[2] = (uint8_t)(0x80 + cp / 64 % 64); out[3] = (uint8_t)(0x80 + cp % 64);
    return 4;
}
// the char starting with bytes b[0..avail), avail capped at 4
static dec_t spec_utf16(const uint8_t b[4], size_t avail, bool be){
    dec_t bad = { -1, 0 }, more = { 0, 0 };
    if(avail < 2) return more;
    uint32_t w1 = be ? b[0] * 256u + b[1] : b[1] * 256u + b[0];
    if(w1 < 0xD800 || w1 > 0xDFFF) return (dec_t){ 2, w1 };
    if(w1 > 0xDBFF) return bad;
    if(avail < 4) return more;
    uint32_t w2 = be ? b[2] * 256u + b[3] : b[3] * 256u + b[2];
    if(w2 < 0xDC00 || w2 > 0xDFFF) return bad;
    return (dec_t){ 4, 0x10000 + (w1 - 0xD800) * 0x400 + (w2 - 0xDC00) };
}

#ifdef SM_PROOF
SM_DEFINE_ERRORS
/* The input is seen as a virtual string: k bytes which an earlier call already
   consumed (an unfinished char), then the n bytes of this call.  gh.pos is the
   virtual index of the first byte not yet delivered as a code point. */
struct { size_t pos; bool refused; } gh;
static uint8_t gh_pre[3];
static size_t gh_k;
static const uint8_t *gh_in;
static size_t gh_n;
static bool gh_be;
static size_t gh_start;     // 16 only: bytes of BOM in this input

static uint8_t at(size_t j){
    if(j < gh_k) return gh_pre[j];
    return j - gh_k < gh_n ? gh_in[j - gh_k] : 0;
}
static dec_t next8(void){
    uint8_t b[4] = { at(gh.pos), at(gh.pos+1), at(gh.pos+2), at(gh.pos+3) };
    size_t left = gh_k + gh_n - gh.pos;
    return spec_utf8(b, left > 4 ? 4 : left);
}
static dec_t next16(void){
    uint8_t b[4] = { at(gh.pos), at(gh.pos+1), at(gh.pos+2), at(gh.pos+3) };
    size_t left = gh_k + gh_n - gh.pos;
    return spec_utf16(b, left > 4 ? 4 : left, gh_be);
}
static bool gh_utf8_at(size_t i, size_t len){
    return len == gh_n && i <= len && gh.pos == gh_k + i && !gh.refused;
}
static bool gh_utf16_at(size_t i, size_t len, uint8_t state, uint8_t u1, uint8_t u2, uint8_t u3, uint16_t u12){
    if(gh.refused || len != gh_n || state > 3) return false;
    if(gh.pos > gh_k + i || gh_k + i - gh.pos != state) return false;
    if(state >= 1 && u1 != at(gh.pos)) return false;
    if(state >= 2){
        if(u2 != at(gh.pos + 1)) return false;
        uint32_t w = gh_be ? u1 * 256u + u2 : u2 * 256u + u1;
        if(u12 != w || w < 0xD800 || w > 0xDBFF) return false;
    }
    if(state >= 3 && u3 != at(gh.pos + 2)) return false;
    return true;
}
#endif
#include "libdstr/unicode.c"

#ifdef SM_PROOF
static derr_type_t obs8(uint32_t cp, void *data){
    (void)data;
    if(sm_bool()){ gh.refused = true; return E_FIXEDSIZE; }
    SM_ASSERT(gh.pos < gh_k + gh_n, "no code point beyond the input");
    dec_t d = next8();
    SM_ASSERT(d.n > 0, "a code point is delivered only for a well-formed sequence");
    SM_ASSERT(d.cp == cp, "the code point is the one RFC 3629 assigns");
    gh.pos += d.n > 0 ? (size_t)d.n : 0;
    return E_NONE;
}
static derr_type_t obs16(uint32_t cp, void *data){
    (void)data;
    if(sm_bool()){ gh.refused = true; return E_FIXEDSIZE; }
    SM_ASSERT(gh.pos < gh_k + gh_n, "no code point beyond the input");
    dec_t d = next16();
    SM_ASSERT(d.n > 0, "a code point is delivered only for a well-formed sequence");
    SM_ASSERT(d.cp == cp, "the code point is the one RFC 2781 assigns");
    gh.pos += d.n > 0 ? (size_t)d.n : 0;
    return E_NONE;
}
/* the state which the decoder keeps for an unfinished char, as a function of
   the bytes of it that were read */
static void state8(size_t k, const uint8_t *b, uint32_t *cp, size_t *tail){
    *cp = 0; *tail = 0;
    if(!k) return;
    size_t need = b[0] < 0xE0 ? 2 : b[0] < 0xF0 ? 3 : 4;
    *tail = need - k;
    *cp = b[0] & (need == 2 ? 0x1Fu : 0x0Fu);
    if(k > 1) *cp = *cp << 6 | (b[1] & 0x3Fu);
    if(k > 2) *cp = *cp << 6 | (b[2] & 0x3Fu);
}
// lead byte and continuation bytes are right so far, though no completion may exist
static bool unfinished8(const uint8_t b[4], size_t k){
    if(k < 1 || k > 3) return false;
    if(b[0] < 0xC2 || b[0] > 0xF7) return false;
    size_t need = b[0] < 0xE0 ? 2 : b[0] < 0xF0 ? 3 : 4;
    if(k >= need) return false;
    if(k > 1 && (!cont(b[1]) || (b[0] == 0xE0 && b[1] < 0xA0) || (b[0] == 0xF0 && b[1] < 0x90))) return false;
    if(k > 2 && !cont(b[2])) return false;
    return true;
}
static void setup_in(void){
    gh_n = sm_len(0);
    gh_in = (const uint8_t*)sm_buf(gh_n);
    gh.pos = 0;
    gh.refused = false;
}
/* decoding a piece of a string, resumed from any reachable state */
static void utf8_stream(size_t k){
    setup_in();
    gh_k = k;
    for(size_t i = 0; i < 3; i++) gh_pre[i] = sm_u8();
    uint8_t b[4] = { gh_pre[0], gh_pre[1], gh_pre[2], 0 };
    if(gh_k) SM_ASSUME(unfinished8(b, gh_k));
    uint32_t cp; size_t tail;
    state8(gh_k, gh_pre, &cp, &tail);
    derr_type_t t = utf8_decode_stream((const char*)gh_in, gh_n, obs8, NULL, &cp, &tail);
    if(gh.refused){
        SM_ASSERT(t == E_FIXEDSIZE, "an error of the consumer is passed on");
        return;
    }
    uint8_t p[4] = { at(gh.pos), at(gh.pos+1), at(gh.pos+2), at(gh.pos+3) };
    size_t left = gh_k + gh_n - gh.pos;
    if(t == E_NONE){
        SM_COVER("accepted");
        SM_ASSERT(left < 4, "only an unfinished char is left over");
        uint32_t cp2; size_t tail2;
        if(left){
            SM_ASSERT(unfinished8(p, left), "what is left over is an unfinished char");
            state8(left, p, &cp2, &tail2);
            SM_ASSERT(cp == cp2 && tail == tail2, "the saved state is that of the unfinished char");
        }else SM_ASSERT(tail == 0, "no state is left after a whole char");
    }else{
        SM_COVER("refused");
        SM_ASSERT(t == E_PARAM, "malformed input is a parameter error");
        dec_t d = next8();
        // d.n == 0 with the whole rest read would be an unfinished char
        SM_ASSERT(d.n == -1, "only a malformed sequence is refused");
    }
}
SM_HARNESS(p_utf8_stream_0){ utf8_stream(0); }
SM_HARNESS(p_utf8_stream_1){ utf8_stream(1); }
SM_HARNESS(p_utf8_stream_2){ utf8_stream(2); }
SM_HARNESS(p_utf8_stream_3){ utf8_stream(3); }
/* decoding a whole string: accepted iff it is a sequence of well-formed chars */
SM_HARNESS(p_utf8_whole){
    setup_in();
    gh_k = 0;
    derr_type_t t = utf8_decode_quiet((const char*)gh_in, gh_n, obs8, NULL);
    if(gh.refused) return;
    dec_t d = next8();
    if(t == E_NONE){
        SM_COVER("accepted");
        SM_ASSERT(gh.pos == gh_n, "accepted only if every byte belongs to a well-formed char");
    }else{
        SM_COVER("refused");
        SM_ASSERT(gh.pos < gh_n && d.n <= 0, "refused only if malformed or cut short");
    }
}
/* decoding UTF-16 in pieces, from any reachable state after the BOM */
static void utf16_stream(bool be, size_t k){
    setup_in();
    gh_be = be;
    gh_k = k;
    for(size_t i = 0; i < 3; i++) gh_pre[i] = sm_u8();
    if(gh_k > 1){
        uint32_t w = be ? gh_pre[0] * 256u + gh_pre[1] : gh_pre[1] * 256u + gh_pre[0];
        SM_ASSUME(w >= 0xD800 && w <= 0xDBFF);
    }
    utf16_state_t st = be ? utf16_start_be() : utf16_start_le();
    st.state = gh_k & 3;
    st.u1 = gh_pre[0]; st.u2 = gh_pre[1]; st.u3 = gh_pre[2];
    derr_type_t t = utf16_decode_stream((const char*)gh_in, gh_n, obs16, NULL, &st);
    if(gh.refused){
        SM_ASSERT(t == E_FIXEDSIZE, "an error of the consumer is passed on");
        return;
    }
    size_t left = gh_k + gh_n - gh.pos;
    dec_t d = next16();
    if(t == E_NONE){
        SM_COVER("accepted");
        SM_ASSERT(left < 4 && d.n == 0, "only an unfinished char is left over");
        SM_ASSERT(st.state == left && st.have_bom && st.bigendian == be, "the saved state is that of the unfinished char");
        if(left > 0) SM_ASSERT(st.u1 == at(gh.pos), "saved byte 1");
        if(left > 1) SM_ASSERT(st.u2 == at(gh.pos+1), "saved byte 2");
        if(left > 2) SM_ASSERT(st.u3 == at(gh.pos+2), "saved byte 3");
    }else{
        SM_COVER("refused");
        SM_ASSERT(t == E_PARAM, "malformed input is a parameter error");
        SM_ASSERT(d.n == -1, "only a malformed sequence is refused");
    }
}
SM_HARNESS(p_utf16_stream_be_0){ utf16_stream(true, 0); }
SM_HARNESS(p_utf16_stream_be_1){ utf16_stream(true, 1); }
SM_HARNESS(p_utf16_stream_be_2){ utf16_stream(true, 2); }
SM_HARNESS(p_utf16_stream_be_3){ utf16_stream(true, 3); }
SM_HARNESS(p_utf16_stream_le_0){ utf16_stream(false, 0); }
SM_HARNESS(p_utf16_stream_le_1){ utf16_stream(false, 1); }
SM_HARNESS(p_utf16_stream_le_2){ utf16_stream(false, 2); }
SM_HARNESS(p_utf16_stream_le_3){ utf16_stream(false, 3); }
/* whole strings; which: 0 with BOM, 1 big-endian, 2 little-endian */
static void utf16_whole(int which){
    setup_in();
    gh_k = 0;
    derr_type_t t;
    bool bom_ok = true;
    gh_be = which == 1;
    if(which == 0){
        bom_ok = gh_n >= 2 && ((at(0) == 0xFE && at(1) == 0xFF) || (at(0) == 0xFF && at(1) == 0xFE));
        gh_be = at(0) == 0xFE;
        gh.pos = gh_n >= 2 ? 2 : gh_n;
        t = utf16_decode_quiet((const char*)gh_in, gh_n, obs16, NULL);
    }else if(which == 1) t = utf16_be_decode_quiet((const char*)gh_in, gh_n, obs16, NULL);
    else t = utf16_le_decode_quiet((const char*)gh_in, gh_n, obs16, NULL);
    if(gh.refused) return;
    if(which == 0 && gh_n == 0){ SM_ASSERT(t == E_NONE, "an empty string needs no BOM"); return; }
    if(!bom_ok){ SM_ASSERT(t == E_PARAM, "a string without a BOM is refused"); return; }
    dec_t d = next16();
    if(t == E_NONE){
        SM_COVER("accepted");
        SM_ASSERT(gh.pos == gh_n, "accepted only if every byte belongs to a well-formed char");
    }else{
        SM_COVER("refused");
        SM_ASSERT(gh.pos < gh_n && d.n <= 0, "refused only if malformed or cut short");
    }
}
SM_HARNESS(p_utf16_whole_bom){ utf16_whole(0); }
SM_HARNESS(p_utf16_whole_be){ utf16_whole(1); }
SM_HARNESS(p_utf16_whole_le){ utf16_whole(2); }
#else
#ifdef SM_CBMC
SM_DEFINE_ERRORS
#endif
#endif

/* ---- encoders: no loops; run natively as well */
typedef struct { uint16_t unit[8]; size_t n; size_t limit; } sink_t;
static derr_type_t sink8(char c, void *data){
    sink_t *s = data;
    if(s->n == s->limit) return E_FIXEDSIZE;
    s->unit[s->n++] = (unsigned char)c;
    return E_NONE;
}
static derr_type_t sink16(uint16_t w, void *data){
    sink_t *s = data;
    if(s->n == s->limit) return E_FIXEDSIZE;
    s->unit[s->n++] = w;
    return E_NONE;
}
SM_HARNESS(p_utf8_encode){
    uint32_t cp = sm_u32();
    sink_t s = { .limit = sm_range(0, 5) };
    derr_type_t t = utf8_encode_quiet(cp, sink8, &s);
    if(!scalar(cp)){
        SM_ASSERT(t == E_PARAM && s.n == 0, "nothing is written for a value that is not a code point");
        return;
    }
    uint8_t want[4];
    size_t n = spec_utf8_enc(cp, want);
    SM_ASSERT(t == (n > s.limit ? E_FIXEDSIZE : E_NONE), "an error of the consumer is passed on");
    if(t != E_NONE) return;
    SM_ASSERT(s.n == n, "number of bytes");
    for(size_t i = 0; i < n; i++) SM_ASSERT(s.unit[i] == want[i], "byte of the encoding");
    // the two specifications agree: decode(encode(cp)) == cp
    dec_t d = spec_utf8(want, n);
    SM_ASSERT(d.n == (int)n && d.cp == cp, "what is encoded decodes to the same code point");
    SM_COVER("utf8_encode");
}
SM_HARNESS(p_utf16_encode){
    uint32_t cp = sm_u32();
    sink_t s = { .limit = sm_range(0, 3) };
    derr_type_t t = utf16_encode_quiet(cp, sink16, &s);
    if(!scalar(cp)){
        SM_ASSERT(t == E_PARAM && s.n == 0, "nothing is written for a value that is not a code point");
        return;
    }
    size_t n = cp < 0x10000 ? 1 : 2;
    SM_ASSERT(t == (n > s.limit ? E_FIXEDSIZE : E_NONE), "an error of the consumer is passed on");
    if(t != E_NONE) return;
    SM_ASSERT(s.n == n, "number of units");
    uint8_t b[4] = { (uint8_t)(s.unit[0] >> 8), (uint8_t)s.unit[0], n > 1 ? (uint8_t)(s.unit[1] >> 8) : 0, n > 1 ? (uint8_t)s.unit[1] : 0 };
    dec_t d = spec_utf16(b, n*2, true);
    SM_ASSERT(d.n == (int)n*2 && d.cp == cp, "what is encoded decodes to the same code point");
    SM_COVER("utf16_encode");
}

#ifndef SM_PROOF
/* ---- search: any string, decoded whole and in two pieces */
typedef struct { uint32_t cp[24]; size_t n; } cps_t;
static derr_type_t collect(uint32_t cp, void *data){
    cps_t *c = data;
    if(c->n < 24) c->cp[c->n++] = cp;
    return E_NONE;
}
static bool spec_all(const uint8_t *p, size_t n, int enc, cps_t *out){
    size_t pos = 0;
    bool be = enc == 1;
    if(enc == 3){
        if(n == 0) return true;
        if(n < 2) return false;
        if(p[0] == 0xFE && p[1] == 0xFF) be = true;
        else if(p[0] == 0xFF && p[1] == 0xFE) be = false;
        else return false;
        pos = 2;
    }
    while(pos < n){
        uint8_t b[4] = {0};
        size_t left = n - pos > 4 ? 4 : n - pos;
        for(size_t i = 0; i < left; i++) b[i] = p[pos + i];
        dec_t d = enc == 0 ? spec_utf8(b, left) : spec_utf16(b, left, be);
        if(d.n <= 0) return false;
        if(out->n < 24) out->cp[out->n++] = d.cp;
        pos += (size_t)d.n;
    }
    return true;
}
SM_HARNESS(s_unicode){
    int enc = (int)sm_range(0, 3);   // utf8, utf16be, utf16le, utf16+bom
    size_t n = sm_len(12), cut = sm_range(0, 12);
    if(cut > n) cut = n;
    char *p = sm_buf(n);
    // steer towards interesting sequences
    unsigned steer = sm_u8();
    if(enc == 0 && n >= 4 && steer < 128){
        uint32_t cp = sm_u32() % 0x200000;
        // an encoding of cp in 2, 3 or 4 bytes, right or overlong
        unsigned k = steer % 3;
        size_t o = steer / 3 % (n - 3);
        if(k == 0){ p[o] = (char)(0xC0 | (cp >> 6 & 31)); p[o+1] = (char)(0x80 | (cp & 63)); }
        if(k == 1){ p[o] = (char)(0xE0 | (cp >> 12 & 15)); p[o+1] = (char)(0x80 | (cp >> 6 & 63)); p[o+2] = (char)(0x80 | (cp & 63)); }
        if(k == 2){ p[o] = (char)(0xF0 | (cp >> 18 & 7)); p[o+1] = (char)(0x80 | (cp >> 12 & 63)); p[o+2] = (char)(0x80 | (cp >> 6 & 63)); p[o+3] = (char)(0x80 | (cp & 63)); }
    }
    if(enc && n >= 4 && steer < 128){
        size_t o = steer % (n/2) * 2;
        p[o + (enc == 2)] = (char)(0xD8 + steer % 8);
        if(o + 4 <= n && steer & 1) p[o + 2 + (enc == 2)] = (char)(0xD8 + sm_u8() % 8);
    }
    if(enc == 3 && n >= 2 && steer & 2){ bool be = steer & 4; p[0] = (char)(be ? 0xFE : 0xFF); p[1] = (char)(be ? 0xFF : 0xFE); }
    cps_t want = {0}, got = {0}, got2 = {0};
    bool ok = spec_all((uint8_t*)p, n, enc, &want);
    derr_type_t t = enc == 0 ? utf8_decode_quiet(p, n, collect, &got)
        : enc == 1 ? utf16_be_decode_quiet(p, n, collect, &got)
        : enc == 2 ? utf16_le_decode_quiet(p, n, collect, &got)
        : utf16_decode_quiet(p, n, collect, &got);
    SM_ASSERT((t == E_NONE) == ok, "accepted iff well-formed");
    SM_ASSERT(t == E_NONE || t == E_PARAM, "malformed input is a parameter error");
    if(ok){
        SM_ASSERT(got.n == want.n, "number of code points");
        for(size_t i = 0; i < want.n; i++) SM_ASSERT(got.cp[i] == want.cp[i], "code point");
    }
    // in two pieces
    bool ok2;
    if(enc == 0){
        uint32_t cp = 0; size_t tail = 0;
        t = utf8_decode_stream(p, cut, collect, &got2, &cp, &tail);
        if(t == E_NONE) t = utf8_decode_stream(p + cut, n - cut, collect, &got2, &cp, &tail);
        ok2 = t == E_NONE && tail == 0;
    }else{
        utf16_state_t st = enc == 1 ? utf16_start_be() : enc == 2 ? utf16_start_le() : (utf16_state_t){0};
        t = utf16_decode_stream(p, cut, collect, &got2, &st);
        if(t == E_NONE) t = utf16_decode_stream(p + cut, n - cut, collect, &got2, &st);
        ok2 = t == E_NONE && st.state == 0;
    }
    SM_ASSERT(ok2 == ok, "decoding in pieces accepts the same strings");
    if(ok2){
        SM_ASSERT(got2.n == want.n, "pieces: number of code points");
        for(size_t i = 0; i < want.n; i++) SM_ASSERT(got2.cp[i] == want.cp[i], "pieces: code point");
    }
}
#endif
