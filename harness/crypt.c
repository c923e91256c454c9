/* the decrypter: libcrypto/crypto.c (and libcrypto/cmp.c) */
#include "sm.h"
#ifdef SM_PROOF
#include "libcrypto/libcrypto.h"
static void sm_hv_metadata(decrypter_t *dc);
static bool gh_metadata(decrypter_t *dc);
static void gh_metadata_step(decrypter_t *dc);
static void sm_hv_decrypt(decrypter_t *dc, dstr_t *out);
static bool gh_decrypt(decrypter_t *dc, dstr_t *in, size_t read, dstr_t *out);
static bool gh_consttime(size_t i, _Bool valid);
SM_DEFINE_ERRORS
SM_ERR(E_SSL)
#include "libcrypto/crypto.c"
#include "libcrypto/cmp.c"

/* real code of the small views */
#include "crypt_views.h"

/* ---- the state of a decryption */
static decrypter_t D;
static EVP_PKEY *gh_pkey; static EVP_CIPHER_CTX *gh_ctx;
static dstr_t gh_fpr; static keypair_t gh_kp;
static LIST(dstr_t) gh_recips; static dstr_t gh_block;
static bool gh_oom;
static const EVP_CIPHER *gh_type;

// (the code uses the buffer only through dc->buffer; apart from D it is simpler)
static char gh_buf[sizeof(D.buffer_buffer)];
static bool wf(decrypter_t *dc){
    return dc->ctx == gh_ctx && dc->kp == &gh_kp && dc->enc_key.len <= sizeof(dc->buffer_buffer)
        && dc->iv.data == dc->iv_buffer && dc->iv.size == CIPHER_IV_LEN && dc->iv.len <= CIPHER_IV_LEN && dc->iv.fixed_size
        && dc->base64.data == dc->base64_buffer && dc->base64.size == sizeof(dc->base64_buffer) && dc->base64.len <= dc->base64.size && dc->base64.fixed_size
        && dc->buffer.data == gh_buf && dc->buffer.size == sizeof(dc->buffer_buffer) && dc->buffer.len <= dc->buffer.size && dc->buffer.fixed_size
        && dc->tag.data == dc->tag_buffer && dc->tag.size == CIPHER_TAG_LEN && dc->tag.len <= CIPHER_TAG_LEN && dc->tag.fixed_size;
}
static void flags(decrypter_t *dc){
    SM_MODB(dc->header_found) SM_MODB(dc->footer_found) SM_MODB(dc->version_found) SM_MODB(dc->key_found)
    SM_MODB(dc->iv_found) SM_MODB(dc->message_started) SM_MODB(dc->tag_found)
}
static void world(void){
    gh_ctx = malloc(1); gh_pkey = malloc(1); gh_type = malloc(1);
    SM_ASSUME(gh_ctx && gh_pkey && gh_type);
    gh_fpr = sm_dstr_in(sm_range(0, 64));
    gh_kp.pair = gh_pkey; gh_kp.fingerprint = &gh_fpr;
    gh_oom = false;
}
static void any_state(void){
    world();
    D.ctx = gh_ctx; D.kp = &gh_kp;
    D.recips = sm_bool() ? &gh_recips : NULL; D.recips_block = &gh_block;
    flags(&D);
    D.iv = (dstr_t){ D.iv_buffer, CIPHER_IV_LEN, sm_range(0, CIPHER_IV_LEN), true };
    D.base64 = (dstr_t){ D.base64_buffer, sizeof(D.base64_buffer), sm_range(0, sizeof(D.base64_buffer)), true };
    D.buffer = (dstr_t){ gh_buf, sizeof(D.buffer_buffer), sm_range(0, sizeof(D.buffer_buffer)), true };
    D.tag = (dstr_t){ D.tag_buffer, CIPHER_TAG_LEN, sm_range(0, CIPHER_TAG_LEN), true };
    D.enc_key = (dstr_t){ malloc(1), 1024, sm_range(0, sizeof(D.buffer_buffer)), false };
    SM_ASSUME(D.enc_key.data);
}

// which of the kinds of line this unit is about (9: none of them)
#ifndef SM_TAG
#define SM_TAG 9
#endif
/* ================= metadata: one line of the specification, on the bytes
   decoded so far, B[0..L).  Positions of ':' and '\n' and the values of numbers
   are those the contracts of dstr_find and dstr_tou (C02, E02) deliver */
enum { STOP, ERR, NEXT };
static struct {
    int kind; derr_type_t err;
    size_t consume;
    bool v, k, iv, started;    // the flags afterwards
    bool match, any_r;
    size_t ha, hn, ka, kn, ia;
    size_t L0;
    bool did_shift, did_copy, did_recip, did_iv, did_open, did_eq;
} g;
static size_t B_L(void){ return g.L0; }
static unsigned B(size_t i){ return i < sizeof(D.buffer_buffer) ? (unsigned char)gh_buf[i] : 256; }
uint16_t __CPROVER_uninterpreted_colon(uint16_t o);
uint16_t __CPROVER_uninterpreted_eol(uint16_t o);
uint32_t __CPROVER_uninterpreted_num(uint16_t o, uint16_t n);
_Bool __CPROVER_uninterpreted_isnum(uint16_t o, uint16_t n);
static size_t first(size_t o, bool colon){
    uint16_t r = colon ? __CPROVER_uninterpreted_colon((uint16_t)o) : __CPROVER_uninterpreted_eol((uint16_t)o);
    SM_ASSUME(r >= o && r <= B_L());
    if(r < B_L()) SM_ASSUME(B(r) == (colon ? ':' : '\n'));
    return r;
}
static bool isnum(size_t o, size_t n){
    bool r = __CPROVER_uninterpreted_isnum((uint16_t)o, (uint16_t)n);
    if(n == 0 || (B(o) != '+' && (B(o) < '0' || B(o) > '9'))) SM_ASSUME(!r);
    return r;
}
static uint32_t num(size_t o, size_t n){ return __CPROVER_uninterpreted_num((uint16_t)o, (uint16_t)n); }
static void err(derr_type_t e){ g.kind = ERR; g.err = e; }
// a number followed by ':', beginning at o; returns the position after the ':'
static bool field(size_t o, size_t *after, uint32_t *val){
    size_t L = B_L();
    size_t c = first(o, true);
    if(c == L){ if(L - o <= 5) g.kind = STOP; else err(E_PARAM); return false; }
    if(!isnum(o, c - o)){ err(E_PARAM); return false; }
    *val = num(o, c - o); *after = c + 1;
    return true;
}
static void gh_metadata_step(decrypter_t *dc){
    size_t L = dc->buffer.len;
    g.L0 = L;
    g.kind = NEXT; g.err = E_NONE; g.consume = 0;
    g.v = dc->version_found; g.k = dc->key_found; g.iv = dc->iv_found; g.started = false;
    g.match = false; g.any_r = false;
    g.did_shift = g.did_copy = g.did_recip = g.did_iv = g.did_open = g.did_eq = false;
    int is = B(0) == 'V' && B(1) == ':' ? 0 : B(0) == 'R' && B(1) == ':' ? 1 : B(0) == 'I' && B(1) == 'V' && B(2) == ':' ? 2 : B(0) == 'M' && B(1) == ':' ? 3 : -1;
    const int tag = SM_TAG == 9 ? -1 : SM_TAG;
    SM_ASSUME(is == tag);
    if(tag < 0){ err(E_PARAM); return; }
    if(tag != 0 && !g.v){ err(E_PARAM); return; }
    uint32_t n; size_t a;
    switch(tag){
    case 0: ;
        size_t nl = first(2, false);
        if(nl == L){ if(L - 2 <= 4) g.kind = STOP; else err(E_PARAM); return; }
        if(!isnum(2, nl - 2) || num(2, nl - 2) != 1){ err(E_PARAM); return; }
        g.v = true; g.consume = nl + 1;
        return;
    case 1:
        if(!field(2, &a, &n)) return;
        if(L - a <= n){ g.kind = STOP; return; }
        if(B(a + n) != ':'){ err(E_PARAM); return; }
        g.ha = a; g.hn = n;
        if(!field(a + n + 1, &a, &n)) return;
        if(L - a <= n){ g.kind = STOP; return; }
        if(B(a + n) != '\n'){ err(E_PARAM); return; }
        g.ka = a; g.kn = n; g.any_r = true;
        g.match = sm_bool();
        if(g.match) g.k = true;
        g.consume = a + n + 1;
        return;
    case 2:
        if(!field(3, &a, &n)) return;
        if(L - a <= n){ g.kind = STOP; return; }
        if(B(a + n) != '\n' || n != 12){ err(E_PARAM); return; }
        g.ia = a; g.iv = true; g.consume = a + n + 1;
        return;
    case 3:
        if(!g.k){ err(E_NOT4ME); return; }
        if(!g.iv){ err(E_PARAM); return; }
        g.started = true; g.consume = 2;
        return;
    }
}
static bool gh_first;      // no line has been read yet
// the effects of the last line are those of the specification
static bool line_done(decrypter_t *dc){
    return g.did_shift && dc->version_found == g.v && dc->key_found == g.k && dc->iv_found == g.iv && dc->message_started == g.started
        && g.did_copy == (g.any_r && g.match) && g.did_eq == g.any_r && g.did_recip == (g.any_r && dc->recips != NULL);
}
static bool gh_metadata(decrypter_t *dc){
    if(gh_oom || dc != &D || !wf(dc) || dc->message_started) return false;
    if(dc->iv_found && dc->iv.len != CIPHER_IV_LEN) return false;
    if(dc->buffer.len == 2 && !(B(0) == 'M' && B(1) == ':')) return false;
    if(!gh_first && !(g.kind == NEXT && line_done(dc))) return false;
    return true;
}
static void sm_hv_metadata(decrypter_t *dc){
    flags(dc);
    SM_MOD(dc->buffer.len) SM_MOD(dc->iv.len) SM_MOD(dc->enc_key.len)
    SM_MODB(gh_first) SM_MODB(gh_oom)
    __typeof__(g) t; g = t;
    SM_MODB(g.v) SM_MODB(g.k) SM_MODB(g.iv) SM_MODB(g.started) SM_MODB(g.match) SM_MODB(g.any_r)
    SM_MODB(g.did_shift) SM_MODB(g.did_copy) SM_MODB(g.did_recip) SM_MODB(g.did_iv) SM_MODB(g.did_open) SM_MODB(g.did_eq)
    __CPROVER_havoc_object(gh_buf);
}

/* ================= the decryption as a whole */
static dstr_t gh_in; static dstr_t gh_out;
static struct {
    size_t read;       // bytes of the input accounted for
    bool pend;         // decoded message bytes not yet given to the cipher
    bool header;       // the header was compared, and is there
    bool fed;
    bool reset;
    size_t line_off, line_end; // the line found last
    bool shifted;
    size_t nonl;       // no line end at or after this offset
    bool tagged;
} u;
static bool gh_decrypt(decrypter_t *dc, dstr_t *in, size_t read, dstr_t *out){
    if(dc != &D || in != &gh_in || out != &gh_out || !wf(dc)) return false;
    if(gh_oom || u.pend || u.reset || u.shifted || u.read != read || !dc->header_found) return false;
    if(out->len > out->size || out->size > SM_HUGE || out->fixed_size) return false;
    if(dc->message_started && dc->buffer.len) return false;
    if(dc->tag_found != u.tagged) return false;
    if(!dc->tag_found && dc->tag.len) return false;
    if(dc->iv_found && dc->iv.len != CIPHER_IV_LEN) return false;
    return !dc->message_started || (dc->key_found && dc->iv_found && dc->version_found);
}
static void sm_hv_decrypt(decrypter_t *dc, dstr_t *out){
    flags(dc);
    SM_MOD(dc->buffer.len) SM_MOD(dc->iv.len) SM_MOD(dc->enc_key.len) SM_MOD(dc->base64.len) SM_MOD(dc->tag.len)
    SM_MOD(u.read) SM_MODB(u.pend) SM_MODB(u.fed) SM_MODB(u.reset) SM_MOD(u.line_off) SM_MOD(u.line_end) SM_MOD(u.nonl) SM_MODB(u.shifted) SM_MODB(u.tagged)
    SM_MODB(gh_oom)
    out->size = sm_len(0); out->len = sm_u64();
    SM_ASSUME(out->len <= out->size);
    out->data = malloc(out->size);
    SM_ASSUME(out->data);
}

/* ---- contracts of the callees */
static bool is_one(const LIST(dstr_t) *p, char c){ return p->len == 1 && p->data[0].len == 1 && p->data[0].data[0] == c; }
char *m_dstr_find(const dstr_t *text, const LIST(dstr_t) *pats, size_t *which, size_t *partial){
        (void)partial;
        size_t o = (size_t)(text->data - gh_buf), L = D.buffer.len;
        SM_ASSERT(o <= L && text->len == L - o, "searches what is decoded");
        if(which) *which = 0;
        if(pats->len == 1){
            bool colon = is_one(pats, ':');
            SM_ASSERT(colon || is_one(pats, '\n'), "searches for the end of a field");
            size_t r = first(o, colon);
            return r == L ? NULL : gh_buf + r;
        }
        // a set of tags: the first place where any of them is
        for(size_t i = 0; i < 5; i++) if(i < pats->len && (SM_TAG == i || SM_TAG == 9)){
            bool m = pats->data[i].len <= text->len;
            for(size_t j = 0; j < 4; j++) if(j < pats->data[i].len) m = m && text->data[j] == pats->data[i].data[j];
            if(SM_TAG == i){ SM_ASSUME(m); if(which) *which = i; return text->data; }
            if(m){ if(which) *which = i; return text->data; }
        }
        if(sm_bool()) return NULL;
        size_t w = sm_range(0, 7), p = sm_u64();
        SM_ASSUME(w < pats->len && p >= 1 && p < text->len);
        if(which) *which = w;
        return text->data + p;
}
char *c_dstr_find(const dstr_t *text, const LIST(dstr_t) *pats, size_t *which, size_t *partial){
    (void)which; (void)partial;
    size_t o = u.read;
    SM_ASSERT(text->len == gh_in.len - o && (text->len == 0 || text->data == gh_in.data + o), "searches the rest of the input");
    SM_ASSERT(is_one(pats, '\n'), "searches for the end of the line");
    if(sm_bool()){ u.nonl = o; return NULL; }
    size_t r = sm_u64();
    SM_ASSUME(r >= o && r < gh_in.len && gh_in.data[r] == '\n');
    u.line_off = o; u.line_end = r;
    return gh_in.data + r;
}
// of two short strings, one of them a constant
bool c_dstr_eq(const dstr_t a, const dstr_t b){
    SM_ASSERT(b.len <= 4, "compared with a constant");
    bool same = a.len == b.len;
    for(size_t j = 0; j < 4; j++) if(same && j < b.len) same = a.data[j] == b.data[j];
    return same;
}
static bool is_range(dstr_t d, size_t a, size_t n){ return d.len == n && (n == 0 || d.data == gh_buf + a); }
derr_t c_dstr_tou(const dstr_t *in, unsigned int *out, int base){
    derr_t e = E_OK;
    size_t o = (size_t)(in->data - gh_buf);
    SM_ASSERT(base == 10 && o <= D.buffer.len && in->len <= D.buffer.len - o, "reads a decimal number");
    if(!isnum(o, in->len)) e.type = E_PARAM;
    else *out = num(o, in->len);
    return e;
}
derr_type_t c_dstr_tou_quiet(const dstr_t in, unsigned int *out, int base){ return c_dstr_tou(&in, out, base).type; }
bool c_dstr_eq_consttime(const dstr_t *a, const dstr_t *b){
    const dstr_t *h = a == &gh_fpr ? b : a, *s = a == &gh_fpr ? a : b;
    SM_ASSERT(s == &gh_fpr && is_range(*h, g.ha, g.hn), "the fingerprint is compared with the one of the line, whole");
    SM_ASSERT(g.any_r && !g.did_eq, "only for a whole recipient line");
    g.did_eq = true;
    return g.match;
}
derr_t c_dstr_copy(const dstr_t *in, dstr_t *out){
    derr_t e = E_OK;
    SM_ASSERT(out == &D.enc_key && g.match && g.any_r && is_range(*in, g.ka, g.kn), "the key taken is the one of the line with our fingerprint");
    if(sm_bool()){ gh_oom = true; e.type = E_NOMEM; return e; }
    g.did_copy = true;
    out->len = in->len;
    return e;
}
derr_t c_list_append_with_mem(LIST(dstr_t) *l, dstr_t *m, dstr_t in, bool nt){
    derr_t e = E_OK;
    (void)nt;
    SM_ASSERT(l == &gh_recips && m == &gh_block && g.any_r && is_range(in, g.ha, g.hn), "the recipient recorded is the one of the line");
    if(sm_bool()){ gh_oom = true; e.type = E_NOMEM; return e; }
    g.did_recip = true;
    return e;
}
derr_type_t m_dstr_append_quiet(dstr_t *out, const dstr_t *t){
        SM_ASSERT(out == &D.iv && out->len == 0 && is_range(*t, g.ia, CIPHER_IV_LEN) && g.iv && g.kind == NEXT, "the initialization vector is the one of the line");
        out->len = CIPHER_IV_LEN; g.did_iv = true;
        return E_NONE;
}
derr_type_t c_dstr_append_quiet(dstr_t *out, const dstr_t *t){
    SM_ASSERT(out == &D.base64 && t->len <= out->size - out->len, "the line fits");
    SM_ASSERT(t->data == gh_in.data + u.read && u.line_off == u.read && t->len <= u.line_end + 1 - u.read, "the next bytes of the line are decoded");
    SM_ASSERT(t->len == u.line_end + 1 - u.read || t->len == out->size - out->len, "as many as there is room for");
    u.read += t->len;
    out->len += t->len;
    return E_NONE;
}
void m_dstr_leftshift(dstr_t *d, size_t n){
        SM_ASSERT(d == &D.buffer && !g.did_shift && g.kind == NEXT && n == g.consume && n <= d->len, "exactly the line is consumed");
        g.did_shift = true;
        d->len -= n;
        __CPROVER_havoc_object(gh_buf);
}
void c_dstr_leftshift(dstr_t *d, size_t n){
    SM_ASSERT(d == &gh_in && !u.shifted, "the input is consumed once");
    SM_ASSERT(n == (D.tag_found ? gh_in.len : u.read), "what is consumed is what was read");
    u.shifted = true;
}
int c_dstr_cmp(const dstr_t *a, const dstr_t *b){
    const dstr_t *h = a == &pem_header ? b : a;
    SM_ASSERT((a == &pem_header) != (b == &pem_header), "the header is compared");
    SM_ASSERT(h->data == gh_in.data && h->len == pem_header.len, "with the start of the input");
    u.header = sm_bool();
    if(u.header) u.read = pem_header.len;
    return u.header ? 0 : 1;
}
derr_t c_b642bin_stream(dstr_t *b64, dstr_t *bin){
    derr_t e = E_OK;
    size_t d, most = b64->len/4*3;
    if(bin == &D.tag){
        SM_ASSERT(u.line_off == u.read && b64->data == gh_in.data + u.read + 1 && gh_in.data[u.read] == '=' && b64->len <= u.line_end - u.read, "the tag is on a line that starts with =");
        SM_ASSERT(bin->len == 0, "there is one tag");
        u.tagged = true;
    }else{
        SM_ASSERT(b64 == &D.base64 && bin == &D.buffer, "lines are decoded into the buffer");
    }
    d = sm_u64();
    SM_ASSUME(d <= most && d <= bin->size - bin->len);
    if(bin->len + most > bin->size && sm_bool()){ e.type = E_FIXEDSIZE; bin->len += d; return e; }
    size_t rest = sm_u64();
    SM_ASSUME(rest <= b64->len);
    b64->len = rest;
    bin->len += d;
    if(bin == &D.buffer && d) u.pend = true;
    return e;
}
derr_t c_decrypter_parse_metadata(decrypter_t *dc){
    derr_t e = E_OK;
    SM_ASSERT(dc == &D && !dc->message_started && wf(dc) && (!dc->iv_found || dc->iv.len == CIPHER_IV_LEN), "metadata is parsed until the message starts");
    unsigned r = sm_u8();
    SM_MODB(dc->version_found) SM_MODB(dc->key_found) SM_MODB(dc->iv_found)
    size_t n = sm_u64();
    SM_ASSUME(n <= dc->buffer.len);
    dc->buffer.len = n;
    dc->iv.len = sm_range(0, CIPHER_IV_LEN);
    SM_ASSUME(!dc->iv_found || dc->iv.len == CIPHER_IV_LEN);
    u.pend = false;    // metadata waits for more
    if(r == 1){ e.type = E_PARAM; return e; }
    if(r == 2){ e.type = E_SSL; return e; }
    if(r == 3){ e.type = E_NOT4ME; return e; }
    if(r == 4){ e.type = E_NOMEM; gh_oom = true; return e; }
    if(sm_bool()){
        dc->message_started = true;
        SM_ASSUME(dc->version_found && dc->key_found && dc->iv_found);
        u.pend = n > 0;
    }
    return e;
}
derr_t c_dstr_grow(dstr_t *d, size_t n){
    derr_t e = E_OK;
    SM_ASSERT(d == &gh_out, "the output is grown");
    if(sm_bool()){ gh_oom = true; e.type = E_NOMEM; return e; }
    if(n > d->size){
        size_t s = sm_u64();
        SM_ASSUME(s >= n && s <= 2*n && s <= SM_HUGE);  // or there is no such memory
        d->data = malloc(s); d->size = s;
        SM_ASSUME(d->data);
    }
    return e;
}
/* ---- OpenSSL, as documented */
const EVP_CIPHER *c_EVP_aes_256_gcm(void){ return gh_type; }
int c_EVP_OpenInit(EVP_CIPHER_CTX *ctx, const EVP_CIPHER *type, const unsigned char *ek, int ekl, const unsigned char *iv, EVP_PKEY *priv){
    SM_ASSERT(ctx == gh_ctx && type == gh_type && priv == gh_pkey, "the cipher is AES-256-GCM, the key is ours");
    SM_ASSERT(ek == (unsigned char*)D.enc_key.data && (size_t)ekl == D.enc_key.len && ekl >= 0, "the session key is the one encrypted to us");
    SM_ASSERT(iv == (unsigned char*)D.iv_buffer && D.iv.len == CIPHER_IV_LEN, "the initialization vector is whole");
    SM_ASSERT(g.kind == NEXT && g.started && !g.did_open, "decryption starts once the metadata is complete");
    g.did_open = true;
    if(sm_bool()) return 1;
    err(E_SSL);
    return 0;
}
int c_EVP_DecryptUpdate(EVP_CIPHER_CTX *ctx, unsigned char *out, int *outl, const unsigned char *in, int inl){
    SM_ASSERT(ctx == gh_ctx && D.message_started, "the cipher is started");
    SM_ASSERT(in == (unsigned char*)gh_buf && inl >= 0 && (size_t)inl == D.buffer.len, "everything decoded is decrypted");
    SM_ASSERT(out == (unsigned char*)gh_out.data + gh_out.len && __CPROVER_w_ok(out, (size_t)inl + CIPHER_BLOCK_SIZE - 1), "there is room for the output");
    u.pend = false; u.fed = true;
    if(sm_bool()) return 0;
    *outl = (int)sm_range(0, 65535);
    SM_ASSUME(*outl <= inl + CIPHER_BLOCK_SIZE - 1);
    return 1;
}
static struct { bool settag, final, final_ok; } fin;
int c_EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX *ctx, int type, int arg, void *ptr){
    SM_ASSERT(ctx == gh_ctx && type == EVP_CTRL_GCM_SET_TAG, "the tag is set");
    SM_ASSERT(arg == CIPHER_TAG_LEN && ptr == D.tag_buffer && D.tag.len == CIPHER_TAG_LEN, "the tag is the one of the message, whole: 16 bytes");
    SM_ASSERT(!fin.final && !fin.settag, "before the end is checked");
    if(sm_bool()) return 0;
    fin.settag = true;
    return 1;
}
int c_EVP_OpenFinal(EVP_CIPHER_CTX *ctx, unsigned char *out, int *outl){
    SM_ASSERT(ctx == gh_ctx && fin.settag && !fin.final, "the end is checked against the tag");
    SM_ASSERT(out == (unsigned char*)gh_out.data + gh_out.len && __CPROVER_w_ok(out, CIPHER_BLOCK_SIZE), "there is room for the output");
    fin.final = true;
    fin.final_ok = sm_bool();
    if(!fin.final_ok) return 0;
    *outl = (int)sm_range(0, CIPHER_BLOCK_SIZE);
    return 1;
}
int c_EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *ctx){ SM_ASSERT(ctx == gh_ctx, "the context is reset"); u.reset = true; return 1; }

/* ---- proofs */
static void metadata(void){
    any_state();
    D.message_started = false;
    SM_ASSUME(!D.iv_found || D.iv.len == CIPHER_IV_LEN);
    gh_first = true; g.L0 = D.buffer.len; g.kind = STOP; g.started = false; g.did_open = false;
    bool only_m = D.buffer.len == 2 && B(0) == 'M' && B(1) == ':';
    bool none = D.buffer.len < 3 && !only_m;
    derr_t e = decrypter_parse_metadata(&D);
    if(e.type == E_NONE && D.message_started){
#if SM_TAG == 3
        SM_COVER("started");
#endif
        SM_ASSERT(!gh_oom && g.kind == NEXT && g.started && g.did_open && line_done(&D), "the message starts when the metadata is complete and the key opened");
        SM_ASSERT(D.version_found && D.key_found && D.iv_found, "version, our key and initialization vector were there");
        return;
    }
    SM_ASSERT(!D.message_started, "a message that failed to open is not started");
    if(gh_oom){ SM_ASSERT(e.type == E_NOMEM, "out of memory is reported"); return; }
    if(e.type){
        SM_COVER("refused");
        SM_ASSERT(g.kind == ERR && e.type == g.err, "refused as the format says");
        return;
    }
    SM_COVER("more");
    if(none) return;
    SM_ASSERT(D.buffer.len < 2 || (D.buffer.len == 2 && !(B(0) == 'M' && B(1) == ':')) || g.kind == STOP, "every whole line is read");
    if(g.kind == STOP) SM_ASSERT(!g.did_shift && !g.did_copy && !g.did_recip && !g.did_iv, "an incomplete line is left for later");
    else SM_ASSERT(line_done(&D), "the last line was read whole");
}
SM_HARNESS(p_metadata_0){ metadata(); } // V:
SM_HARNESS(p_metadata_1){ metadata(); } // R:
SM_HARNESS(p_metadata_2){ metadata(); } // IV:
SM_HARNESS(p_metadata_3){ metadata(); } // M:
SM_HARNESS(p_metadata_9){ metadata(); } // none of them
SM_HARNESS(p_update){
    any_state();
    SM_ASSUME(!D.message_started || (D.buffer.len == 0 && D.key_found && D.iv_found && D.version_found));
    SM_ASSUME(D.header_found || (!D.message_started && !D.tag_found));
    SM_ASSUME(D.tag_found || D.tag.len == 0);
    SM_ASSUME(!D.iv_found || D.iv.len == CIPHER_IV_LEN);
    gh_in = sm_dstr_in(sm_len(0));
    gh_out = (dstr_t){ .size = sm_len(0) };
    gh_out.len = sm_u64();
    SM_ASSUME(gh_out.len <= gh_out.size);
    gh_out.data = malloc(gh_out.size); SM_ASSUME(gh_out.data);
    u.read = 0; u.pend = u.header = u.fed = u.reset = u.shifted = false; u.nonl = SIZE_MAX; u.tagged = D.tag_found;
    bool had = D.header_found;
    derr_t e = decrypter_update(&D, &gh_in, &gh_out);
    if(e.type){
        SM_COVER("refused");
        SM_ASSERT(!D.message_started, "a failed decryption cannot be finished");
        SM_ASSERT(e.type == E_PARAM || e.type == E_SSL || e.type == E_NOT4ME || (gh_oom && e.type == E_NOMEM), "a bad message is reported as such, nothing else");
        return;
    }
    SM_ASSERT(!gh_oom, "out of memory is reported");
    if(!had && !u.header){ SM_ASSERT(gh_in.len < pem_header.len && !u.shifted, "waits for the header"); return; }
    SM_ASSERT(D.header_found, "the header was found");
    SM_ASSERT(u.shifted && !u.pend && !u.reset, "everything read was decrypted, and is consumed");
    SM_ASSERT(D.tag_found == u.tagged, "the tag");
    if(D.tag_found){ SM_COVER("tag"); return; }
    SM_ASSERT(u.read == gh_in.len || u.nonl == u.read, "every whole line is read");
    SM_COVER("read");
    if(u.fed) SM_COVER("decrypted");
}
SM_HARNESS(p_finish){
    any_state();
    gh_out = (dstr_t){ .size = sm_len(0) };
    gh_out.len = sm_u64();
    SM_ASSUME(gh_out.len <= gh_out.size);
    gh_out.data = malloc(gh_out.size); SM_ASSUME(gh_out.data);
    fin.settag = fin.final = fin.final_ok = false; u.reset = false;
    bool started = D.message_started; size_t taglen = D.tag.len;
    derr_t e = decrypter_finish(&D, &gh_out);
    if(started) SM_ASSERT(u.reset, "the context is wiped in any case");
    if(e.type){
        SM_COVER("refused");
        SM_ASSERT(e.type == E_PARAM || e.type == E_SSL || (gh_oom && e.type == E_NOMEM), "a bad message is reported as such, nothing else");
        return;
    }
    SM_COVER("finished");
    SM_ASSERT(started && taglen == CIPHER_TAG_LEN && fin.settag && fin.final_ok, "success only if the whole tag was there and verified");
}
static bool gh_started;
derr_t c_dstr_new(dstr_t *d, size_t n){
    derr_t e = E_OK;
    SM_ASSERT(d == &D.enc_key, "room for the key");
    if(sm_bool()){ gh_oom = true; e.type = E_NOMEM; return e; }
    d->data = malloc(n + 1); SM_ASSUME(d->data);
    d->size = n + 1; d->len = 0; d->fixed_size = false;
    return e;
}
derr_t s_dstr_grow(dstr_t *d, size_t n){
    derr_t e = E_OK;
    SM_ASSERT(d == &D.enc_key, "room for the key");
    if(sm_bool()){ gh_oom = true; e.type = E_NOMEM; return e; }
    if(d->size < n) d->size = n;
    return e;
}
static int gh_pksize;
int c_EVP_PKEY_get_size(const EVP_PKEY *k){ SM_ASSERT(k == gh_pkey, "our key"); return gh_pksize; }
SM_HARNESS(p_start){
    any_state();
    if(sm_bool()) D.enc_key = (dstr_t){0};
    D.kp = NULL;
    gh_pksize = (int)sm_range(1, 65535);
    u.reset = false;
    bool started = D.message_started;
    derr_t e = decrypter_start(&D, &gh_kp, &gh_recips, &gh_block);
    if(e.type){ SM_ASSERT(gh_oom, "only for lack of memory"); return; }
    SM_COVER("start");
    SM_ASSERT(!started || u.reset, "an interrupted decryption is wiped");
    SM_ASSERT(!D.header_found && !D.version_found && !D.key_found && !D.iv_found && !D.message_started && !D.tag_found, "nothing is remembered");
    SM_ASSERT(D.tag.len == 0 && D.buffer.len == 0 && D.base64.len == 0, "nothing is remembered");
    SM_ASSERT(D.kp == &gh_kp && D.recips == &gh_recips && D.recips_block == &gh_block, "the key and the recipients are those given");
}
/* constant-time equality is equality */
static dstr_t gh_a, gh_b; static size_t gh_f;
static bool gh_consttime(size_t i, _Bool valid){
    bool same = gh_a.len == gh_b.len;
    if(same && i < gh_f) SM_ASSUME(gh_a.data[i] == gh_b.data[i]);
    return valid == (same && i <= gh_f);
}
SM_HARNESS(p_consttime){
    gh_a = sm_dstr_in(sm_len(0)); gh_b = sm_dstr_in(sm_len(0));
    gh_f = sm_u64();   // the first index at which they differ, if any
    bool same = gh_a.len == gh_b.len && gh_f >= gh_a.len;
    if(gh_a.len == gh_b.len && !same) SM_ASSUME(gh_a.data[gh_f] != gh_b.data[gh_f]);
    bool r = dstr_eq_consttime(&gh_a, &gh_b);
    SM_ASSERT(r == same, "equal exactly if of equal length and all bytes are");
    if(r) SM_COVER("equal");
    SM_COVER("compared");
}
#else
#include "libcrypto/libcrypto.h"
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
static keypair_t *K[2];
static void keys(void){
    if(K[0]) return;
    for(int i = 0; i < 2; i++){
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, NULL);
        EVP_PKEY *p = NULL;
        EVP_PKEY_keygen_init(c); EVP_PKEY_CTX_set_rsa_keygen_bits(c, 1024);
        EVP_PKEY_keygen(c, &p); EVP_PKEY_CTX_free(c);
        DSTR_VAR(pem, 8192);
        BIO *b = BIO_new(BIO_s_mem());
        PEM_write_bio_PrivateKey(b, p, NULL, NULL, 0, NULL, NULL);
        pem.len = (size_t)BIO_read(b, pem.data, (int)pem.size); BIO_free(b); EVP_PKEY_free(p);
        derr_t e = keypair_from_private_pem(&K[i], pem);
        SM_ASSUME(e.type == E_NONE);
    }
}
// decrypt in pieces; true if it succeeded
static bool open_msg(dstr_t msg, size_t cut, dstr_t *plain, derr_type_t *why){
    decrypter_t dc; memset(&dc, 0, sizeof(dc));
    derr_t e = decrypter_new(&dc);
    if(!e.type) e = decrypter_start(&dc, K[0], NULL, NULL);
    dstr_t copy; dstr_new_quiet(&copy, msg.len + 1);
    size_t at = 0;
    while(!e.type && at < msg.len){
        size_t n = cut && cut < msg.len - at ? cut : msg.len - at;
        dstr_t piece = dstr_sub2(msg, at, at + n);
        dstr_append_quiet(&copy, &piece);
        at += n;
        e = decrypter_update(&dc, &copy, plain);
    }
    if(!e.type) e = decrypter_finish(&dc, plain);
    *why = e.type;
    bool ok = e.type == E_NONE; DROP_VAR(&e);
    dstr_free(&copy); decrypter_free(&dc);
    return ok;
}
static dstr_t seal(dstr_t text, unsigned ours, unsigned others){
    encrypter_t ec; memset(&ec, 0, sizeof(ec));
    derr_t e = encrypter_new(&ec);
    dstr_t out; dstr_new_quiet(&out, 4096);
    link_t l = {0}; link_init(&l);
    keypair_t *c[300]; unsigned n = 0;
    for(unsigned i = 0; i < others + ours; i++){ keypair_t *k = i == others ? K[0] : K[1]; keypair_copy(k, &c[n]); link_list_append(&l, &c[n]->link); n++; }
    if(!e.type) e = encrypter_start(&ec, &l, &out);
    if(!e.type) e = encrypter_update(&ec, &text, &out);
    if(!e.type) e = encrypter_finish(&ec, &out);
    bool ok = e.type == E_NONE; DROP_VAR(&e);
    for(unsigned i = 0; i < n; i++){ link_remove(&c[i]->link); keypair_free(&c[i]); }
    encrypter_free(&ec);
    if(!ok){ dstr_free(&out); longjmp(sm_jmp, 1); }
    return out;
}
SM_HARNESS(s_crypt){
    keys();
    dstr_t text = sm_dstr_in(sm_range(0, 300));
    unsigned mode = sm_u8() % 8, others = sm_u8() % 64; size_t cut = sm_u8();
    bool ours = mode != 1;
    if(!ours && !others) others = 1;
    dstr_t msg = seal(text, ours, others);
    dstr_t plain; dstr_new_quiet(&plain, 16);
    derr_type_t why;
    char *nl = NULL; size_t tagline = 0, hdr = 36;
    for(size_t i = 0; i + 1 < msg.len; i++) if(msg.data[i] == '\n' && msg.data[i+1] == '=') tagline = i + 1;
    if(mode == 0 || mode == 7){
        bool ok = open_msg(msg, mode ? cut : 0, &plain, &why);
        SM_ASSERT(ok && plain.len == text.len && (text.len == 0 || memcmp(plain.data, text.data, text.len) == 0), "what was encrypted to us opens to what it was");
    }else if(mode == 1){
        SM_ASSERT(!open_msg(msg, cut, &plain, &why) && why == E_NOT4ME, "a message to others is reported as such");
    }else if(mode == 2){
        // cut the tag short: t bytes of it
        size_t t = sm_range(0, 15);
        DSTR_VAR(tag, 64); DSTR_VAR(b, 64);
        dstr_t tl = { .data = msg.data + tagline + 1, .len = 24, .size = 24, .fixed_size = true };
        derr_t e = b642bin(&tl, &tag); DROP_VAR(&e);
        tag.len = t; e = bin2b64(&tag, &b); DROP_VAR(&e);
        dstr_t m2; dstr_new_quiet(&m2, msg.len + 64);
        dstr_t a = dstr_sub2(msg, 0, tagline + 1), z = dstr_sub2(msg, tagline + 25, msg.len);
        dstr_append_quiet(&m2, &a); dstr_append_quiet(&m2, &b); dstr_append_quiet(&m2, &z);
        bool ok = open_msg(m2, cut, &plain, &why);
        dstr_free(&m2);
        SM_ASSERT(!ok, "a message with a truncated tag does not open");
    }else if(mode == 3){
        // change one byte; it may not open to anything else
        size_t i = sm_u16() % msg.len; char o = msg.data[i]; msg.data[i] = (char)sm_u8();
        bool ok = open_msg(msg, cut, &plain, &why);
        if(ok) SM_ASSERT(plain.len == text.len && memcmp(plain.data, text.data, text.len) == 0, "a changed message does not open to another text");
        else SM_ASSERT(why == E_PARAM || why == E_SSL || why == E_NOT4ME, "a bad message is reported as such, nothing else");
        (void)o;
    }else if(mode == 4){
        msg.len = sm_u16() % (tagline + 1);
        SM_ASSERT(!open_msg(msg, cut, &plain, &why), "a message cut short does not open");
        SM_ASSERT(why == E_PARAM || why == E_SSL || why == E_NOT4ME, "a bad message is reported as such, nothing else");
    }else{
        // hostile metadata
        static const char *f[] = { "V:1\n", "V:2\n", "R:32:", "R:4294967295:", "R:0:", ":", "IV:12:", "IV:4294967295:", "123456789012", "\n", "M:", "R:4:abcd:4294967295:", "R:4:abcd:3000:", "R:4:abcd:0:\n" };
        dstr_t meta, m2; dstr_new_quiet(&meta, 64); dstr_new_quiet(&m2, 64);
        if(sm_u8() & 7){ dstr_t v = DSTR_LIT("V:1\n"); dstr_append_quiet(&meta, &v); }
        for(unsigned k = sm_u8() % 8; k; k--){
            unsigned c = sm_u8();
            if(c < 200){ dstr_t s = dstr_from_cstr((char*)f[c % (sizeof(f)/sizeof(*f))]); dstr_append_quiet(&meta, &s); }
            else for(unsigned j = (c - 199) * (c - 199); j; j--) dstr_append_char(&meta, 'x');
        }
        if(mode == 6){ for(size_t i = 0; i < text.len; i++) dstr_append_char(&meta, text.data[i]); }
        dstr_t h = DSTR_LIT("-----BEGIN SPLINTERMAIL MESSAGE-----\n"); dstr_append_quiet(&m2, &h);
        bin2b64_quiet(&meta, &m2, sm_bool() ? 64 : 2000, true, NULL);
        bool ok = open_msg(m2, cut, &plain, &why);
        dstr_free(&meta); dstr_free(&m2);
        SM_ASSERT(!ok && (why == E_PARAM || why == E_SSL || why == E_NOT4ME), "a bad message is reported as such, nothing else");
    }
    dstr_free(&msg); dstr_free(&plain);
    (void)nl; (void)hdr;
}
#endif
