/* ---- writers ---- */
/* Above the four functions that store into the answer, the answer is not a
   buffer: only the byte at the witness offset gh_wabs is followed, in gh.x,
   and out points to an empty object, so that any store that does not go
   through them is reported. */
static size_t gh_wabs = SIZE_MAX, gh_ws;   // witness offset; where the name starts
static char *gh_out; static size_t gh_room;
static void put_at(const char *out, size_t used, size_t n){
    SM_ASSERT(out == gh_out && used <= gh_room && n <= gh_room - used, "writes only inside the answer's buffer");
}
size_t c_put_uint8(uint8_t n, char *out, size_t used){
    put_at(out, used, 1);
    if(gh_wabs == used) gh.x = n;
    return used + 1;
}
size_t c_put_uint16(uint16_t n, char *out, size_t used){
    put_at(out, used, 2);
    if(gh_wabs == used) gh.x = (uint8_t)(n >> 8);
    if(gh_wabs == used + 1) gh.x = (uint8_t)n;
    return used + 2;
}
size_t c_put_uint32(uint32_t n, char *out, size_t used){
    put_at(out, used, 4);
    if(gh_wabs - used < 4) gh.x = (uint8_t)(n >> (24 - 8 * (gh_wabs - used)));
    return used + 4;
}
size_t c_put_lstr(const lstr_t l, char *out, size_t used){
    put_at(out, used, l.len);
    SM_ASSERT(l.len == 0 || __CPROVER_r_ok(l.str, l.len), "reads only the label");
    if(gh_wabs - used < l.len) gh.x = (uint8_t)l.str[gh_wabs - used];
    return used + l.len;
}
static void empty_out(size_t room){ gh_out = malloc(0); SM_ASSUME(gh_out != NULL); gh_room = room; }
/* the four, on a buffer of exactly the room they need */
static char *room(size_t n, size_t *used, size_t *w, char *v){
    *used = sm_len(0);
    char *o = malloc(*used + n);
    SM_ASSUME(o != NULL);
    *w = sm_len(0);
    SM_ASSUME(*w < *used + n);
    *v = o[*w];
    return o;
}
SM_HARNESS(p_put){
    size_t used, w; char v;
    uint32_t n = sm_u32();
    char *o = room(1, &used, &w, &v);
    SM_ASSERT(put_uint8((uint8_t)n, o, used) == used + 1 && (uint8_t)o[w] == (w == used ? (uint8_t)n : (uint8_t)v), "put_uint8");
    o = room(2, &used, &w, &v);
    SM_ASSERT(put_uint16((uint16_t)n, o, used) == used + 2 && (uint8_t)o[w] == (w == used ? (uint8_t)(n >> 8) : w == used + 1 ? (uint8_t)n : (uint8_t)v), "put_uint16");
    o = room(4, &used, &w, &v);
    SM_ASSERT(put_uint32(n, o, used) == used + 4 && (uint8_t)o[w] == (w >= used ? (uint8_t)(n >> (24 - 8*(w - used))) : (uint8_t)v), "put_uint32");
    size_t l = sm_range(0, 255);
    lstr_t s = { .str = sm_buf(l), .len = l };
    o = room(l, &used, &w, &v);
    gh_mw = w; gh_mo = o;
    SM_ASSERT(put_lstr(s, o, used) == used + l && o[w] == (w >= used ? s.str[w - used] : v), "put_lstr");
    SM_COVER("put");
}
static uint8_t gh_x0;
// bytes 0..n of the name (labels with their length bytes), which starts at gh_ws
static bool name_out(size_t n){
    size_t o = gh_wabs - gh_ws;
    return gh.x == (gh_wabs >= gh_ws && o < n ? xNB(o) : gh_x0);
}
static bool gh_needed(size_t off, const labels_t *it, size_t needed){
    return gh.k >= 1 && gh.x == gh_x0 && gh_labels(off, it, gh.k - 1) && needed == 5 + gh.n - (it->lstr.len + 1);
}
static bool gh_qname(size_t off, const labels_t *it, size_t start, size_t used){
    if(gh.k < 1 || !gh_labels(off, it, gh.k - 1)) return false;
    size_t n0 = gh.n - (it->lstr.len + 1);
    if(start != gh_ws || used != start + n0 || !name_out(n0)) return false;
    // the witness byte, if it belongs to the label at hand
    size_t o = gh_wabs - gh_ws;
    if(gh_wabs >= gh_ws && o >= n0 && o < gh.n
        && xNB(o) != (o == n0 ? (uint8_t)it->lstr.len : (uint8_t)it->lstr.str[o - n0 - 1])) return false;
    return true;
}
size_t c_write_qstn(const dns_qstn_t qstn, char *out, size_t cap, size_t used){
    SM_ASSERT(is_qstn(&qstn, gh_w0) && qstn_ok(gh_w0), "write_qstn: a well-formed question");
    SM_ASSERT(used == gh_ws && out == gh_out && xW(gh_w0, 0, false) <= 254, "ghost: one question");
    size_t w = xW(gh_w0, 0, false);
    if(used + 5 + w > cap) return used + 5 + w;
    put_at(out, used, 5 + w);
    if(gh_wabs >= used && gh_wabs < used + 5 + w){
        size_t o = gh_wabs - used;
        gh.x = (uint8_t)(o < w ? xNB(o) : o == w ? 0 : o == w + 1 ? qstn.qtype >> 8 : o == w + 2 ? qstn.qtype : o == w + 3 ? qstn.qclass >> 8 : qstn.qclass);
    }
    return used + 5 + w;
}
static void query(void){
    datagram();
    gh_w0 = 12;
    SM_ASSUME(gh_qlen >= 12 && qstn_ok(12));
    gh_name_def(12, 0, false);
}
SM_HARNESS(p_write_qstn){
    query();
    size_t cap = sm_range(0, 65535), used = sm_range(0, 65535);
    SM_ASSUME(used <= cap);
    empty_out(cap);
    dns_qstn_t q; q.ptr = (const char*)gh_q;
    SM_ASSUME(is_qstn(&q, 12));
    gh_ws = used;
    gh_wabs = sm_range(0, 70000);
    gh.x = sm_u8();
    gh_x0 = gh.x;
    size_t w = xW(12, 0, false);
    size_t r = write_qstn(q, gh_out, cap, used);
    SM_ASSERT(r == used + 5 + w, "the question's length, written or not");
    if(gh_wabs < used || gh_wabs >= r || r > cap) SM_ASSERT(gh.x == gh_x0, "nothing else is written");
    if(r > cap){ SM_COVER("no room"); return; }
    if(gh_wabs < used || gh_wabs >= r) return;
    SM_COVER("written");
    size_t o = gh_wabs - used;
    uint8_t x = gh.x;
    if(o < w) SM_ASSERT(x == xNB(o), "the name with its pointers resolved");
    else if(o == w) SM_ASSERT(x == 0, "the name ends");
    else SM_ASSERT(x == (uint8_t)(o == w + 1 ? q.qtype >> 8 : o == w + 2 ? q.qtype : o == w + 3 ? q.qclass >> 8 : q.qclass), "type and class");
}
/* ---- whole answers: header, question, records, OPT, at the witness byte ---- */
#include "dns_spec.h"
static dns_pkt_t any_query(void){
    query();
    dns_pkt_t p;
    p.qstn.ptr = (const char*)gh_q;
    SM_ASSUME(is_qstn(&p.qstn, 12) && p.hdr.qdcount == 1);
    p.edns.found = sm_bool();
    return p;
}
static size_t out_cap(void){
    size_t cap = sm_range(512, 65535);
    empty_out(cap);
    gh_ws = 12;
    gh_wabs = sm_range(0, 65534);
    return cap;
}
static void check_answer(const dns_pkt_t *p, size_t got, size_t cap, unsigned rcode, bool aa,
        unsigned an, unsigned ns, const uint8_t *rec, size_t nrec, const char *tail, size_t ntail){
    size_t w = xW(12, 0, false);
    bool e = p->edns.found;
    size_t q0 = 12 + w + 5, t0 = q0 + nrec, e0 = t0 + ntail, end = e0 + (e ? 11 : 0);
    SM_ASSERT(end <= 512, "every answer fits in 512 bytes");
    SM_ASSERT(got == end, "the answer's length");
    SM_COVER("answered");
    if(gh_wabs >= got) return;
    uint8_t x = gh.x;
    size_t i = gh_wabs;
    if(i < 12){
        uint8_t h[12] = { (uint8_t)(p->hdr.id >> 8), (uint8_t)p->hdr.id, (uint8_t)(0x80 | (aa ? 4 : 0) | (p->hdr.rd ? 1 : 0)), (uint8_t)rcode,
            0, 1, 0, (uint8_t)an, 0, (uint8_t)ns, 0, e };
        SM_ASSERT(x == h[i], "header byte");
    }else if(i < 12 + w) SM_ASSERT(x == xNB(i - 12), "question name byte");
    else if(i < q0){
        size_t o = i - 12 - w;
        uint8_t q[5] = { 0, (uint8_t)(p->qstn.qtype >> 8), (uint8_t)p->qstn.qtype, (uint8_t)(p->qstn.qclass >> 8), (uint8_t)p->qstn.qclass };
        SM_ASSERT(x == q[o], "question byte");
    }else if(i < t0) SM_ASSERT(x == rec[i - q0], "record byte");
    else if(i < e0) SM_ASSERT(x == (uint8_t)tail[i - t0], "text byte");
    else{
        static const uint8_t opt[11] = { 0, 0, 41, 5, 0, 0, 0, 0, 0, 0, 0 };
        SM_ASSERT(x == opt[i - e0], "OPT record byte");
    }
}
static void negative(unsigned rcode, bool aa, bool soa){
    dns_pkt_t p = any_query();
    size_t cap = out_cap();
    bytes_t s = {0};
    if(soa) s = rec_soa();
    size_t got = negative_resp(p, (uint16_t)rcode, aa, soa, gh_out, cap);
    check_answer(&p, got, cap, rcode, aa, 0, soa, s.b, s.n, NULL, 0);
}
SM_HARNESS(p_negative_soa){ negative(sm_range(0, 15), true, true); }
SM_HARNESS(p_negative_bare){ negative(sm_range(0, 15), sm_bool(), false); }
static size_t wmax = 254;
static void positive(writer_f *ws, size_t n, void *arg, const bytes_t *r, const char *tail, size_t ntail){
    dns_pkt_t p = any_query();
    size_t cap = out_cap();
    SM_ASSUME(xW(12, 0, false) <= wmax);
    size_t got = positive_resp(ws, n, arg, p, gh_out, cap);
    check_answer(&p, got, cap, 0, true, (unsigned)n, 0, r->b, r->n, tail, ntail);
}
#define POS(name, build, ...) SM_HARNESS(name){ \
    bytes_t r = {0}; build; \
    writer_f w[] = { __VA_ARGS__ }; \
    positive(w, sizeof(w)/sizeof(*w), NULL, &r, NULL, 0); }
POS(p_positive_soa, r = rec_soa(), write_soa)
POS(p_positive_ns, r = rec_ns(1); bytes_t r2 = rec_ns(2); bs(&r, (char*)r2.b, r2.n), write_ns1, write_ns2)
POS(p_positive_a, bytes_t d = {0}; b32(&d, 0x7F000001); r = rec_q(1, 86400, &d), write_a)
POS(p_positive_aaaa, bytes_t d = {0}; b32(&d, 0); b32(&d, 0); b32(&d, 0); b32(&d, 1); r = rec_q(28, 86400, &d), write_aaaa)
POS(p_positive_caa, bytes_t d = {0}; b8(&d, 128); b8(&d, 5); bs(&d, "issue", 5); bs(&d, "letsencrypt.org", 15); r = rec_q(257, 60, &d), write_caa)
SM_HARNESS(p_positive_secret){
    size_t n = sm_range(0, 255);
    lstr_t s = { .str = sm_buf(n), .len = n };
    bytes_t r = {0};
    b16(&r, 0xC00C); b16(&r, 16); b16(&r, 1); b32(&r, 60); b16(&r, (unsigned)n + 1); b8(&r, (unsigned)n);
    wmax = 102;   // asserted by p_handle
    writer_f w[] = { write_secret };
    positive(w, 1, &s, &r, s.str, n);
}
/* ---- which answer: handle_packet down to the two response writers ---- */
static struct { unsigned n, rcode; bool neg, aa, soa; writer_f w0, w1; size_t nw, cap; lstr_t sec; } did;
static void answered(const dns_pkt_t *pkt, const char *out, size_t cap){
    SM_ASSERT(pkt_ok() && is_pkt(pkt) && out == gh_out, "answers a well-formed query");
    did.n++;
    did.cap = cap;
}
static size_t gh_ret;
size_t c_negative_resp(const dns_pkt_t pkt, uint16_t rcode, bool aa, bool soa, char *out, size_t cap){
    answered(&pkt, out, cap);
    did.neg = true; did.rcode = rcode; did.aa = aa; did.soa = soa;
    return gh_ret;
}
size_t c_positive_resp(writer_f *writers, size_t nwriters, void *arg, const dns_pkt_t pkt, char *out, size_t cap){
    answered(&pkt, out, cap);
    did.nw = nwriters;
    did.w0 = writers[0];
    if(nwriters > 1) did.w1 = writers[1];
    if(arg) did.sec = *(lstr_t*)arg;
    if(writers[0] == write_secret) SM_ASSERT(xW(12, 0, false) <= 102, "a challenge name is short enough for any secret");
    return gh_ret;
}
static const dstr_t *store_ret; static unsigned store_n; static lstr_t store_asked;
const dstr_t sm_unsure_d; const dstr_t *UNSURE = &sm_unsure_d;
static const dstr_t *sm_iget(kvp_i *k, lstr_t u){ (void)k; store_n++; store_asked = u; return store_ret; }
// the text at offset p of the datagram is word k of the four, whatever the case
_Bool __CPROVER_uninterpreted_IEQ(size_t p, unsigned k);
static const char *const word[4] = { "com", "splintermail", "user", "_acme-challenge" };
static const size_t wordlen[4] = { 3, 12, 4, 15 };
bool c_lstr_ieq(const lstr_t a, const lstr_t b){
    unsigned k = b.len == 3 ? 0 : b.len == 12 ? 1 : b.len == 4 ? 2 : 3;
    SM_ASSERT(b.len == wordlen[k], "compares with one of the zone's words");
    for(size_t i = 0; i < 15; i++) if(i < wordlen[k]) SM_ASSERT(b.str[i] == word[k][i], "compares with one of the zone's words");
    size_t p = (size_t)(a.str - (const char*)gh_q);
    SM_ASSERT(a.str == (const char*)gh_q + p && p <= gh_qlen && a.len <= gh_qlen - p, "compares text of the datagram");
    return a.len == b.len && __CPROVER_uninterpreted_IEQ(p, k);
}
// label j of the name, from the end, is word k
static bool label_is(size_t j, unsigned k){
    size_t c = xC(12, 0, false);
    if(j >= c) return false;
    size_t p = xP(c - 1 - j);
    return gh_q[p-1] == wordlen[k] && __CPROVER_uninterpreted_IEQ(p, k);
}
int strncasecmp(const char *a, const char *b, size_t n){
    for(size_t i = 0; i < n; i++){
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if(x >= 'A' && x <= 'Z') x = (unsigned char)(x + 32);
        if(y >= 'A' && y <= 'Z') y = (unsigned char)(y + 32);
        if(x != y) return x < y ? -1 : 1;
        if(!x) return 0;
    }
    return 0;
}
SM_HARNESS(p_lstr_ieq){
    unsigned k = sm_range(0, 3);
    size_t n = sm_len(0);
    lstr_t a = { .str = sm_buf(n), .len = n }, b = { .str = word[k], .len = wordlen[k] };
    bool r = lstr_ieq(a, b);
    bool want = n == wordlen[k];
    if(want) for(size_t i = 0; i < wordlen[k]; i++){
        unsigned char c = (unsigned char)a.str[i];
        if(c >= 'A' && c <= 'Z') c = (unsigned char)(c + 32);
        if(c != (unsigned char)word[k][i]) want = false;
    }
    SM_ASSERT(r == want, "equal up to ASCII case");
    if(r) SM_COVER("equal");
}
SM_HARNESS(p_handle){
    datagram();
    gh_w0 = 12;
    size_t rcap = sm_len(0);
    empty_out(rcap);
    gh_ret = sm_u64();
    dstr_t sec = { .data = (char*)&sec, .len = sm_u64() };
    unsigned kind = sm_u8();
    store_ret = kind == 0 ? NULL : kind == 1 ? UNSURE : &sec;
    kvp_i kvp = { .iget = sm_iget };
    size_t got = handle_packet((char*)gh_q, gh_qlen, &kvp, gh_out, rcap);
    bool zone = false; size_t nl = 0; unsigned t = 0;
    if(rcap >= 512 && gh_qlen >= 12 && pkt_ok() && gd.qd == 1){
        t = gd.type;
        nl = xC(12, 0, false);
        zone = !(gd.flags & 0xF800) && t != 0 && gd.class == 1
            && label_is(0, 0) && label_is(1, 1) && label_is(2, 2);
    }
    SM_ASSERT(did.n == (zone ? 1u : 0u) && got == (zone ? gh_ret : 0), "one answer for a query in the zone, none for anything else");
    bool acme = zone && nl == 5 && !(t > 16 && t != 28 && t != 257) && label_is(4, 3);
    SM_ASSERT(store_n == (acme ? 1u : 0u), "the store is asked exactly for challenge names");
    if(!zone){ SM_COVER("silence"); return; }
    size_t cap = 512;
    if(gd.edns){
        cap = gd.udp;
        if(cap < 512) cap = 512;
        if(cap > rcap) cap = rcap;
    }
    SM_ASSERT(did.cap == cap, "the size the requestor can take");
    if(t > 16 && t != 28 && t != 257){
        SM_COVER("notimpl");
        SM_ASSERT(did.neg && did.rcode == 4 && !did.aa && !did.soa, "types we do not implement");
        return;
    }
    bool none = did.neg && did.rcode == 0 && did.aa && did.soa;
    if(nl == 3){
        if(t == 6) SM_ASSERT(!did.neg && did.nw == 1 && did.w0 == write_soa, "SOA of the zone");
        else if(t == 2) SM_ASSERT(!did.neg && did.nw == 2 && did.w0 == write_ns1 && did.w1 == write_ns2, "NS of the zone");
        else if(t == 257) SM_ASSERT(!did.neg && did.nw == 1 && did.w0 == write_caa, "CAA of the zone");
        else SM_ASSERT(none, "no other record at the zone");
        SM_COVER("zone");
    }else if(nl == 4){
        if(t == 1) SM_ASSERT(!did.neg && did.nw == 1 && did.w0 == write_a, "A of a user");
        else if(t == 28) SM_ASSERT(!did.neg && did.nw == 1 && did.w0 == write_aaaa, "AAAA of a user");
        else if(t == 257) SM_ASSERT(!did.neg && did.nw == 1 && did.w0 == write_caa, "CAA of a user");
        else SM_ASSERT(none, "no other record at a user");
        SM_COVER("user");
    }else if(acme){
        size_t up = xP(nl - 1 - 3);
        SM_ASSERT(store_asked.str == (const char*)gh_q + up && store_asked.len == gh_q[up - 1], "asked for the user's label");
        if(t != 16) SM_ASSERT(none, "no other record at a challenge");
        else if(kind == 0){ SM_ASSERT(none, "a confident no"); SM_COVER("no"); }
        else if(kind == 1){ SM_ASSERT(did.neg && did.rcode == 2 && !did.soa, "no confident answer"); SM_COVER("unsure"); }
        else{ SM_ASSERT(!did.neg && did.nw == 1 && did.w0 == write_secret && did.sec.str == sec.data && did.sec.len == sec.len, "the secret"); SM_COVER("secret"); }
    }else{
        SM_ASSERT(did.neg && did.rcode == 3 && did.aa && did.soa, "no such name");
        SM_COVER("nxdomain");
    }
}
