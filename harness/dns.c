/* DNS: server/dns/parse.c, dns.c, write.c */
#include "sm.h"
#include "server/dns/libdns.h"
#ifdef SM_PROOF
#include "dns_ghost.h"
#endif
#include "server/dns/parse.c"
#include "server/dns/write.c"
#include "server/dns/dns.c"
#undef memcpy
#ifdef SM_PROOF
#include "dns_proof.h"
#endif

#ifndef SM_PROOF
#include "dns_spec.h"
typedef struct { kvp_i iface; const char *q; bool asked; const char *ustr; size_t ulen; const dstr_t *ret; } skvp_t;
const dstr_t sm_unsure_d; const dstr_t *UNSURE = &sm_unsure_d;
static const dstr_t *sm_iget(kvp_i *k, lstr_t u){
    skvp_t *s = (skvp_t*)k;
    s->asked = true;
    s->ustr = u.str; s->ulen = u.len;
    return s->ret;
}
static size_t put_label(uint8_t *p, size_t n, const char *s, bool upper){
    size_t l = strlen(s);
    p[n++] = (uint8_t)l;
    for(size_t i = 0; i < l; i++) p[n++] = (uint8_t)(upper && s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i]);
    return n;
}
#ifdef SM_D01
/* the parser alone: exactly the well-formed datagrams, and what they say */
static void run(uint8_t *q, size_t n, const char *secret, size_t slen, int kind, size_t rcap){
    (void)secret; (void)slen; (void)kind; (void)rcap;
    char *in = malloc(n); memcpy(in, q, n); in = sm_track(in);
    dns_pkt_t pkt;
    size_t r = parse_pkt(&pkt, in, n);
    SM_ASSERT(r == 0 || is_bad_parse(r), "parsed or an error");
    SM_ASSERT(n >= 12 || r != 0, "a short datagram is refused");
    SM_ASSERT(memcmp(in, q, n) == 0, "the query is not modified");
    if(n < 12 || spec16(q, 4) != 1) return;
    query_t qu;
    bool ok = spec_query(q, n, &qu);
    SM_ASSERT(ok == (r == 0), "accepted iff well-formed");
    if(!ok) return;
    SM_ASSERT(pkt.hdr.id == spec16(q, 0) && pkt.hdr.qr == q[2] >> 7 && pkt.hdr.opcode == ((q[2] >> 3) & 15) && pkt.hdr.rd == (q[2] & 1), "header");
    SM_ASSERT(pkt.qstn.qtype == qu.qtype && pkt.qstn.qclass == qu.qclass && pkt.qstn.off == 12 && pkt.qstn.ptr == in, "question");
    SM_ASSERT(pkt.edns.found == qu.edns && (!qu.edns || pkt.edns.udp_size == qu.udp), "EDNS");
    lstr_t ls[6] = {0};
    size_t nl = labels_read_reverse(in, 12, ls, 6);
    SM_ASSERT(nl == qu.qname.n, "labels");
    for(unsigned j = 0; j < nl && j < 6; j++)
        SM_ASSERT(ls[j].str == in + qu.qname.pos[nl-1-j] && ls[j].len == qu.qname.len[nl-1-j], "label");
}
#else
static void run(uint8_t *q, size_t n, const char *secret, size_t slen, int kind, size_t rcap){
    char *in = malloc(n); memcpy(in, q, n); in = sm_track(in);
    char *rb = malloc(rcap); memset(rb, 0xEE, rcap); rb = sm_track(rb);
    dstr_t sd = { .data = (char*)secret, .len = slen, .size = slen, .fixed_size = true };
    skvp_t kvp = { .iface = { sm_iget }, .ret = kind == 0 ? NULL : kind == 1 ? UNSURE : &sd };
    size_t got = handle_packet(in, n, &kvp.iface, rb, rcap);
    static bytes_t want; bool asks; size_t upos = 0, ulen = 0;
    spec_answer((uint8_t*)in, n, kind == 2 ? secret : NULL, slen, kind == 1, rcap, &want, &asks, &upos, &ulen);
    SM_ASSERT(memcmp(in, q, n) == 0, "the query is not modified");
    SM_ASSERT((got == 0) == (want.n == 0), "answered iff a valid query for our zone");
    SM_ASSERT(got <= rcap, "the answer fits the buffer");
    SM_ASSERT(got == want.n, "length of the answer");
    SM_ASSERT(kvp.asked == asks, "the store is asked exactly for challenge names");
    if(asks) SM_ASSERT(kvp.ustr == in + upos && kvp.ulen == ulen, "asked for the user's label");
    for(size_t i = 0; i < got; i++) SM_ASSERT((uint8_t)rb[i] == want.b[i], "byte of the answer");
}
#endif
/* built queries: valid ones and near misses */
SM_HARNESS(s_dns){
    static uint8_t q[1400];
    size_t n = 12;
    memset(q, 0, sizeof(q));
    static char secret[256];
    memset(secret, 's', sizeof(secret));
    unsigned flags = sm_u8();
    q[0] = sm_u8(); q[1] = sm_u8();
    q[2] = flags & 1 ? sm_u8() : (flags & 2 ? 1 : 0);
    q[3] = flags & 4 ? sm_u8() : 0;
    q[5] = flags & 8 ? sm_u8() % 3 : 1;
    // question name, label by label
    unsigned shape = sm_u8();
    unsigned nextra = shape & 7;
    bool ptr = shape & 8, up = shape & 16;
    for(unsigned i = 0; i < nextra; i++){
        unsigned k = sm_u8();
        if(k < 60) n = put_label(q, n, "_acme-challenge", up);
        else if(k < 100) n = put_label(q, n, "bob", up);
        else { unsigned l = k % 64; q[n++] = (uint8_t)l; for(unsigned j = 0; j < l; j++) q[n++] = (uint8_t)('a' + j); }
    }
    unsigned typ = sm_u8() % 16;
    unsigned qtype = (unsigned[]){1,2,6,16,28,257,0,5,17,41,255,16,1,16,28,256}[typ];
    if(!(shape & 32)) n = put_label(q, n, "user", up);
    if(!(shape & 64)) n = put_label(q, n, "splintermail", up);
    size_t com = n;
    if(!(shape & 128)) n = put_label(q, n, "com", up);
    if(ptr && sm_bool()){ q[n++] = 0xC0; size_t tgt = sm_u8(); q[n++] = (uint8_t)tgt; }
    else q[n++] = 0;
    (void)com;
    q[n++] = (uint8_t)(qtype >> 8); q[n++] = (uint8_t)qtype;
    q[n++] = 0; q[n++] = flags & 16 ? sm_u8() : 1;
    // other sections
    unsigned nrr = flags & 32 ? sm_u8() % 4 : (flags & 64 ? 1 : 0);
    for(unsigned i = 0; i < nrr; i++){
        unsigned k = sm_u8();
        size_t sec = k & 1 ? 11 : 7 + 2 * (size_t)((k >> 1) % 3);
        // sections must come in order; keep whatever happens
        q[sec]++;
        if(k & 8){ q[n++] = 0xC0; q[n++] = sm_u8(); }
        else if(k & 16) n = put_label(q, n, "x", false), q[n++] = 0;
        else q[n++] = 0;
        q[n++] = 0; q[n++] = k & 32 ? sm_u8() : 41;
        q[n++] = sm_u8() % 8; q[n++] = sm_u8();
        q[n++] = 0; q[n++] = 0; q[n++] = 0; q[n++] = 0;
        unsigned rl = k & 64 ? sm_u8() % 24 : 0;
        q[n++] = 0; q[n++] = (uint8_t)rl;
        for(unsigned j = 0; j < rl; j++) q[n++] = j % 4 == 3 || !(k & 128) ? sm_u8() : 0;
    }
    if(flags & 128){ size_t at = sm_u16() % n; q[at] = sm_u8(); n = sm_bool() ? sm_u16() % (n + 1) : n; }
    size_t slen = sm_u8();
    for(size_t i = 0; i < 4; i++) secret[sm_u8()] = (char)sm_u8();
    int kind = (int)sm_range(0, 3);
    run(q, n, secret, slen, kind == 3 ? 2 : kind, sm_bool() ? 1280 : 512 + sm_u16() % 800);
}
/* raw datagrams */
SM_HARNESS(s_dns_raw){
    static uint8_t q[512];
    size_t n = sm_range(0, 300);
    for(size_t i = 0; i < n; i++) q[i] = sm_u8();
    run(q, n, "secret", 6, 2, 1280);
}
#endif
