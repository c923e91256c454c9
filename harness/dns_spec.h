/* Executable specification of the DNS server's answer to one datagram,
   written from RFC 1035/6891 and the zone's documentation; used by the search. */
#define SPEC_MAXNAME 255
typedef struct { size_t end; unsigned n; size_t pos[128]; unsigned len[128]; size_t total; } name_t;
// a name: labels of 1..63 bytes, 255 in all, pointers anywhere but not pointer to pointer
static bool spec_name(const uint8_t *q, size_t n, size_t p, name_t *out){
    bool jumped = false, wp = false;
    *out = (name_t){0};
    size_t total = 0;
    for(;;){
        if(p >= n) return false;
        unsigned l = q[p];
        if(l >= 0xC0){
            if(wp || p + 1 >= n) return false;
            wp = true;
            if(!jumped){ jumped = true; out->end = p + 2; }
            p = (l & 0x3Fu) * 256u + q[p+1];
            continue;
        }
        wp = false;
        if(l > 63 || p + 1 + l > n) return false;
        total += l + 1;
        if(total > 255) return false;
        if(l == 0){
            if(!jumped) out->end = p + 1;
            out->total = total;
            return true;
        }
        out->pos[out->n] = p + 1;
        out->len[out->n++] = l;
        p += 1 + l;
    }
}
static unsigned spec16(const uint8_t *q, size_t p){ return q[p] * 256u + q[p+1]; }
typedef struct { name_t qname; unsigned qtype, qclass; bool edns; unsigned udp; } query_t;
// well-formed as a whole?  (qdcount == 1 only; otherwise there is no answer anyway)
static bool spec_query(const uint8_t *q, size_t n, query_t *out){
    *out = (query_t){0};
    if(n < 12) return false;
    if(spec16(q, 4) != 1) return false;
    if(!spec_name(q, n, 12, &out->qname)) return false;
    size_t p = out->qname.end;
    if(p + 4 > n) return false;
    out->qtype = spec16(q, p); out->qclass = spec16(q, p + 2);
    p += 4;
    for(int sec = 0; sec < 3; sec++){
        unsigned cnt = spec16(q, 6 + 2*(size_t)sec);
        for(unsigned i = 0; i < cnt; i++){
            name_t nm;
            size_t start = p;
            if(!spec_name(q, n, p, &nm)) return false;
            p = nm.end;
            if(p + 10 > n) return false;
            unsigned type = spec16(q, p), cls = spec16(q, p+2), rdlen = spec16(q, p+8);
            p += 10;
            if(p + rdlen > n) return false;
            if(sec == 2 && type == 41){
                if(out->edns) return false;
                if(q[start] != 0) return false;
                out->edns = true;
                out->udp = cls;
                for(size_t o = p; o < p + rdlen; ){
                    if(o + 4 > p + rdlen) return false;
                    unsigned ol = spec16(q, o + 2);
                    if(o + 4 + ol > p + rdlen) return false;
                    o += 4 + ol;
                }
            }
            p += rdlen;
        }
    }
    return true;
}
static bool spec_label_is(const uint8_t *q, const name_t *nm, unsigned fromend, const char *s){
    if(fromend >= nm->n) return false;
    size_t p = nm->pos[nm->n - 1 - fromend];
    unsigned l = nm->len[nm->n - 1 - fromend];
    if(l != strlen(s)) return false;
    for(unsigned i = 0; i < l; i++){
        unsigned char a = q[p+i];
        if(a >= 'A' && a <= 'Z') a = (unsigned char)(a + 32);
        if(a != (unsigned char)s[i]) return false;
    }
    return true;
}
typedef struct { uint8_t b[2000]; size_t n; } bytes_t;
static void b8(bytes_t *b, unsigned v){ b->b[b->n++] = (uint8_t)v; }
static void b16(bytes_t *b, unsigned v){ b8(b, v >> 8); b8(b, v & 255); }
static void b32(bytes_t *b, uint32_t v){ b16(b, v >> 16); b16(b, v & 0xffff); }
static void bs(bytes_t *b, const char *s, size_t n){ for(size_t i = 0; i < n; i++) b8(b, (unsigned char)s[i]); }
#define bname(b, wire) bs(b, wire, sizeof(wire))   // with its final zero
#define ZONE "\4user\14splintermail\3com"
static void brr(bytes_t *b, unsigned type, uint32_t ttl, const bytes_t *rd){
    b16(b, type); b16(b, 1); b32(b, ttl); b16(b, (unsigned)rd->n); bs(b, (const char*)rd->b, rd->n);
}
static bytes_t rec_soa(void){
    bytes_t rd = {0}, r = {0};
    bname(&rd, "\3ns1\14splintermail\3com"); bname(&rd, "\12hostmaster\14splintermail\3com");
    b32(&rd, 20231108); b32(&rd, 300); b32(&rd, 60); b32(&rd, 86400); b32(&rd, 60);
    bname(&r, ZONE); brr(&r, 6, 86400, &rd);
    return r;
}
static bytes_t rec_ns(int k){
    bytes_t rd = {0}, r = {0};
    bname(&rd, "\3ns1\14splintermail\3com");
    rd.b[3] = (uint8_t)('0' + k);
    bname(&r, ZONE); brr(&r, 2, 86400, &rd);
    return r;
}
static bytes_t rec_q(unsigned type, uint32_t ttl, const bytes_t *rd){
    bytes_t r = {0};
    b16(&r, 0xC00C); brr(&r, type, ttl, rd);
    return r;
}
/* secret: NULL absent, unsure: no confident answer */
static void spec_answer(const uint8_t *q, size_t n, const char *secret, size_t slen, bool unsure, size_t rcap, bytes_t *out, bool *asks, size_t *upos, size_t *ulen){
    query_t qu;
    out->n = 0;
    *asks = false;
    if(!spec_query(q, n, &qu)) return;
    if(q[2] & 0xF8) return;                              // a response, or not a standard query
    if(qu.qclass != 1 || qu.qtype == 0) return;
    if(!spec_label_is(q, &qu.qname, 0, "com") || !spec_label_is(q, &qu.qname, 1, "splintermail") || !spec_label_is(q, &qu.qname, 2, "user")) return;
    size_t cap = qu.edns ? qu.udp : 512;
    if(cap < 512) cap = 512;
    if(cap > rcap) cap = rcap;
    bytes_t ans[2]; unsigned nans = 0; bool soa = false; unsigned rcode = 0; bool aa = true;
    unsigned t = qu.qtype, nl = qu.qname.n;
    bytes_t rd = {0};
    if(t > 16 && t != 28 && t != 257){ rcode = 4; aa = false; }
    else if(nl == 3){
        if(t == 6) ans[nans++] = rec_soa();
        else if(t == 2){ ans[nans++] = rec_ns(1); ans[nans++] = rec_ns(2); }
        else if(t == 257){ b8(&rd, 128); b8(&rd, 5); bs(&rd, "issue", 5); bs(&rd, "letsencrypt.org", 15); ans[nans++] = rec_q(257, 60, &rd); }
        else soa = true;
    }else if(nl == 4){
        if(t == 1){ b32(&rd, 0x7F000001); ans[nans++] = rec_q(1, 86400, &rd); }
        else if(t == 28){ b32(&rd, 0); b32(&rd, 0); b32(&rd, 0); b32(&rd, 1); ans[nans++] = rec_q(28, 86400, &rd); }
        else if(t == 257){ b8(&rd, 128); b8(&rd, 5); bs(&rd, "issue", 5); bs(&rd, "letsencrypt.org", 15); ans[nans++] = rec_q(257, 60, &rd); }
        else soa = true;
    }else if(nl == 5 && spec_label_is(q, &qu.qname, 4, "_acme-challenge")){
        *asks = true;
        *upos = qu.qname.pos[1]; *ulen = qu.qname.len[1];
        if(t != 16) soa = true;
        else if(unsure) rcode = 2;
        else if(!secret) soa = true;
        else { b8(&rd, (unsigned)slen); bs(&rd, secret, slen); ans[nans++] = rec_q(16, 60, &rd); }
    }else{ rcode = 3; soa = true; }
    // lay it out; the EDNS record outranks the others
    size_t limit = cap - (qu.edns ? 11 : 0);
    bool tc = false;
    unsigned an = 0, ns = 0;
    bytes_t b = {0};
    for(int i = 0; i < 12; i++) b8(&b, 0);
    for(unsigned i = 0; i < nl; i++){ b8(&b, qu.qname.len[i]); bs(&b, (const char*)q + qu.qname.pos[i], qu.qname.len[i]); }
    b8(&b, 0); b16(&b, qu.qtype); b16(&b, qu.qclass);
    for(unsigned i = 0; i < nans && !tc; i++){
        if(b.n + ans[i].n > limit) tc = true; else { bs(&b, (char*)ans[i].b, ans[i].n); an++; }
    }
    if(soa){
        bytes_t s = rec_soa();
        if(b.n + s.n > limit) tc = true; else { bs(&b, (char*)s.b, s.n); ns++; }
    }
    if(qu.edns){ b8(&b, 0); b16(&b, 41); b16(&b, 1280); b32(&b, 0); b16(&b, 0); }
    size_t total = b.n;
    b.n = 0;
    b16(&b, spec16(q, 0));
    b8(&b, 0x80u | (aa ? 4u : 0) | (tc ? 2u : 0) | (q[2] & 1u));
    b8(&b, rcode);
    b16(&b, 1); b16(&b, an); b16(&b, ns); b16(&b, qu.edns);
    b.n = total;
    *out = b;
}
