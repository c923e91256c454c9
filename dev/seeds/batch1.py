SEEDS=[
dict(id="d04-port", prop="D04", needs="a client behind one IPv6 /64 that varies its source port between queries",
 breaks="each source port gets its own rate-limit bucket, so one host can draw many times its allowance",
 edits=[("server/dns/rrl.c","        return hash_uint(keys[0]) ^ hash_uint(keys[1]);","        return hash_uint(keys[0]) ^ hash_uint(keys[1] + sin6->sin6_port);")],
 demo=r'''
#include "server/dns/libdns.h"
#include <stdio.h>
#include <string.h>
int main(void){
    rrl_t rrl; derr_t e = rrl_init(&rrl, 1021);
    if(e.type) return 97;
    int granted = 0;
    for(int p = 1; p <= 200; p++){
        struct sockaddr_in6 s; memset(&s, 0, sizeof(s));
        s.sin6_family = AF_INET6; s.sin6_addr.s6_addr[0] = 0x20; s.sin6_addr.s6_addr[7] = 9;
        s.sin6_addr.s6_addr[15] = 5;
        s.sin6_port = htons(1024 + p);
        granted += rrl_check(&rrl, (struct sockaddr*)&s, (xtime_t)1234567 * SECOND + p);
    }
    printf("granted %d\n", granted);
    return granted > 8;
}
''', cc=["_build/server/dns/libdns.a","_build/libdstr/libdstr.a"]),
dict(id="e01-dangling", prop="E01", needs="a base64url string of length 2 mod 4 whose last character carries non-zero dangling bits only in positions 4-5",
 breaks="two different strings decode to the same bytes: a non-canonical encoding is accepted",
 edits=[("libacme/b64url.c","    if(l != 0){\n        // not a valid b64","    if(l > 0x3f){\n        // not a valid b64")],
 demo=r'''
#include "libacme/libacme.h"
#include <stdio.h>
int main(void){
    DSTR_VAR(out, 64);
    derr_type_t t = b64url2bin_quiet(DSTR_LIT("AB"), &out);
    printf("AB: %s\n", t == E_NONE ? "accepted" : "refused");
    return t == E_NONE;
}
''', cc=["_build/libacme/libacme.a","_build/libdstr/libdstr.a"]),
dict(id="k01-vlen", prop="K01", needs="an INSERT datagram shorter than its value length, received into a buffer with stale bytes behind it",
 breaks="a truncated INSERT is accepted and bytes that were never on the wire become part of the value",
 edits=[("server/libkvpsync/pkts.c","    if(pos + out->vlen > rbuf.len) return false;\n    memcpy(out->val","    if(pos + out->vlen > MAX(rbuf.len, 255)) return false;\n    memcpy(out->val")],
 demo=r'''
#include "server/libkvpsync/libkvpsync.h"
#include <stdio.h>
#include <string.h>
int main(void){
    char buf[600]; memset(buf, 'S', sizeof(buf));
    DSTR_VAR(pkt, 529);
    kvp_update_t up = { .ok_expiry = 1, .sync_id = 2, .update_id = 3, .type = KVP_UPDATE_INSERT, .klen = 3, .vlen = 100 };
    memcpy(up.key, "abc", 3); memset(up.val, 'v', 100);
    derr_t e = kvpsync_update_write(&up, &pkt);
    if(e.type) return 97;
    memcpy(buf, pkt.data, pkt.len - 40);
    dstr_t in = { .data = buf, .len = pkt.len - 40, .size = sizeof(buf), .fixed_size = true };
    kvp_update_t out;
    bool ok = kvpsync_update_read(in, &out);
    printf("truncated insert: %s\n", ok ? "accepted" : "refused");
    return ok;
}
''', cc=["_build/server/libkvpsync/libkvpsync.a","_build/libdstr/libdstr.a"]),
dict(id="e02-colon", prop="E02", needs="a decimal number string with a colon in it",
 breaks="a byte that is not a digit is read as the digit ten: 12:5 parses as a number",
 edits=[("libdstr/cvt.c","static uintmax_t read_base10(char c){\n    if(c >= '0' && c <= '9'){","static uintmax_t read_base10(char c){\n    if(c >= '0' && c <= '9' + 1){")],
 demo=r"""
#include "libdstr/libdstr.h"
#include <stdio.h>
int main(void){
    uint64_t u = 0;
    derr_type_t t = dstr_tou64_quiet(DSTR_LIT("12:5"), &u, 10);
    printf("%d %lu\n", t == E_NONE, (long)u);
    return t == E_NONE;
}
""", cc=["_build/libdstr/libdstr.a"]),
dict(id="e03-surrogate", prop="E03", needs="the UTF-8 bytes ED BF BF, the last code point of the surrogate range",
 breaks="a surrogate is delivered as a code point",
 edits=[("libdstr/unicode.c","    if(codepoint >= 0xD800 && codepoint <= 0xDFFF){\n        LOG_DEBUG(\"utf8 value in utf16","    if(codepoint >= 0xD800 && codepoint < 0xDFFF){\n        LOG_DEBUG(\"utf8 value in utf16")],
 demo=r"""
#include "libdstr/libdstr.h"
#include <stdio.h>
static derr_type_t f(uint32_t cp, void *d){ printf("delivered U+%04X\n", cp); return E_NONE; }
int main(void){
    return utf8_decode_quiet("\xED\xBF\xBF", 3, f, NULL) == E_NONE;
}
""", cc=["_build/libdstr/libdstr.a"]),

dict(id="d01-optlen", prop="D01", needs="an EDNS record whose last option claims up to four bytes more than the record holds",
 breaks="a malformed query is accepted, and the option handed to readers runs past its record and past the datagram",
 edits=[("server/dns/parse.c","        if(len < used + optlen) return BP_ENDS_OPT_DATA_OVERRUN;\n","        if(len < rr.rdoff + optlen) return BP_ENDS_OPT_DATA_OVERRUN;\n")],
 demo=r"""
#include "server/dns/libdns.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
int main(void){
    unsigned char q[] = {
        0,1, 0,0, 0,1, 0,0, 0,0, 0,1,
        1,'x',0, 0,1, 0,1,
        0, 0,41, 4,0, 0,0,0,0, 0,8, 0,10, 0,8, 1,2,3,4 };
    char *p = malloc(sizeof(q)); memcpy(p, q, sizeof(q));
    dns_pkt_t pkt;
    size_t r = parse_pkt(&pkt, p, sizeof(q));
    printf("short option: %s\n", bp2str(r));
    return !is_bad_parse(r);
}
""", cc=["_build/server/dns/libdns.a","_build/server/libkvpsync/libkvpsync.a","_build/libdstr/libdstr.a"]),
dict(id="d02-labels", prop="D02", needs="a TXT query with one extra label below the challenge name",
 breaks="a name that does not exist is answered with the user's challenge secret instead of a name error",
 edits=[("server/dns/dns.c","    lstr_t rname[6] = {0};","    lstr_t rname[5] = {0};")],
 demo=r"""
#include "server/dns/libdns.h"
#include <stdio.h>
#include <string.h>
static dstr_t sec;
static const dstr_t *iget(kvp_i *k, lstr_t u){ (void)k; (void)u; return &sec; }
int main(void){
    sec = DSTR_LIT("the-secret");
    kvp_i kvp = { .iget = iget };
    const char name[] = "\3sub\17_acme-challenge\4user0\4user\14splintermail\3com";
    char q[512] = {0}; size_t n = 12;
    q[1] = 7; q[5] = 1;
    const char *labels[] = {"sub", "_acme-challenge", "bob", "user", "splintermail", "com"};
    (void)name;
    for(int i = 0; i < 6; i++){ size_t l = strlen(labels[i]); q[n++] = (char)l; memcpy(q + n, labels[i], l); n += l; }
    q[n++] = 0; q[n++] = 0; q[n++] = 16; q[n++] = 0; q[n++] = 1;
    char r[512];
    size_t len = handle_packet(q, n, &kvp, r, sizeof(r));
    if(len < 12) return 1;
    printf("rcode %d answers %d\n", r[3] & 15, r[7]);
    return !((r[3] & 15) == 3 && r[6] == 0 && r[7] == 0);
}
""", cc=["_build/server/dns/libdns.a","_build/server/libkvpsync/libkvpsync.a","_build/libdstr/libdstr.a"]),
]
