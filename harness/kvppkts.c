/* kvpsync wire format: server/libkvpsync/pkts.c.  No loops, so the entries run
   the real code end to end and a counterexample replays directly. */
#include "sm.h"
#ifdef SM_CBMC
#include "libdstr/common.c"
#endif
#include "server/libkvpsync/libkvpsync.h"
#ifdef SM_PROOF
/* contract of memcpy: both regions valid; dst[0..n) becomes src[0..n).  The
   calls are recorded; only the witness byte is materialized. */
typedef struct { const void *dst, *src; size_t n; } cpy_t;
static cpy_t gh_cpy[2];
static unsigned gh_ncpy;
static size_t gh_w;
static void *sm_memcpy(void *dst, const void *src, size_t n){
    SM_ASSERT(n == 0 || __CPROVER_r_ok(src, n), "memcpy reads only valid memory");
    SM_ASSERT(n == 0 || __CPROVER_w_ok(dst, n), "memcpy writes only valid memory");
    SM_ASSERT(gh_ncpy < 2, "at most a key and a value are copied");
    if(gh_ncpy < 2) gh_cpy[gh_ncpy++] = (cpy_t){dst, src, n};
    if(gh_w < n) ((char*)dst)[gh_w] = ((const char*)src)[gh_w];
    return dst;
}
#define memcpy sm_memcpy
#endif
#include "server/libkvpsync/pkts.c"
#undef memcpy

#define MAXPKT 529

/* ---- the PROTOCOL file's packet layout, as offsets ---- */
static uint64_t be(const uint8_t *p, size_t n){
    uint64_t v = 0;
    for(size_t i = 0; i < n; i++) v = (v << 8) | p[i];
    return v;
}
typedef struct {
    bool ok;
    size_t need, kpos, vpos;
    unsigned type, klen, vlen;
    uint64_t expiry;
    uint32_t sync_id, update_id, resync_id, delete_id;
} spec_t;
static spec_t spec_parse(const uint8_t *p, size_t n){
    spec_t s = { .need = 17 };
    if(n < 17) return s;
    s.expiry = be(p, 8);
    s.sync_id = (uint32_t)be(p + 8, 4);
    s.update_id = (uint32_t)be(p + 12, 4);
    s.type = p[16];
    if(s.type > 4) return s;
    if(s.type < 2){ s.ok = true; return s; }
    if(s.type == 2){
        s.need = 21;
        if(s.update_id != 1 || n < 21) return s;
        s.resync_id = (uint32_t)be(p + 17, 4);
        s.ok = true;
        return s;
    }
    if(n < 18) return s;
    s.klen = p[17];
    s.kpos = 18;
    size_t pos = 18 + s.klen;
    if(s.type == 4){
        s.need = pos + 4;
        if(n < s.need) return s;
        s.delete_id = (uint32_t)be(p + pos, 4);
        s.ok = true;
        return s;
    }
    if(n < pos + 1) return s;
    s.vlen = p[pos];
    s.vpos = pos + 1;
    s.need = pos + 1 + s.vlen;
    if(n < s.need) return s;
    s.ok = true;
    return s;
}

/* every datagram, of any length: accepted iff the layout above fits in it, and
   then every field is the one on the wire; no byte outside it is read */
SM_HARNESS(p_update_read){
#ifdef SM_PROOF
    size_t n = sm_len(0);
#else
    size_t n = sm_range(0, 560);
#endif
    dstr_t in = sm_dstr_in(n);
    const uint8_t *p = (const uint8_t*)in.data;
    spec_t s = spec_parse(p, n);
    kvp_update_t u;
    size_t w = sm_u8();
#ifdef SM_PROOF
    gh_w = w;
    gh_ncpy = 0;
#endif
    bool ok = kvpsync_update_read(in, &u);
    SM_ASSERT(ok == s.ok, "accepted iff well-formed");
    SM_COVER("read returns");
    if(!ok) return;
    SM_ASSERT(u.ok_expiry == s.expiry && u.sync_id == s.sync_id && u.update_id == s.update_id, "common fields");
    SM_ASSERT(u.type == s.type, "type");
    SM_ASSERT(u.resync_id == s.resync_id && u.delete_id == s.delete_id, "conditional fields are the wire's, or zero");
    SM_ASSERT(u.klen == s.klen && u.vlen == s.vlen, "lengths");
    if(w < s.klen) SM_ASSERT((uint8_t)u.key[w] == p[s.kpos + w], "key byte");
    if(w < s.vlen) SM_ASSERT((uint8_t)u.val[w] == p[s.vpos + w], "value byte");
}
/* every valid update: written in the documented layout and read back equal */
static void roundtrip(unsigned type){
    kvp_update_t u = {0};
    u.ok_expiry = sm_u64(); u.sync_id = sm_u32(); u.update_id = sm_u32();
    u.type = (kvp_update_type_e)type;
    u.resync_id = sm_u32(); u.delete_id = sm_u32();
    u.klen = sm_u8(); u.vlen = sm_u8();
    // contents: one arbitrary byte at an arbitrary place stands for all
    size_t w = sm_u8(); uint8_t x = sm_u8(), y = sm_u8();
    if(w < KVPSYNC_MAX_LEN){ u.key[w] = (char)x; u.val[w] = (char)y; }
    bool valid = u.type != KVP_UPDATE_START || u.update_id == 1;
    size_t pre = sm_range(0, 3);       // whatever is already in the buffer
    size_t cap = sm_range(0, MAXPKT + 3);
    SM_ASSUME(pre <= cap);
    static char mem[MAXPKT + 3];
    dstr_t out = { .data = mem, .len = pre, .size = cap, .fixed_size = true };
#ifdef SM_PROOF
    gh_w = w;
    gh_ncpy = 0;
#endif
    derr_t e = kvpsync_update_write(&u, &out);
    if(is_error(e)){
        size_t need = u.type < 2 ? 17 : u.type == 2 ? 21 : u.type == 4 ? 22u + u.klen : 19u + u.klen + u.vlen;
        SM_ASSERT(!valid || pre + need > cap, "writing a valid update fails only for lack of space");
        DROP_VAR(&e);
        return;
    }
    SM_ASSERT(valid, "an invalid update is not written");
    SM_ASSERT(out.len <= cap && out.len - pre <= MAXPKT, "no packet exceeds the documented maximum");
    const uint8_t *p = (const uint8_t*)mem + pre;
    spec_t s = spec_parse(p, out.len - pre);
    SM_ASSERT(s.ok && s.need == out.len - pre, "the layout is the documented one, with nothing after it");
#ifdef SM_PROOF
    gh_ncpy = 0;
#endif
    kvp_update_t v;
    dstr_t in = { .data = mem + pre, .len = out.len - pre, .size = out.len - pre, .fixed_size = true };
    SM_ASSERT(kvpsync_update_read(in, &v), "what is written can be read");
    SM_COVER("roundtrip");
    SM_ASSERT(v.ok_expiry == u.ok_expiry && v.sync_id == u.sync_id && v.update_id == u.update_id && v.type == u.type, "roundtrip: common fields");
    if(u.type == KVP_UPDATE_START) SM_ASSERT(v.resync_id == u.resync_id, "roundtrip: resync_id");
    if(u.type >= KVP_UPDATE_INSERT){
        SM_ASSERT(v.klen == u.klen, "roundtrip: key length");
        if(w < u.klen) SM_ASSERT(v.key[w] == u.key[w], "roundtrip: key byte");
    }
    if(u.type == KVP_UPDATE_DELETE) SM_ASSERT(v.delete_id == u.delete_id, "roundtrip: delete_id");
    if(u.type == KVP_UPDATE_INSERT){
        SM_ASSERT(v.vlen == u.vlen, "roundtrip: value length");
        if(w < u.vlen) SM_ASSERT(v.val[w] == u.val[w], "roundtrip: value byte");
    }
}
SM_HARNESS(p_roundtrip_empty){ roundtrip(KVP_UPDATE_EMPTY); }
SM_HARNESS(p_roundtrip_flush){ roundtrip(KVP_UPDATE_FLUSH); }
SM_HARNESS(p_roundtrip_start){ roundtrip(KVP_UPDATE_START); }
SM_HARNESS(p_roundtrip_insert){ roundtrip(KVP_UPDATE_INSERT); }
SM_HARNESS(p_roundtrip_delete){ roundtrip(KVP_UPDATE_DELETE); }
SM_HARNESS(p_write_badtype){
    kvp_update_t u = {0};
    u.type = (kvp_update_type_e)sm_range(5, 255);
    u.update_id = sm_u32();
    static char mem[MAXPKT];
    dstr_t out = { .data = mem, .size = MAXPKT, .fixed_size = true };
    derr_t e = kvpsync_update_write(&u, &out);
    SM_ASSERT(is_error(e), "an update of no known type is not written");
    DROP_VAR(&e);
    SM_COVER("badtype");
}
SM_HARNESS(s_roundtrip){ roundtrip((unsigned)sm_range(0, 4)); }
SM_HARNESS(p_ack){
    size_t n = sm_len(12);
    dstr_t in = sm_dstr_in(n);
    kvp_ack_t a;
    bool ok = kvpsync_ack_read(in, &a);
    SM_ASSERT(ok == (n >= 8), "an ack is accepted iff it is whole");
    if(!ok) return;
    const uint8_t *p = (const uint8_t*)in.data;
    SM_ASSERT(a.sync_id == be(p, 4) && a.update_id == be(p + 4, 4), "ack fields");
    char mem[8];
    dstr_t out = { .data = mem, .size = sm_range(0, 8), .fixed_size = true };
    derr_t e = kvpsync_ack_write(&a, &out);
    SM_ASSERT(is_error(e) == (out.size < 8), "writing an ack fails only for lack of space");
    if(is_error(e)){ DROP_VAR(&e); return; }
    SM_ASSERT(out.len == 8, "ack length");
    size_t w = sm_range(0, 7);
    SM_ASSERT((uint8_t)mem[w] == p[w], "ack roundtrip");
    SM_COVER("ack");
}
