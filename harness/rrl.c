/* response rate limit: server/dns/rrl.c.  No loops: every entry runs the real
   code, so a counterexample of the verifier replays directly. */
#include "sm.h"
#include "server/dns/libdns.h"
#ifdef SM_CBMC
SM_DEFINE_ERRORS
#endif
#ifdef SM_PROOF
// ghost: is the bucket the code chose the (arbitrary) witness bucket?
static size_t gh_witness, gh_last;
static bool gh_hit;
static unsigned gh_window;
static void gh_rrl_window(unsigned w, bool matches){
    SM_ASSERT(matches, "the window is the current second, modulo 32");
    gh_window = w;
}
static void gh_rrl_bucket(size_t b){ gh_last = b; gh_hit = (b == gh_witness); }
#endif
#include "server/dns/rrl.c"

// an arbitrary IPv4 or IPv6 source address
static void any_addr(struct sockaddr_storage *ss){
    memset(ss, 0, sizeof(*ss));
    if(sm_bool()){
        struct sockaddr_in *sin = (struct sockaddr_in*)ss;
        sin->sin_family = AF_INET;
        sin->sin_port = sm_u16();
        sin->sin_addr.s_addr = sm_u32();
    }else{
        struct sockaddr_in6 *sin6 = (struct sockaddr_in6*)ss;
        sin6->sin6_family = AF_INET6;
        sin6->sin6_port = sm_u16();
        sin6->sin6_flowinfo = sm_u32();
        sin6->sin6_scope_id = sm_u32();
        uint32_t w[4] = { sm_u32(), sm_u32(), sm_u32(), sm_u32() };
        memcpy(&sin6->sin6_addr, w, 16);
    }
}
static const struct sockaddr *SA(struct sockaddr_storage *ss){ return (const struct sockaddr*)ss; }

#ifdef SM_PROOF
/* Contract of one call, for any table, any bucket contents, any source and
   time, seen from an arbitrary bucket j.  `hist` is the number of answers
   granted to j in the one-second window of `now`; the invariant is
        hist <= (stamp of the bucket == window ? count + 1 : 0)
   so hist <= 8 in every reachable state, after any history of calls. */
SM_HARNESS(p_rrl_check){
    size_t nb = sm_u64();
    SM_ASSUME(nb >= 1 && nb <= SM_HUGE);
    uint8_t *mem = malloc(nb);
    SM_ASSUME(mem != NULL);
    rrl_t rrl = { .buckets = mem, .nbuckets = nb };
    struct sockaddr_storage ss; any_addr(&ss);
    xtime_t now = sm_u64();
    size_t j = sm_u64();
    SM_ASSUME(j < nb);
    gh_witness = j;
    gh_last = SIZE_MAX;
    gh_hit = false;
    uint8_t before = mem[j];
    unsigned hist = (unsigned)sm_range(0, 8);
    gh_window = 99;
    bool ok = rrl_check(&rrl, SA(&ss), now);
    unsigned window = gh_window;
    SM_ASSERT(window < 32, "the window is computed");
    // the invariant, before the call
    SM_ASSUME(hist <= (unsigned)((before >> 3) == window ? (before & 7) + 1 : 0));
    uint8_t after = mem[j];
    SM_ASSERT(gh_last < nb, "every query is charged to a bucket");
    if(!gh_hit){
        SM_ASSERT(before == after, "a query charges only its own bucket");
        return;
    }
    SM_COVER("bucket is the witness");
    unsigned hist2 = hist + ok;
    SM_ASSERT(hist2 <= (unsigned)((after >> 3) == window ? (after & 7) + 1 : 0), "representation invariant is kept");
    SM_ASSERT(hist2 <= 8, "at most 8 answers per bucket in one window");
    if((before >> 3) != window){
        SM_ASSERT(ok, "the first query of a window is answered");
        SM_ASSERT(after == (window << 3), "a new window starts with a fresh count");
    }else{
        SM_ASSERT(ok == ((before & 7) < 7), "limited only once the count is used up");
        SM_ASSERT((after >> 3) == window && (after & 7) == (before & 7) + ok, "each answer is counted once");
    }
}
/* a table of size 0 turns the limiter off; init zeroes; */
SM_HARNESS(p_rrl_off){
    rrl_t rrl = {0};
    struct sockaddr_storage ss; any_addr(&ss);
    SM_ASSERT(rrl_check(&rrl, SA(&ss), sm_u64()), "no buckets: no limit");
    SM_COVER("off");
}
#endif

// another query from the same source: everything else about it may differ
static void same_source(struct sockaddr_storage *b, const struct sockaddr_storage *a){
    *b = *a;
    if(a->ss_family == AF_INET){
        struct sockaddr_in *sin = (struct sockaddr_in*)b;
        sin->sin_port = sm_u16();
        for(int i = 0; i < 8; i++) sin->sin_zero[i] = sm_u8();
    }else{
        struct sockaddr_in6 *sin6 = (struct sockaddr_in6*)b;
        sin6->sin6_port = sm_u16();
        sin6->sin6_flowinfo = sm_u32();
        sin6->sin6_scope_id = sm_u32();
        uint32_t w[2] = { sm_u32(), sm_u32() };
        memcpy((char*)&sin6->sin6_addr + 8, w, 8);
    }
}
/* two calls from the same network land in the same bucket */
SM_HARNESS(p_rrl_same_source){
    struct sockaddr_storage a, b;
    any_addr(&a); any_addr(&b);
    SM_ASSUME(a.ss_family == b.ss_family);
    if(a.ss_family == AF_INET){
        SM_ASSUME(((struct sockaddr_in*)&a)->sin_addr.s_addr == ((struct sockaddr_in*)&b)->sin_addr.s_addr);
    }else{
        uint32_t wa[4], wb[4];
        memcpy(wa, &((struct sockaddr_in6*)&a)->sin6_addr, 16);
        memcpy(wb, &((struct sockaddr_in6*)&b)->sin6_addr, 16);
        SM_ASSUME(wa[0] == wb[0] && wa[1] == wb[1]);
    }
    SM_ASSERT(hash_addr(SA(&a)) == hash_addr(SA(&b)), "one source (IPv4 address, IPv6 /64) is one bucket, whatever the port or interface id");
    SM_COVER("same source");
}
SM_HARNESS(s_rrl_same_source){
    struct sockaddr_storage a, b;
    any_addr(&a); same_source(&b, &a);
    SM_ASSERT(hash_addr(SA(&a)) == hash_addr(SA(&b)), "one source (IPv4 address, IPv6 /64) is one bucket, whatever the port or interface id");
}

/* search: a history of queries against a model that only counts */
SM_HARNESS(s_rrl){
    size_t nb = sm_range(1, 2);
    uint8_t *mem = sm_track(malloc(nb));
    SM_ASSUME(mem != NULL);
    memset(mem, 0xff, nb);          // stamp 31: start away from window 31
    rrl_t rrl = { .buckets = mem, .nbuckets = nb };
    struct sockaddr_storage a, b;
    any_addr(&a);
    same_source(&b, &a);
    uint64_t sec = sm_range(0, 0xffffffff);
    unsigned granted = 0;
    size_t nops = sm_range(1, 14);
    bool first = true;
    for(size_t i = 0; i < nops; i++){
        unsigned step = (unsigned)sm_range(0, 63);
        if(step > 31){ step = 0; }
        uint64_t prev = sec;
        sec += step;
        if(sec != prev){ granted = 0; }
        if(first) SM_ASSUME(sec % 32 != 31);
        first = false;
        uint64_t ns = sm_range(0, 999999999);
        bool ok = rrl_check(&rrl, SA(sm_bool() ? &a : &b), sec * SECOND + ns);
        SM_ASSERT(ok == (granted < 8), "exactly the first 8 queries of each second are answered");
        granted += ok;
    }
}
SM_HARNESS(s_rrl_other){
    // traffic of others never makes a lone source wait: with many buckets, a
    // source whose bucket differs is answered as if alone
    enum { NB = 251 };
    uint8_t *mem = sm_track(malloc(NB));
    SM_ASSUME(mem != NULL);
    memset(mem, 0, NB);
    rrl_t rrl = { .buckets = mem, .nbuckets = NB };
    struct sockaddr_storage a, b;
    any_addr(&a); any_addr(&b);
    uint64_t now = ((uint64_t)sm_u32()) * SECOND;
    SM_ASSUME((now / SECOND) % 32 != 0);
    uint8_t save[NB];
    bool ra = rrl_check(&rrl, SA(&a), now);
    SM_ASSERT(ra, "first query answered");
    memcpy(save, mem, NB);
    size_t ja = NB;
    for(size_t i = 0; i < NB; i++) if(mem[i]) { SM_ASSERT(ja == NB, "one query charges one bucket"); ja = i; }
    for(int i = 0; i < 9; i++) rrl_check(&rrl, SA(&b), now);
    SM_ASSERT(ja < NB, "the query is charged");
    if(mem[ja] == save[ja]) for(int i = 0; i < 7; i++)
        SM_ASSERT(rrl_check(&rrl, SA(&a), now), "an uncharged source keeps its 8 answers");
}
