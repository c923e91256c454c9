/* Verification harness support.  One harness source is compiled three ways:

     SM_PROOF    goto-cc; in-place loop contracts active; lengths unbounded
     SM_BOUNDED  goto-cc; loop contracts off; lengths bounded; only used to
                 find a counterexample (or as a labelled bounded stand-in)
     SM_NATIVE   clang+ASan(+libFuzzer); the real code, used to replay or
                 search for a failing input after an obligation has failed

   Every nondeterministic input goes through sm_u8/16/32/64(), so a CBMC trace
   converts mechanically into the byte string that the native build reads. */
#ifndef SM_H
#define SM_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

#ifndef FILE_BASENAME
#define FILE_BASENAME "harness"
#endif

#if defined(SM_PROOF) || defined(SM_BOUNDED)
#define SM_CBMC 1
#endif

/* ---------------------------------------------------------------- CBMC */
#ifdef SM_CBMC

uint8_t sm_in8; uint16_t sm_in16; uint32_t sm_in32; uint64_t sm_in64;
uint8_t nondet_sm_u8(void); uint16_t nondet_sm_u16(void);
uint32_t nondet_sm_u32(void); uint64_t nondet_sm_u64(void);
static inline uint8_t sm_u8(void){ uint8_t v = nondet_sm_u8(); sm_in8 = v; return v; }
static inline uint16_t sm_u16(void){ uint16_t v = nondet_sm_u16(); sm_in16 = v; return v; }
static inline uint32_t sm_u32(void){ uint32_t v = nondet_sm_u32(); sm_in32 = v; return v; }
static inline uint64_t sm_u64(void){ uint64_t v = nondet_sm_u64(); sm_in64 = v; return v; }

#define SM_ASSERT(c, msg) __CPROVER_assert(c, msg)
#define SM_ASSUME(c) __CPROVER_assume(c)
#define SM_COVER(msg) __CPROVER_assert(0, "cover: " msg)

static inline void sm_fatal(void){
    __CPROVER_assert(0, "no fatal error: the process-aborting branch is unreachable");
    __CPROVER_assume(0);
}

#endif

/* ---------------------------------------------------------------- native */
#ifdef SM_NATIVE
#include <stdio.h>
#include <setjmp.h>
extern jmp_buf sm_jmp;
uint8_t sm_u8(void); uint16_t sm_u16(void); uint32_t sm_u32(void); uint64_t sm_u64(void);
void sm_assert_fail(const char *msg, const char *file, int line);
#define SM_ASSERT(c, msg) do { if(!(c)) sm_assert_fail(msg, __FILE__, __LINE__); } while(0)
#define SM_ASSUME(c) do { if(!(c)) longjmp(sm_jmp, 1); } while(0)
#define SM_COVER(msg) do {} while(0)
void *sm_track(void *p);
#endif

/* --------------------------------------------------------------- ranges */
#ifdef SM_CBMC
#define sm_track(p) (p)
#define SM_FIT(v, lo, hi) do { SM_ASSUME((v) >= (lo) && (v) <= (hi)); } while(0)
#else
#define SM_FIT(v, lo, hi) do { \
    if((v) < (lo) || (v) > (hi)) \
        v = (lo) + (v) % ((hi) - (lo) + 1 ? (hi) - (lo) + 1 : (hi)); \
} while(0)
#endif

// a value in lo..hi inclusive
static inline size_t sm_range(size_t lo, size_t hi){
    if(hi <= 0xff){ size_t v = sm_u8(); SM_FIT(v, lo, hi); return v; }
    if(hi <= 0xffff){ size_t v = sm_u16(); SM_FIT(v, lo, hi); return v; }
    size_t v = sm_u64(); SM_FIT(v, lo, hi); return v;
}
static inline bool sm_bool(void){ return sm_u8() & 1; }

/* a length: unbounded (up to the largest object CBMC can represent, 2^48) in
   the proof, at most `bounded` otherwise */
#define SM_HUGE ((size_t)1 << 48)
static inline size_t sm_len(size_t bounded){
#ifdef SM_PROOF
    (void)bounded;
    size_t v = sm_u64();
    SM_ASSUME(v <= SM_HUGE);
    return v;
#else
    return sm_range(0, bounded);
#endif
}

// exactly n bytes of arbitrary content
static inline char *sm_buf(size_t n){
    char *p = malloc(n);
    SM_ASSUME(p != NULL);
#ifndef SM_PROOF
    for(size_t sm_i = 0; sm_i < n; sm_i++) p[sm_i] = (char)sm_u8();
    p = sm_track(p);
#endif
    return p;
}

// same, but a loop in the proof as well: n must be a small constant bound
static inline char *sm_smallbuf(size_t n){
    char *p = malloc(n ? n : 1);
    SM_ASSUME(p != NULL);
    for(size_t sm_i = 0; sm_i < n; sm_i++) p[sm_i] = (char)sm_u8();
    p = sm_track(p);
    return p;
}

/* ------------------------------------------------------- loop contracts */
#ifdef SM_PROOF
#define SM_VERIFY 1
/* A loop whose body starts with SM_CUT(id, mods, inv, dec) is replaced by the
   three usual obligations: inv holds at the first arrival; from an arbitrary
   state satisfying inv (mods havocked) one iteration re-establishes inv at
   the next arrival; dec strictly decreases.  bin/framecheck.py checks on
   every run that mods lists all state that the loop body writes. */
#define SM_CUT_DECL(id) _Bool sm_seen_##id = 0; size_t sm_dec_##id = 0;
#define SM_CUT(id, mods, inv, dec) \
    if(!sm_seen_##id){ \
        __CPROVER_assert(inv, "loop " #id ": invariant holds on entry"); \
        sm_seen_##id = 1; \
        mods \
        __CPROVER_assume(inv); \
        sm_dec_##id = (dec); \
    }else{ \
        __CPROVER_assert(inv, "loop " #id ": invariant is preserved"); \
        __CPROVER_assert((size_t)(dec) < sm_dec_##id, "loop " #id ": variant decreases (termination)"); \
        __CPROVER_assume(0); \
    }
#define SM_MOD(x) { __typeof__(x) sm_t_; x = sm_t_; }
// same, for a _Bool
#define SM_MODB(x) { _Bool sm_t_ = sm_u8() & 1; x = sm_t_; }
/* same, for a variable which has this one value at every arrival; the
   invariant must state `x == (v)`, so that this is checked */
#define SM_MODPTR(x, v) { __typeof__(x) sm_t_ = (v); x = sm_t_; }
/* memory the body writes through a pointer: the harness supplies the havoc as
   a call to a function named sm_hv_* */
#define SM_MODMEM(havoc) { havoc; }
/* the body passes &x on, but x is the same again at every arrival: proved by
   the invariant or irrelevant, because the harness's stubs for the callees do
   not write it; the effect analysis cannot see that, so it is stated */
static inline void sm_keep_(const void *p){ (void)p; }
#define SM_KEEP(x) sm_keep_(&(x));
/* callees store through pointers, but only into objects that are local to the
   iteration or already listed */
static inline void sm_keepmem_(void){}
#define SM_KEEPMEM sm_keepmem_();
#define SM_GHOST(...) __VA_ARGS__
#else
#define SM_CUT_DECL(id)
#define SM_CUT(id, mods, inv, dec)
#define SM_GHOST(...)
#endif
#define SM_ANNOTATIONS 1

#include "libdstr/libdstr.h"

/* ------------------------------ error/trace plumbing in the CBMC builds */
#ifdef SM_CBMC
/* What this drops from the code under verification: the text of error and
   log messages (and so the evaluation of their format arguments).  Error
   types and control flow are kept exactly. */
#undef TRACE
#undef TRACE_ORIG
#undef ORIG
#undef ORIG_GO
#undef LOG_AS
#undef LOG_ERROR
#undef LOG_WARN
#undef LOG_INFO
#undef LOG_DEBUG
#undef LOG_FATAL
#define TRACE(e, fstr, ...) ((void)(e))
#define TRACE_ORIG(e, code, fstr, ...) ((e)->type = (code))
#define ORIG(e, code, fstr, ...) do { (e)->type = (code); return *(e); } while(0)
#define ORIG_GO(e, code, fstr, label, ...) do { (e)->type = (code); goto label; } while(0)
#define LOG_AS(...) ((void)0)
#define LOG_ERROR(...) ((void)0)
#define LOG_WARN(...) ((void)0)
#define LOG_INFO(...) ((void)0)
#define LOG_DEBUG(...) ((void)0)
#ifndef SM_FATAL_OK
#define LOG_FATAL(...) sm_fatal()
#else
#define LOG_FATAL(...) __CPROVER_assume(0)
#endif

#ifndef SM_REAL_LOGGER
void DUMP(derr_t e){ (void)e; }
void DUMP_DEBUG(derr_t e){ (void)e; }
derr_type_t pvt_trace_quiet(
    derr_t *e, const char* fstr, const fmt_i **args, size_t nargs
){ (void)e; (void)fstr; (void)args; (void)nargs; return NULL; }
bool pvt_prop(derr_t *e, derr_t code, const char *file, const char *func, int line){
    (void)file; (void)func; (void)line;
    if(code.type == E_NONE) return false;
    e->type = code.type;
    return true;
}
bool pvt_prop_var(derr_t *e, derr_t *e2, const char *file, const char *func, int line){
    (void)file; (void)func; (void)line;
    if(e2->type == E_NONE) return false;
    if(e != e2){
        e->type = e2->type;
        e2->type = E_NONE;
    }
    return true;
}
bool pvt_check(derr_t *e, const char *file, const char *func, int line){
    (void)file; (void)func; (void)line;
    return e->type != E_NONE;
}
bool trace_catch(derr_t *e, const char *file, const char *func, int line){
    (void)e; (void)file; (void)func; (void)line;
    return true;
}
void pvt_rethrow(derr_t *e, derr_t *e2, derr_type_t newtype,
        const char *file, const char *func, int line){
    (void)file; (void)func; (void)line;
    e->type = newtype;
    e2->type = E_NONE;
}
#endif
#endif

/* error types, for harnesses that do not include libdstr/common.c */
#ifdef SM_CBMC
#define SM_ERR(n) static struct derr_type_t sm_err_##n; derr_type_t n = &sm_err_##n;
#define SM_DEFINE_ERRORS \
    SM_ERR(E_NOMEM) SM_ERR(E_SOCK) SM_ERR(E_CONN) SM_ERR(E_VALUE) \
    SM_ERR(E_FIXEDSIZE) SM_ERR(E_OS) SM_ERR(E_BADIDX) SM_ERR(E_OPEN) \
    SM_ERR(E_PARAM) SM_ERR(E_INTERNAL) SM_ERR(E_FS) SM_ERR(E_RESPONSE) \
    SM_ERR(E_USERMSG) SM_ERR(E_CANCELED) SM_ERR(E_BUSY)
#else
#define SM_DEFINE_ERRORS
#endif

// an input dstr over exactly n readable bytes (no slack to hide overreads)
static inline dstr_t sm_dstr_in(size_t n){
    char *p = sm_buf(n);
    return (dstr_t){ .data = p, .len = n, .size = n, .fixed_size = true };
}

#define SM_HARNESS(name) void name(void)
#endif
