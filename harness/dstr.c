/* string buffers: libdstr/common.c (dstr_new, grow, append, copy, shift, views,
   erase).  One arbitrary byte of the buffer is followed (gh.w); everything
   else in memory is arbitrary. */
#include "sm.h"

#ifdef SM_PROOF
/* ---- contracts of the C library's memory functions, on the byte followed */
static struct {
    char *p;        // where the byte followed is now
    bool live;      // p is meaningful
    char *obj;      // the buffer it belongs to
    size_t objsize;
    bool secret;    // the buffer must be erased before it is given back
    bool freed;     // obj has been given back
    bool moved;
} gh;
// what reaches free() and realloc()
static void sm_release(void *p){
    if(gh.obj && p == gh.obj){
        SM_ASSERT(!gh.freed, "a buffer is released once");
        gh.freed = true;
        if(gh.secret && gh.live) SM_ASSERT(*gh.p == 0, "every byte of a sensitive buffer is erased before the buffer is released");
        gh.live = false;
    }else{
        SM_ASSERT(p == NULL, "only the buffer itself is released");
    }
}
static void sm_free(void *p){ sm_release(p); }
static void *sm_malloc(size_t n){
    if(sm_bool()) return NULL;
    void *p = malloc(n);
    SM_ASSUME(p != NULL);
    return p;
}
static void *sm_realloc(void *p, size_t n){
    if(sm_bool()) return NULL;
    SM_ASSERT(!gh.secret, "a sensitive buffer is not handed to realloc, which copies it without erasing");
    char *q = malloc(n);
    SM_ASSUME(q != NULL);
    SM_ASSERT(p == gh.obj, "the buffer itself is reallocated");
    SM_ASSERT(n >= gh.objsize, "growing does not shrink the allocation");
    if(p && gh.live && __CPROVER_same_object(p, gh.p)){
        size_t off = (size_t)(gh.p - gh.obj);
        SM_ASSUME(q[off] == *gh.p);
        gh.p = q + off;
    }
    gh.obj = q; gh.objsize = n; gh.moved = true;
    return q;
}
static void *sm_memcpy(void *d, const void *s, size_t n){
    if(n == 0) return d;
    SM_ASSERT(__CPROVER_r_ok(s, n), "memcpy reads inside its source");
    SM_ASSERT(__CPROVER_w_ok(d, n), "memcpy writes inside its destination");
    char *cd = d; const char *cs = s;
    size_t so = __CPROVER_POINTER_OFFSET(d);
    if(gh.live && __CPROVER_same_object(d, gh.p)){
        size_t wo = __CPROVER_POINTER_OFFSET(gh.p);
        char v = wo >= so && wo - so < n ? cs[wo - so] : *gh.p;
        __CPROVER_havoc_object(d);
        *gh.p = v;
    }else if(gh.live && __CPROVER_same_object(s, gh.p)){
        // the byte is copied elsewhere: follow the copy as well
        size_t wo = __CPROVER_POINTER_OFFSET(gh.p), ss = __CPROVER_POINTER_OFFSET(s);
        __CPROVER_havoc_object(d);
        if(wo >= ss && wo - ss < n) SM_ASSUME(cd[wo - ss] == *gh.p);
    }else{
        __CPROVER_havoc_object(d);
    }
    return d;
}
static void *sm_memmove(void *d, const void *s, size_t n){ return sm_memcpy(d, s, n); }
static void *sm_memcpy_disjoint(void *d, const void *s, size_t n){
    if(n && __CPROVER_same_object(d, s)){
        size_t a = __CPROVER_POINTER_OFFSET(d), b = __CPROVER_POINTER_OFFSET(s);
        SM_ASSERT(a + n <= b || b + n <= a, "memcpy is used on disjoint ranges only");
    }
    return sm_memcpy(d, s, n);
}
static void *sm_memset(void *d, int c, size_t n){
    if(n == 0) return d;
    SM_ASSERT(__CPROVER_w_ok(d, n), "memset writes inside its destination");
    size_t so = __CPROVER_POINTER_OFFSET(d);
    if(gh.live && __CPROVER_same_object(d, gh.p)){
        size_t wo = __CPROVER_POINTER_OFFSET(gh.p);
        char v = wo >= so && wo - so < n ? (char)c : *gh.p;
        __CPROVER_havoc_object(d);
        *gh.p = v;
    }else{
        __CPROVER_havoc_object(d);
    }
    return d;
}
#define malloc sm_malloc
#define realloc sm_realloc
#define free sm_free
#define memcpy sm_memcpy_disjoint
#define memmove sm_memmove
#define memset sm_memset
#define explicit_bzero(p, n) ((void)sm_memset(p, 0, n))
#endif
#ifdef SM_NATIVE
/* the real code, with the release of a buffer observed */
static char *nat_obj; static size_t nat_size; static bool nat_freed;
static void nat_check(void *p){
    if(p && p == nat_obj){
        nat_freed = true;
        for(size_t i = 0; i < nat_size; i++) SM_ASSERT(nat_obj[i] == 0, "every byte of a sensitive buffer is erased before the buffer is released");
        nat_obj = NULL;
    }
}
static void nat_free(void *p){ nat_check(p); free(p); }
static void *nat_realloc(void *p, size_t n){ nat_check(p); return realloc(p, n); }
#define free nat_free
#define realloc nat_realloc
#endif
#include "libdstr/common.c"
#ifdef SM_NATIVE
#undef free
#undef realloc
#endif
#ifdef SM_PROOF
#undef malloc
#undef realloc
#undef free
#undef memcpy
#undef memmove
#undef memset

/* an arbitrary well-formed buffer; the byte followed is at index k of the
   content, or of the whole allocation */
static size_t gh_k;      // index of the byte followed
static char gh_v;        // its value at the start
static dstr_t any_dstr(bool whole){
    dstr_t d;
    d.size = sm_len(0);
    d.len = sm_u64();
    SM_ASSUME(d.len <= d.size);
    d.fixed_size = sm_bool();
    d.data = NULL;
    gh.live = false; gh.secret = false; gh.freed = false; gh.moved = false;
    gh.obj = NULL; gh.objsize = 0; gh.p = NULL;
    if(d.size){
        d.data = malloc(d.size);
        SM_ASSUME(d.data != NULL);
        gh.obj = d.data; gh.objsize = d.size;
        gh_k = sm_u64();
        if(gh_k < (whole ? d.size : d.len)){
            gh.live = true;
            gh.p = d.data + gh_k;
            gh_v = *gh.p;
        }
    }
    return d;
}
static bool well_formed(dstr_t d){
    if(d.len > d.size) return false;
    return d.size == 0 || __CPROVER_w_ok(d.data, d.size);
}
static bool same(dstr_t a, dstr_t b){
    return a.data == b.data && a.len == b.len && a.size == b.size && a.fixed_size == b.fixed_size;
}
/* after an append of n bytes to `o`, giving `d`: where byte k of the new
   content is checked.  The byte followed is either one of the old ones ... */
static void check_appended(dstr_t o, dstr_t d, size_t n, derr_type_t t){
    if(t != E_NONE){
        SM_ASSERT(t == E_FIXEDSIZE || t == E_NOMEM, "the only failures are a full fixed-size buffer and lack of memory");
        SM_ASSERT(t != E_FIXEDSIZE || (o.fixed_size && o.len + n > o.size), "FIXEDSIZE only if a fixed-size buffer is too small");
        SM_ASSERT(same(o, d), "a failed append leaves the buffer alone");
        if(gh.live) SM_ASSERT(*gh.p == gh_v && gh.p == d.data + gh_k, "a failed append leaves the content alone");
        return;
    }
    SM_ASSERT(!(o.fixed_size && o.len + n > o.size), "a fixed-size buffer never grows");
    SM_ASSERT(d.len == o.len + n, "length after an append");
    SM_ASSERT(well_formed(d), "the buffer is well-formed after an append");
    SM_ASSERT(d.fixed_size == o.fixed_size, "fixed_size is kept");
    SM_ASSERT(!o.fixed_size || d.data == o.data, "a fixed-size buffer stays in place");
    if(gh.live && gh_k < o.len){
        SM_COVER("old byte");
        SM_ASSERT(d.data[gh_k] == gh_v, "old content is kept by an append");
    }
}
// follow a byte of the region to be written instead of an old one
static void follow_new(dstr_t *d, size_t room){
    (void)d; (void)room;
}

SM_HARNESS(p_new){
    size_t n = sm_len(0);
    dstr_t d;
    gh.obj = NULL; gh.live = false;
    derr_type_t t = dstr_new_quiet(&d, n);
    SM_ASSERT(t == E_NONE || t == E_NOMEM, "only lack of memory fails");
    if(t) return;
    SM_COVER("new");
    SM_ASSERT(d.len == 0 && d.size >= n && !d.fixed_size && well_formed(d), "a new buffer is empty and large enough");
}
SM_HARNESS(p_grow){
    dstr_t d = any_dstr(false), o = d;
    size_t n = sm_len(0);
    derr_type_t t = dstr_grow_quiet(&d, n);
    if(t){
        SM_ASSERT((t == E_FIXEDSIZE && o.fixed_size && n > o.size) || (t == E_NOMEM && !o.fixed_size), "failure of grow");
        SM_ASSERT(same(o, d), "a failed grow leaves the buffer alone");
        return;
    }
    SM_COVER("grown");
    SM_ASSERT(d.size >= n && d.size >= o.size && d.len == o.len && well_formed(d), "grow makes room");
    SM_ASSERT(d.fixed_size == o.fixed_size && (!o.fixed_size || same(o, d)), "a fixed-size buffer never grows");
    if(gh.live) SM_ASSERT(d.data[gh_k] == gh_v, "grow keeps the content");
}
/* the i'th appended byte */
static void setup_append(dstr_t *d, dstr_t *text, size_t *i){
    *d = any_dstr(false);
    size_t n = sm_len(0);
    text->data = malloc(n); SM_ASSUME(text->data != NULL);
    text->len = n; text->size = n; text->fixed_size = true;
    *i = sm_u64();
    SM_ASSUME(n == 0 || *i < n);
}
SM_HARNESS(p_append_old){
    dstr_t d, x; size_t i;
    setup_append(&d, &x, &i);
    dstr_t o = d;
    derr_type_t t = dstr_append_quiet(&d, &x);
    check_appended(o, d, x.len, t);
    SM_COVER("append");
}
/* the byte followed is in the new text: once there is room for it */
SM_HARNESS(p_append_new){
    dstr_t d, x; size_t i;
    setup_append(&d, &x, &i);
    if(x.len == 0) return;
    gh.live = false;
    size_t k = d.len + i;
    char v = x.data[i];
    if(k < d.size && d.len + x.len <= d.size){ gh.live = true; gh.p = d.data + k; gh_k = k; }
    else { gh.live = true; gh.p = x.data + i; }
    derr_type_t t = dstr_append_quiet(&d, &x);
    SM_ASSERT(x.data[i] == v, "the text appended is not changed");
    if(t) return;
    SM_COVER("append new");
    SM_ASSERT(d.data[k] == v, "the appended bytes are the given ones, in order");
}
SM_HARNESS(p_append_char){
    dstr_t d = any_dstr(false), o = d;
    char c = (char)sm_u8();
    derr_type_t t = dstr_append_char(&d, c);
    check_appended(o, d, 1, t);
    if(t == E_NONE){ SM_COVER("char"); SM_ASSERT(d.data[o.len] == c, "the appended byte"); }
}
SM_HARNESS(p_append_char_n){
    dstr_t d = any_dstr(false), o = d;
    char c = (char)sm_u8();
    size_t n = sm_len(0), i = sm_u64();
    SM_ASSUME(i < n);
    bool fresh = sm_bool();
    if(fresh){
        gh.live = false;
        SM_ASSUME(d.len + n <= d.size);
        gh.live = true; gh.p = d.data + d.len + i; gh_v = *gh.p; gh_k = d.len + i;
    }
    derr_type_t t = dstr_append_char_n(&d, c, n);
    check_appended(o, d, n, t);
    if(t == E_NONE && fresh){ SM_COVER("n chars"); SM_ASSERT(d.data[o.len + i] == c, "the appended bytes"); }
}
SM_HARNESS(p_null_terminate){
    dstr_t d = any_dstr(false), o = d;
    derr_type_t t = dstr_null_terminate_quiet(&d);
    if(t){
        SM_ASSERT(o.len == o.size && same(o, d), "null termination fails only without room, and changes nothing");
        return;
    }
    SM_COVER("terminated");
    SM_ASSERT(well_formed(d) && d.len == o.len && d.size > d.len && d.data[d.len] == 0, "the terminator follows the content and is not part of it");
    SM_ASSERT(!o.fixed_size || (d.data == o.data && d.size == o.size), "a fixed-size buffer never grows");
    if(gh.live) SM_ASSERT(d.data[gh_k] == gh_v, "null termination keeps the content");
}
SM_HARNESS(p_copy){
    dstr_t d = any_dstr(false), o = d;
    size_t n = sm_len(0), i = sm_u64();
    char *x = malloc(n); SM_ASSUME(x != NULL);
    SM_ASSUME(n == 0 || i < n);
    char v = 0;
    gh.live = false;
    if(n){ v = x[i]; gh.live = true; gh.p = x + i; }
    derr_t e;
    switch(sm_range(0, 2)){
        case 0: e = dstr_copystrn(x, n, &d); break;
        case 1: { dstr_t in = { .data = x, .len = n, .size = n }; e = dstr_copy(&in, &d); } break;
        default: { dstr_t in = { .data = x, .len = n, .size = n }; e = dstr_copy2(in, &d); } break;
    }
    SM_ASSERT(n == 0 || x[i] == v, "the source is not changed");
    if(e.type){
        SM_ASSERT(e.type == E_FIXEDSIZE ? o.fixed_size && n > o.size : e.type == E_NOMEM && !o.fixed_size, "failure of copy");
        SM_ASSERT(same(o, d), "a failed copy leaves the buffer alone");
        return;
    }
    SM_COVER("copied");
    SM_ASSERT(well_formed(d) && d.len == n, "length after a copy");
    SM_ASSERT(!o.fixed_size || (d.data == o.data && d.size == o.size), "a fixed-size buffer never grows");
    if(n) SM_ASSERT(d.data[i] == v, "the copy is equal");
}
SM_HARNESS(p_leftshift){
    dstr_t d = any_dstr(false), o = d;
    size_t n = sm_u64();
    size_t cut = n < o.len ? n : o.len;
    size_t i = sm_u64();          // index in the result
    char v = 0;
    bool any = i < o.len - cut;
    gh.live = false;
    if(any){ v = d.data[cut + i]; gh.live = true; gh.p = d.data + i; gh_v = *gh.p; }
    dstr_leftshift(&d, n);
    SM_ASSERT(d.len == o.len - cut && d.data == o.data && d.size == o.size && d.fixed_size == o.fixed_size, "a shift drops that many bytes (all, if there are fewer)");
    if(any){ SM_COVER("shifted"); SM_ASSERT(d.data[i] == v, "a shift moves the rest to the front"); }
}
SM_HARNESS(p_views){
    dstr_t d = any_dstr(false);
    size_t a = sm_u64(), b = sm_u64();
    dstr_t s1 = dstr_sub2(d, a, b);
    size_t x = a < d.len ? a : d.len, y = b < d.len ? b : d.len;
    if(y < x) y = x;
    SM_ASSERT(s1.data == d.data + x && s1.len == y - x && s1.size == s1.len && s1.fixed_size, "dstr_sub2 is the clamped range, fixed-size");
    dstr_t s2 = dstr_sub(&d, a, b);
    if(b == 0) y = d.len;
    SM_ASSERT(s2.data == d.data + x && s2.len == y - x && s2.size == s2.len && s2.fixed_size, "dstr_sub is the clamped range, end zero meaning all");
    dstr_t s3 = dstr_empty_space(d);
    SM_ASSERT(s3.data == d.data + d.len && s3.len == 0 && s3.size == d.size - d.len && s3.fixed_size, "dstr_empty_space is the unused part, fixed-size");
    SM_COVER("views");
}
/* ---------------------------------------------------- sensitive buffers */
SM_HARNESS(p_zeroize){
    dstr_t d = any_dstr(true), o = d;
    dstr_zeroize(&d);
    SM_ASSERT(same(o, d), "only the content is erased");
    if(gh.live){ SM_COVER("zeroized"); SM_ASSERT(*gh.p == 0, "every byte of the allocation is erased, also beyond the length"); }
}
SM_HARNESS(p_free0){
    dstr_t d = any_dstr(true), o = d;
    gh.secret = true;
    dstr_free0(&d);
    SM_COVER("free0");
    SM_ASSERT(gh.freed == (o.data != NULL), "the buffer is released");
    SM_ASSERT(d.data == NULL && d.len == 0 && d.size == 0, "the released buffer is forgotten");
    dstr_free0(NULL);
}
SM_HARNESS(p_free){
    dstr_t d = any_dstr(true), o = d;
    dstr_free(&d);
    SM_ASSERT(gh.freed == (o.data != NULL) && d.data == NULL && d.len == 0 && d.size == 0, "the released buffer is forgotten");
    SM_COVER("free");
}
static void grow0_common(dstr_t o, dstr_t d, bool fail){
    if(fail){
        SM_ASSERT(same(o, d) && !gh.freed, "a failed grow0 leaves the buffer alone");
        return;
    }
    SM_COVER("grow0");
    SM_ASSERT(well_formed(d), "the buffer is well-formed");
    SM_ASSERT(d.data == o.data || o.data == NULL || gh.freed, "the old buffer is released");
}
/* the byte followed is erased before release, whether or not it is content */
SM_HARNESS(p_grow0_erase){
    dstr_t d = any_dstr(true), o = d;
    gh.secret = true;
    size_t n = sm_len(0);
    derr_t e = dstr_grow0(&d, n);
    grow0_common(o, d, e.type != E_NONE);
    if(!e.type) SM_ASSERT(d.size >= n && d.len == o.len, "grow0 makes room");
}
SM_HARNESS(p_append0_erase){
    dstr_t d = any_dstr(true), o = d;
    gh.secret = true;
    size_t n = sm_len(0);
    dstr_t x = { .len = n, .size = n, .fixed_size = true, .data = malloc(n) };
    SM_ASSUME(x.data != NULL);
    derr_type_t t = sm_bool() ? dstr_append0_quiet(&d, &x) : dstr_append0(&d, &x).type;
    grow0_common(o, d, t != E_NONE);
    if(!t) SM_ASSERT(d.len == o.len + n, "length after append0");
}
/* content: the byte followed is copied out by the memcpy contract */
SM_HARNESS(p_grow0_keep){
    dstr_t d = any_dstr(false), o = d;
    size_t n = sm_len(0);
    derr_type_t t = dstr_grow0_quiet(&d, n);
    if(t) return;
    SM_COVER("kept");
    SM_ASSERT(well_formed(d), "the buffer is well-formed");
    if(gh_k < o.len) SM_ASSERT(d.data[gh_k] == gh_v, "grow0 keeps the content");
}
#else
/* ------------------------------------------------------------ native search */
static void check_buf(dstr_t d){
    SM_ASSERT(d.len <= d.size, "len <= size");
    // every byte of the claimed allocation is really there
    for(size_t i = 0; i < d.size; i++){ volatile char c = d.data[i]; d.data[i] = c; }
}
SM_HARNESS(s_dstr){
    char model[4096]; size_t mlen = 0;
    bool fixed = sm_bool();
    size_t size = sm_range(fixed ? 1 : 0, 40);
    dstr_t d = {0};
    if(fixed){ d = (dstr_t){ .data = sm_buf(size), .size = size, .fixed_size = true }; }
    else if(size){ SM_ASSERT(dstr_new_quiet(&d, size) == E_NONE, "new"); SM_ASSERT(d.size >= size, "new size"); }
    size_t nops = sm_range(1, 12);
    for(size_t k = 0; k < nops; k++){
        size_t n = sm_range(0, 60);
        dstr_t x = sm_dstr_in(n);
        unsigned op = sm_u8() % 9;
        dstr_t o = d;
        derr_type_t t = E_NONE; size_t add = 0, keep = mlen; char c = (char)sm_u8();
        switch(op){
            case 0: t = dstr_append_quiet(&d, &x); add = n; break;
            case 1: t = dstr_append0_quiet(&d, &x); add = n; break;
            case 2: t = dstr_append_char(&d, c); add = 1; break;
            case 3: t = dstr_append_char_n(&d, c, n); add = n; break;
            case 4: { derr_t e = sm_bool() ? dstr_copy2(x, &d) : dstr_copy(&x, &d); t = e.type; DROP_VAR(&e); if(!t) keep = 0; add = n; } break;
            case 5: dstr_leftshift(&d, n); { size_t cut = n < mlen ? n : mlen; memmove(model, model + cut, mlen - cut); mlen -= cut; keep = mlen; } break;
            case 6: { derr_t e = sm_bool() ? dstr_grow(&d, n) : dstr_grow0(&d, n); t = e.type; DROP_VAR(&e); if(!t) SM_ASSERT(d.size >= n, "grown"); } break;
            case 7: t = dstr_null_terminate_quiet(&d); if(!t) SM_ASSERT(d.size > d.len && d.data[d.len] == 0, "terminated"); break;
            default: {
                size_t a = sm_range(0, 70), b = sm_range(0, 70);
                dstr_t s = dstr_sub2(d, a, b);
                size_t lo = a < d.len ? a : d.len, hi = b < d.len ? b : d.len; if(hi < lo) hi = lo;
                SM_ASSERT(s.data == d.data + lo && s.len == hi - lo, "sub2");
                dstr_t es = dstr_empty_space(d);
                SM_ASSERT(es.data == d.data + d.len && es.size == d.size - d.len && es.len == 0, "space");
            } break;
        }
        if(t != E_NONE){
            SM_ASSERT(fixed && t == E_FIXEDSIZE, "only a full fixed-size buffer fails");
            SM_ASSERT(d.len == o.len && d.data == o.data && d.size == o.size, "failure leaves the buffer alone");
        }else{
            if(op == 2) model[keep] = c;
            else if(op == 3) memset(model + keep, c, n);
            else if(op <= 4) memcpy(model + keep, x.data, n);
            mlen = keep + add;
        }
        if(fixed) SM_ASSERT(d.data == o.data && d.size == size, "fixed-size buffers stay in place");
        check_buf(d);
        SM_ASSERT(d.len == mlen && (mlen == 0 || memcmp(d.data, model, mlen) == 0), "content");
    }
    if(!fixed) dstr_free0(&d);
}
/* sensitive buffers: erased whole before they are released, content kept */
SM_HARNESS(s_erase){
    dstr_t d = {0};
    size_t size = sm_range(1, 40);
    SM_ASSERT(dstr_new_quiet(&d, size) == E_NONE, "new");
    size_t len = sm_range(0, d.size);
    for(size_t i = 0; i < d.size; i++) d.data[i] = (char)(1 + sm_u8() % 255);
    d.len = len;
    char old[128]; memcpy(old, d.data, len);
    dstr_t o = d;
    nat_obj = d.data; nat_size = d.size; nat_freed = false;
    dstr_t x = sm_dstr_in(sm_range(0, 60));
    size_t n = sm_range(0, 120);
    unsigned op = sm_u8() % 6;
    switch(op){
        case 0: SM_ASSERT(dstr_append0_quiet(&d, &x) == E_NONE, "append0"); break;
        case 1: { derr_t e = dstr_append0(&d, &x); SM_ASSERT(!e.type, "append0"); } break;
        case 2: { derr_t e = dstr_grow0(&d, n); SM_ASSERT(!e.type && d.size >= n, "grow0"); } break;
        case 3: SM_ASSERT(dstr_grow0_quiet(&d, n) == E_NONE && d.size >= n, "grow0"); break;
        case 4: dstr_zeroize(&d); for(size_t i = 0; i < d.size; i++) SM_ASSERT(d.data[i] == 0, "zeroized"); memset(old, 0, sizeof(old)); break;
        default: dstr_free0(&d); SM_ASSERT(nat_freed && !d.data && !d.len && !d.size, "free0"); return;
    }
    if(d.data == o.data) SM_ASSERT(!nat_freed, "not released"); else SM_ASSERT(nat_freed, "released");
    nat_obj = NULL;
    check_buf(d);
    SM_ASSERT(d.len == len + (op < 2 ? x.len : 0) && memcmp(d.data, old, len) == 0, "content kept");
    dstr_free(&d);
}
#endif
