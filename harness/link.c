/* intrusive circular lists: libdstr/link.c

   The heap is NN nodes whose links form any set of circular lists (`next` is a
   permutation, `prev` its inverse), plus nodes that are zeroized, i.e. in no
   list.  Each postcondition gives the new links of every node, touched or not.
   The functions look at no more than five nodes and are otherwise oblivious to
   the rest, which is what makes NN nodes stand for any number. */
#include "sm.h"
#include "libdstr/link.c"
#ifndef SM_NN
#define SM_NN 6
#endif
enum { NN = SM_NN };
static link_t *N;                      // the nodes
static unsigned nx[NN], pv[NN];        // old links; NN = zeroized
static unsigned ex[NN], ep[NN];        // expected links
static unsigned idx(link_t *l){
    if(!l) return NN;
    for(unsigned i = 0; i < NN; i++) if(l == &N[i]) return i;
    return NN + 1;
}
static void any_heap(void){
    N = malloc(sizeof(link_t)*NN);
    SM_ASSUME(N != NULL);
    for(unsigned i = 0; i < NN; i++){
        nx[i] = (unsigned)sm_range(0, NN);
#ifdef SM_NATIVE
        // make a permutation out of arbitrary bytes
        if(nx[i] < NN){
            bool taken = true;
            for(unsigned k = 0; k < NN && taken; k++){
                taken = false;
                for(unsigned j = 0; j < i; j++) if(nx[j] == nx[i]) taken = true;
                if(taken) nx[i] = (nx[i] + 1) % NN;
            }
        }
#endif
    }
    for(unsigned i = 0; i < NN; i++) pv[i] = NN;
    for(unsigned i = 0; i < NN; i++) if(nx[i] < NN){
        SM_ASSUME(nx[nx[i]] < NN);           // lists hold no zeroized node
        SM_ASSUME(pv[nx[i]] == NN);
        pv[nx[i]] = i;
    }
    for(unsigned i = 0; i < NN; i++){
        SM_ASSUME((nx[i] < NN) == (pv[i] < NN));
        N[i] = (link_t){ .next = nx[i] < NN ? &N[nx[i]] : NULL, .prev = pv[i] < NN ? &N[pv[i]] : NULL };
        ex[i] = nx[i]; ep[i] = pv[i];
    }
}
static void link2(unsigned a, unsigned b){ ex[a] = b; ep[b] = a; }
// in the specification a zeroized node is a list of itself
static void norm(unsigned i){ if(ex[i] == NN){ ex[i] = i; ep[i] = i; } }
static void check(bool norm_ok){
    for(unsigned i = 0; i < NN; i++){
        unsigned n = idx(N[i].next), p = idx(N[i].prev);
        if(norm_ok && ex[i] == i && n == NN && p == NN) continue;   // zeroized for self-linked
        SM_ASSERT(n == ex[i] && p == ep[i], "every node has the links the operation calls for, all others are untouched");
    }
}
static bool same_list(unsigned a, unsigned b){
    unsigned i = a;
    for(unsigned k = 0; k < NN; k++){ if(i == b) return true; i = nx[i] == NN ? i : nx[i]; }
    return false;
}
static unsigned other(unsigned a){ unsigned b = (unsigned)sm_range(0, NN-1); SM_ASSUME(b != a); return b; }

SM_HARNESS(p_link_add){
    any_heap();
    unsigned h = (unsigned)sm_range(0, NN-1), l = other(h);
    SM_ASSUME(nx[l] == NN || nx[l] == l);     // not in a list
    bool front = sm_bool();
    norm(h); norm(l);
    unsigned first = ex[h], last = ep[h];
    if(front){ link2(h, l); link2(l, first); link_list_prepend(&N[h], &N[l]); }
    else{ link2(last, l); link2(l, h); link_list_append(&N[h], &N[l]); }
    check(false);
    SM_COVER("added");
}
SM_HARNESS(p_link_remove){
    any_heap();
    unsigned l = (unsigned)sm_range(0, NN-1);
    norm(l);
    unsigned n = ex[l], p = ep[l];
    link2(p, n); ex[l] = l; ep[l] = l;
    link_remove(&N[l]);
    check(true);
    SM_COVER("removed");
}
SM_HARNESS(p_link_pop){
    any_heap();
    unsigned h = (unsigned)sm_range(0, NN-1);
    bool front = sm_bool();
    link_t *got = front ? link_list_pop_first(&N[h]) : link_list_pop_last(&N[h]);
    norm(h);
    unsigned v = front ? ex[h] : ep[h];
    if(v == h){ SM_ASSERT(got == NULL, "an empty list yields nothing"); }
    else{
        SM_ASSERT(got == &N[v], "the end asked for is popped");
        unsigned n = ex[v], p = ep[v];
        link2(p, n); ex[v] = v; ep[v] = v;
        SM_COVER("popped");
    }
    check(true);
}
SM_HARNESS(p_link_concat){
    any_heap();
    unsigned r = (unsigned)sm_range(0, NN-1), d = other(r);
    norm(r); norm(d);
    SM_ASSUME(!same_list(r, d));
    bool front = sm_bool();
    unsigned df = ex[d], dl = ep[d];
    if(df != d){
        if(front){ unsigned f = ex[r]; link2(dl, f); link2(r, df); }
        else{ unsigned l = ep[r]; link2(l, df); link2(dl, r); }
        ex[d] = d; ep[d] = d;
    }
    if(front) link_list_prepend_list(&N[r], &N[d]); else link_list_append_list(&N[r], &N[d]);
    check(true);
    SM_COVER("concatenated");
}
SM_HARNESS(p_link_query){
    any_heap();
    unsigned h = (unsigned)sm_range(0, NN-1);
    SM_ASSERT(link_list_isempty(&N[h]) == (nx[h] == NN || nx[h] == h), "empty exactly if there is no element");
    size_t c = 0;
    for(unsigned i = h, k = 0; k < NN && nx[i] != NN && nx[i] != h; k++, i = nx[i]) c++;
    SM_ASSERT(link_list_count(&N[h]) == c, "count is the number of elements");
    check(false);
    SM_COVER("query");
}
/* popping from several lists at once: all of them or nothing */
static void pop_n(bool front){
    any_heap();
    unsigned h[3]; link_t *o[3] = {0}; _link_io_t io[3];
    #ifdef SM_PROOF
    size_t n = 2;
#else
    size_t n = sm_range(1, 3);
#endif
    for(size_t i = 0; i < 3; i++){
        h[i] = (unsigned)sm_range(0, NN-1);
        io[i] = (_link_io_t){ .head = &N[h[i]], .out = &o[i] };
    }
    // heads are either the same list or different lists
    for(size_t i = 0; i < n; i++) for(size_t j = 0; j < i; j++)
        SM_ASSUME(h[i] == h[j] || !same_list(h[i], h[j]));
    bool ok = front ? _link_list_pop_first_n(io, n) : _link_list_pop_last_n(io, n);
    // the specification: pop one by one
    bool want = true;
    unsigned w[3];
    for(size_t i = 0; i < n; i++){
        norm(h[i]);
        unsigned v = front ? ex[h[i]] : ep[h[i]];
        if(v == h[i]){ want = false; break; }
        w[i] = v;
        unsigned a = ep[v], b = ex[v];
        link2(a, b); ex[v] = v; ep[v] = v;
    }
    SM_ASSERT(ok == want, "succeeds exactly if every list has its elements");
    if(want){ for(size_t i = 0; i < n; i++) SM_ASSERT(o[i] == &N[w[i]], "each output is the element of its list"); SM_COVER("all"); }
    else{
        for(unsigned i = 0; i < NN; i++){ ex[i] = nx[i]; ep[i] = pv[i]; norm(i); }
        for(size_t i = 0; i < n; i++) SM_ASSERT(o[i] == NULL, "on failure no output is set");
        SM_COVER("nothing");
    }
    check(true);
}
SM_HARNESS(p_link_pop_n_first){ pop_n(true); }
SM_HARNESS(p_link_pop_n_last){ pop_n(false); }
