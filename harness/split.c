/* searching for patterns, splitting, search-and-replace: libdstr/common.c */
#include "sm.h"
#ifdef SM_PROOF
static void sm_hv_find(void);
static bool gh_find(size_t i, size_t mp);
static bool gh_find_pat(size_t i, size_t p, size_t mp);
static bool gh_find_char(size_t i, size_t p, size_t j, size_t mp);
static void gh_find_pat_def(size_t i, size_t p, size_t mp);
static void gh_find_partial(size_t p, size_t mp);
static char *sm_hv_recode(void);
static bool gh_recode(const char *from);
static void sm_hv_outs(void);
static bool gh_zeroouts(size_t i);
static void gh_outs(dstr_t **outs, size_t i);
static bool gh_split2(size_t word_start, size_t len);
static void gh_split2_step(dstr_t **outs, size_t len, size_t nouts);
static void gh_split_step(void);
#endif
#ifndef SM_NATIVE
#ifdef SM_PROOF
static void sm_hv_split(LIST(dstr_t) *out);
static bool gh_split(size_t word_start, const LIST(dstr_t) *out);
#endif
#include "libdstr/common.c"
#endif
#ifdef SM_PROOF
static derr_t any_error(void){ return (derr_t){ .type = sm_bool() ? E_NOMEM : E_FIXEDSIZE }; }

/* ---- dstr_find.  OFF(p), LEN(p): pattern p is that part of gh_pool.  K(i,p):
   number of chars that text (from i on) and pattern have in common at their
   start; so the pattern matches at i if K(i,p) == LEN(p) */
static dstr_t gh_t;                // the text
static LIST(dstr_t) gh_pats;
static dstr_t gh_pool;
uint64_t __CPROVER_uninterpreted_off(uint64_t p);
uint64_t __CPROVER_uninterpreted_len(uint64_t p);
uint64_t __CPROVER_uninterpreted_common(uint64_t i, uint64_t p);
#define OFF(p) __CPROVER_uninterpreted_off(p)
#define LEN(p) __CPROVER_uninterpreted_len(p)
#define K(i, p) __CPROVER_uninterpreted_common(i, p)
#define M(i, p) (K(i, p) == LEN(p))
static size_t gh_wi, gh_wp;        // any place, any pattern
static size_t gh_mp, gh_pp;        // longest partial match at the end so far, and a pattern that has it
static void sm_hv_find(void){ SM_MOD(gh_mp) SM_MOD(gh_pp) }
static void k_def(size_t i, size_t p){
    size_t k = K(i, p);
    SM_ASSUME(k <= LEN(p) && i <= gh_t.len && k <= gh_t.len - i);
    SM_ASSUME(OFF(p) <= gh_pool.len && LEN(p) <= gh_pool.len - OFF(p));
    if(k < LEN(p) && i + k < gh_t.len) SM_ASSUME(gh_t.data[i + k] != gh_pool.data[OFF(p) + k]);
}
// what is known of the witness once it has been tried
static bool w_done(size_t mp){
    return !M(gh_wi, gh_wp) && (gh_wi + K(gh_wi, gh_wp) != gh_t.len || mp >= gh_t.len - gh_wi);
}
// the partial match is there
static bool attained(size_t mp){
    return mp == gh_mp && mp <= gh_t.len && (mp == 0 || (gh_pp < gh_pats.len && K(gh_t.len - mp, gh_pp) == mp && mp < LEN(gh_pp)));
}
static bool gh_find(size_t i, size_t mp){
    return attained(mp) && (gh_wi >= i || w_done(mp));
}
static bool gh_find_pat(size_t i, size_t p, size_t mp){
    return attained(mp) && (gh_wi > i || (gh_wi == i && gh_wp >= p) || w_done(mp));
}
static void gh_find_pat_def(size_t i, size_t p, size_t mp){
    (void)mp;
    k_def(i, p);
    gh_pats.data[p] = (dstr_t){ .data = gh_pool.data + OFF(p), .len = LEN(p), .size = LEN(p), .fixed_size = true };
}
static bool gh_find_char(size_t i, size_t p, size_t j, size_t mp){
    if(j < K(i, p)) SM_ASSUME(gh_t.data[i + j] == gh_pool.data[OFF(p) + j]);
    return j <= K(i, p) && mp == gh_mp;
}
static void gh_find_partial(size_t p, size_t mp){
    if(mp != gh_mp){ gh_mp = mp; gh_pp = p; }
}
SM_HARNESS(p_find){
    size_t n = sm_len(0), np = sm_u64();
    gh_t = sm_dstr_in(n);
    if(n == 0 && sm_bool()) gh_t.data = NULL;
    gh_pool = sm_dstr_in(sm_len(0));
    SM_ASSUME(np <= ((size_t)1 << 40));
    gh_pats = (LIST(dstr_t)){ malloc(np * sizeof(dstr_t)), np * sizeof(dstr_t), np, true };
    SM_ASSUME(gh_pats.data != NULL);
    gh_wi = sm_u64(); gh_wp = sm_u64();
    SM_ASSUME(gh_wi < n && gh_wp < np);
    k_def(gh_wi, gh_wp);
    gh_mp = 0;
    bool have_w = sm_bool(), have_p = sm_bool();
    size_t which = 7, partial = 7;
    char *r = dstr_find(&gh_t, &gh_pats, have_w ? &which : NULL, have_p ? &partial : NULL);
    if(r){
        SM_ASSERT(__CPROVER_same_object(r, gh_t.data), "a match lies in the text");
        size_t i = (size_t)(r - gh_t.data);
        SM_ASSERT(i < n, "a match lies in the text");
        if(have_w){
            SM_ASSERT(which < np && M(i, which), "that pattern matches there");
            SM_ASSERT(!M(gh_wi, gh_wp) || gh_wi > i || (gh_wi == i && gh_wp >= which), "it is the first match, and the first of the patterns that match there");
        }
        SM_ASSERT(!M(gh_wi, gh_wp) || gh_wi >= i, "it is the first match");
        if(have_p) SM_ASSERT(partial == 0, "no partial match is reported with a match");
        SM_COVER("match");
        if(i > 0) SM_COVER("match later");
    }else{
        SM_ASSERT(!M(gh_wi, gh_wp), "no match is reported only if there is none");
        if(have_w) SM_ASSERT(which == 0, "no pattern");
        if(have_p){
            SM_ASSERT(gh_wi + K(gh_wi, gh_wp) != n || partial >= n - gh_wi, "no longer part of a pattern ends the text");
            SM_ASSERT(partial == 0 || (gh_pp < np && K(n - partial, gh_pp) == partial && partial < LEN(gh_pp)), "a part of a pattern of that length ends the text");
            if(partial) SM_COVER("partial");
        }
        SM_COVER("none");
    }
}
SM_HARNESS(p_find_empty){
    // nothing to search or nothing to search for: see dstr_find's documentation
    gh_t = sm_dstr_in(sm_len(0)); gh_pool = sm_dstr_in(0);
    bool none = sm_bool();
    if(none){ gh_pats = (LIST(dstr_t)){0}; }
    else{ gh_t.len = 0; gh_pats = (LIST(dstr_t)){ malloc(0), 0, sm_u64(), true }; }
    gh_wi = SIZE_MAX; gh_wp = SIZE_MAX; gh_mp = 0;
    size_t which = 7, partial = 7;
    SM_ASSERT(dstr_find(&gh_t, &gh_pats, &which, &partial) == NULL && which == 0 && partial == 0, "nothing is found in nothing");
    SM_COVER("done");
}

/* ---- the search as its callers see it.  F(s): there is a match at or after
   s; N(s): the first one starts there (the text's length if there is none) */
_Bool __CPROVER_uninterpreted_found(uint64_t s);
uint64_t __CPROVER_uninterpreted_next(uint64_t s);
#define F(s) __CPROVER_uninterpreted_found(s)
#define N(s) __CPROVER_uninterpreted_next(s)
static dstr_t gh_pat;
static void n_def(size_t s){
    if(F(s)) SM_ASSUME(s <= N(s) && N(s) < gh_t.len && gh_pat.len <= gh_t.len - N(s));
    else SM_ASSUME(N(s) == gh_t.len);
}
char *c_dstr_find(const dstr_t *text, const LIST(dstr_t) *pats, size_t *which, size_t *partial){
    SM_ASSERT(pats->len == 1 && pats->data[0].len == gh_pat.len && pats->data[0].data == gh_pat.data, "the pattern is searched for");
    SM_ASSERT(text->len <= gh_t.len && (gh_t.len == 0 || text->data == gh_t.data + (gh_t.len - text->len)), "the rest of the text is searched");
    SM_ASSERT(!which && !partial, "no more is asked for");
    size_t s = gh_t.len - text->len;
    n_def(s);
    return F(s) ? gh_t.data + N(s) : NULL;
}
/* word k starts at S(k) and ends where the next pattern starts */
uint64_t __CPROVER_uninterpreted_wordstart(uint64_t k);
#define S(k) __CPROVER_uninterpreted_wordstart(k)
static void s_def(size_t k){
    n_def(S(k));
    if(F(S(k))) SM_ASSUME(S(k + 1) == N(S(k)) + gh_pat.len);
}
static void split_setup(void){
    gh_t = sm_dstr_in(sm_len(0));
    if(gh_t.len == 0 && sm_bool()) gh_t.data = NULL;
    gh_pat = sm_dstr_in(sm_len(0));
    SM_ASSUME(gh_pat.len >= 1);
    SM_ASSUME(S(0) == 0);
}
static bool is_span(dstr_t d, size_t a, size_t b){
    return d.len == b - a && (gh_t.len == 0 || d.len == 0 || d.data == gh_t.data + a);
}
static size_t gh_wk;               // any word
/* split2: words go to where outs[] points, which may be nowhere */
_Bool __CPROVER_uninterpreted_wanted(uint64_t k);
static dstr_t gh_w, gh_junk;       // where word gh_wk goes; and where all others go
static void sm_hv_outs(void){ SM_MOD(gh_w) SM_MOD(gh_junk) }
static void gh_outs(dstr_t **outs, size_t i){
    outs[i] = i == gh_wk ? &gh_w : __CPROVER_uninterpreted_wanted(i) ? &gh_junk : NULL;
}
static bool gh_zeroouts(size_t i){
    return gh_wk >= i || (gh_w.len == 0 && gh_w.data == NULL);
}
static bool gh_split2(size_t word_start, size_t len){
    return word_start == S(len) && word_start <= gh_t.len
        && (gh_wk < len ? F(S(gh_wk)) && is_span(gh_w, S(gh_wk), N(S(gh_wk))) && (gh_w.len > 0 || gh_t.len == 0 || gh_w.data == gh_t.data + S(gh_wk)) : gh_w.len == 0 && gh_w.data == NULL);
}
static void gh_split2_step(dstr_t **outs, size_t len, size_t nouts){
    s_def(len);
    if(len > 0) s_def(len - 1);
    s_def(gh_wk);
    if(len < nouts) gh_outs(outs, len);
    if(len > 0) gh_outs(outs, len - 1);
}
SM_HARNESS(p_split2){
    split_setup();
    size_t nouts = sm_u64();
    SM_ASSUME(nouts <= ((size_t)1 << 40));
    dstr_t **outs = malloc(nouts * sizeof(*outs));
    SM_ASSUME(outs != NULL);
    gh_wk = sm_u64();
    SM_ASSUME(gh_wk < nouts || nouts == 0);
    s_def(gh_wk); s_def(0);
    bool want_len = sm_bool();
#ifdef SM_SOFT
    bool soft = SM_SOFT;
#else
    bool soft = sm_bool();
#endif
    size_t len = 7;
    if(!nouts){
        // (the macros of the interface do not allow for that)
        derr_t e = _dstr_split2(gh_t, gh_pat, want_len ? &len : NULL, outs, 0);
        SM_ASSERT(e.type == E_FIXEDSIZE, "no room for a word");
        SM_COVER("no room");
        return;
    }
    gh_w = gh_t;
    derr_t e = E_OK;
    if(soft) _dstr_split2_soft(gh_t, gh_pat, want_len ? &len : NULL, outs, nouts);
    else e = _dstr_split2(gh_t, gh_pat, want_len ? &len : NULL, outs, nouts);
    if(e.type){
        SM_ASSERT(!soft && e.type == E_FIXEDSIZE, "too many words are an error");
        SM_ASSERT(F(S(gh_wk)), "only if there are too many words");
        SM_ASSERT(!want_len || len == 0, "no words on error");
        SM_COVER("too many");
        return;
    }
    if(!want_len) return;
    SM_ASSERT(len >= 1 && len <= nouts, "at least one word, at most as many as there is room for");
    if(gh_wk >= len){
        SM_ASSERT(gh_w.data == NULL && gh_w.len == 0, "outputs not used are empty");
        SM_COVER("unused");
        return;
    }
    size_t a = S(gh_wk), b = N(a);
    if(gh_wk < len - 1){
        SM_ASSERT(F(a) && is_span(gh_w, a, b), "a word is what is between two patterns");
        SM_COVER("word");
    }else if(F(a)){
        SM_ASSERT(soft && len == nouts, "only the last output may hold several words");
        SM_ASSERT(is_span(gh_w, a, gh_t.len), "the last output holds the rest of the text");
        SM_COVER("rest");
    }else{
        SM_ASSERT(is_span(gh_w, a, gh_t.len), "the last word extends to the end of the text");
        SM_COVER("last");
        if(gh_w.len == 0 && a > 0) SM_COVER("empty last");
    }
}

/* split: words go to a list */
static size_t gh_ll;               // words in the list
static size_t gh_room;
static LIST(dstr_t) *gh_list;
static void sm_hv_split(LIST(dstr_t) *out){
    SM_MOD(gh_ll)
    __CPROVER_havoc_object(out->data);
    out->len = gh_ll;
}
static bool in_list_at(size_t k, const LIST(dstr_t) *out, size_t end){
    return out->data[k].len == end - S(k) && (gh_t.len == 0 || out->data[k].data == gh_t.data + S(k));
}
static bool gh_split(size_t word_start, const LIST(dstr_t) *out){
    size_t l = gh_ll;
    return out->len == l && l <= gh_room && word_start == S(l) && word_start <= gh_t.len
        && (gh_wk >= l || (F(S(gh_wk)) && in_list_at(gh_wk, out, N(S(gh_wk)))))
        && (l == 0 || in_list_at(l - 1, out, N(S(l - 1))));
}
static void gh_split_step(void){
    s_def(gh_ll);
    if(gh_ll > 0) s_def(gh_ll - 1);
    s_def(gh_wk);
}

derr_t c_list_append(LIST(dstr_t) *l, dstr_t d){
    SM_ASSERT(l == gh_list && l->len == gh_ll, "words are put into the list");
    if(gh_ll == gh_room){ return (derr_t){ .type = E_FIXEDSIZE }; }
    l->data[l->len++] = d;
    gh_ll = l->len;
    return E_OK;
}
SM_HARNESS(p_split){
    split_setup();
    gh_room = sm_u64();
    SM_ASSUME(gh_room <= ((size_t)1 << 40));
    LIST(dstr_t) list = { malloc(gh_room * sizeof(dstr_t)), gh_room * sizeof(dstr_t), sm_u64(), true };
    SM_ASSUME(list.data != NULL);
    gh_list = &list; gh_ll = 0;
    gh_wk = sm_u64();
    SM_ASSUME(gh_wk < gh_room || gh_room == 0);
    s_def(gh_wk); s_def(0);
    bool soft = sm_bool();
    derr_t e = soft ? dstr_split_soft(&gh_t, &gh_pat, &list) : dstr_split(&gh_t, &gh_pat, &list);
    if(e.type){
        SM_ASSERT(!soft && e.type == E_FIXEDSIZE, "too many words are an error");
        SM_ASSERT(gh_room == 0 || F(S(gh_wk)), "only if there are too many words");
        SM_COVER("too many");
        return;
    }
    size_t len = list.len;
    SM_ASSERT((len >= 1 || gh_room == 0) && len <= gh_room, "at least one word, at most as many as there is room for");
    if(gh_wk >= len) return;
    size_t a = S(gh_wk), b = N(a);
    dstr_t w = list.data[gh_wk];
    if(gh_wk < len - 1){
        SM_ASSERT(F(a) && is_span(w, a, b), "a word is what is between two patterns");
        SM_COVER("word");
    }else if(F(a)){
        SM_ASSERT(soft && len == gh_room, "only the last word may be several");
        SM_ASSERT(is_span(w, a, gh_t.len), "the last word holds the rest of the text");
        SM_COVER("rest");
    }else{
        SM_ASSERT(is_span(w, a, gh_t.len), "the last word extends to the end of the text");
        SM_COVER("last");
        if(w.len == 0 && a > 0) SM_COVER("empty last");
    }
}

/* ---- search and replace: dstr_append is called for exactly the pieces of the
   result, in order */
static size_t gh_c;                // input done
static enum { HEAD, SEARCHED, REPLACE, TAIL, STOPPED } gh_st;
static bool gh_fnd; static size_t gh_pos, gh_which, gh_partial;
static LIST(dstr_t) gh_repl;
static dstr_t gh_out;
static bool gh_has_stop; static size_t gh_stop; static bool gh_force;
static bool gh_failed;
static char *sm_hv_recode(void){
    SM_MOD(gh_c) SM_MOD(gh_st) SM_MODB(gh_fnd) SM_MOD(gh_pos) SM_MOD(gh_which) SM_MOD(gh_partial) SM_MODB(gh_failed) SM_MOD(gh_out)
    gh_st = HEAD; gh_failed = false;
    SM_ASSUME(gh_c <= gh_t.len);
    return gh_t.data + gh_c;
}
static bool gh_recode(const char *from){
    return gh_st == HEAD && !gh_failed && gh_c <= gh_t.len && from == gh_t.data + gh_c;
}
char *r_dstr_find(const dstr_t *text, const LIST(dstr_t) *pats, size_t *which, size_t *partial){
    SM_ASSERT(gh_st == HEAD && !gh_failed, "one search after the other");
    SM_ASSERT(pats == &gh_pats, "the patterns are searched for");
    SM_ASSERT(text->len == gh_t.len - gh_c && text->data == gh_t.data + gh_c, "the rest of the text is searched");
    SM_ASSERT(which != NULL && (partial != NULL) == !gh_force, "parts of patterns at the end count if there is more to come");
    gh_fnd = sm_bool(); gh_pos = sm_u64(); gh_which = sm_u64(); gh_partial = 0;
    gh_st = SEARCHED;
    *which = 0;
    if(gh_fnd){
        size_t l = sm_u64();
        SM_ASSUME(gh_which < gh_pats.len && gh_c <= gh_pos && gh_pos < gh_t.len && l >= 1 && l <= gh_t.len - gh_pos);
        gh_pats.data[gh_which].len = l;
        *which = gh_which;
        if(partial) *partial = 0;
        return gh_t.data + gh_pos;
    }
    gh_partial = partial ? sm_u64() : 0;
    SM_ASSUME(gh_partial <= gh_t.len - gh_c);
    if(partial) *partial = gh_partial;
    return NULL;
}
derr_t r_dstr_append(dstr_t *out, const dstr_t *piece){
    SM_ASSERT(out == &gh_out, "the output is appended to");
    SM_ASSERT(!gh_failed, "nothing is appended after a failure");
    size_t end = gh_fnd ? gh_pos : gh_t.len - gh_partial;
    if(gh_st == SEARCHED && end > gh_c){
        SM_ASSERT(piece->len == end - gh_c && piece->data == gh_t.data + gh_c, "what is before the match is copied");
        gh_st = gh_fnd ? REPLACE : TAIL;
    }else{
        SM_ASSERT(gh_fnd && (gh_st == SEARCHED || gh_st == REPLACE), "nothing else is appended");
        SM_ASSERT(piece == &gh_repl.data[gh_which], "a match is replaced by its replacement");
        gh_st = gh_has_stop && gh_which == gh_stop ? STOPPED : HEAD;
        gh_c = gh_pos + gh_pats.data[gh_which].len;
    }
    if(sm_bool()){ gh_failed = true; return any_error(); }
    return E_OK;
}
static size_t gh_shift; static bool gh_shifted;
void r_dstr_leftshift(dstr_t *in, size_t count){
    SM_ASSERT(in->data == gh_t.data && in->len == gh_t.len, "the input is shifted");
    gh_shift = count; gh_shifted = true;
}
static void recode_setup(void){
    gh_t = sm_dstr_in(sm_len(0));
    if(gh_t.len == 0 && sm_bool()) gh_t.data = NULL;
    size_t np = sm_u64();
    SM_ASSUME(np <= ((size_t)1 << 40));
    gh_pats = (LIST(dstr_t)){ malloc(np * sizeof(dstr_t)), np * sizeof(dstr_t), np, true };
    gh_repl = (LIST(dstr_t)){ malloc(np * sizeof(dstr_t)), np * sizeof(dstr_t), np, true };
    SM_ASSUME(gh_pats.data != NULL && gh_repl.data != NULL);
    gh_c = 0; gh_st = HEAD; gh_failed = false; gh_shifted = false;
    gh_stop = sm_u64();
    gh_out = sm_dstr_in(sm_len(0));
}
SM_HARNESS(p_recode_stream){
    recode_setup();
    gh_has_stop = sm_bool(); gh_force = sm_bool();
    bool stop = sm_bool();
    dstr_t in = gh_t;
    derr_t e = dstr_recode_stream(&in, &gh_out, &gh_pats, &gh_repl, gh_force, gh_stop, gh_has_stop ? &stop : NULL);
    SM_ASSERT((e.type != E_NONE) == gh_failed, "fails exactly if the output cannot grow");
    if(e.type){ SM_ASSERT(!gh_shifted, "no input is taken on failure"); SM_COVER("failed"); return; }
    SM_ASSERT(gh_shifted, "input is taken");
    if(gh_st == STOPPED){
        SM_ASSERT(stop, "the end pattern is reported");
        SM_ASSERT(gh_shift == gh_c, "input up to and with the end pattern is taken");
        SM_COVER("stopped");
        return;
    }
    if(gh_has_stop) SM_ASSERT(!stop, "no end pattern is reported if there was none");
    SM_ASSERT(gh_st != REPLACE, "a match is replaced");
    if(gh_st == HEAD){
        SM_ASSERT(gh_c == gh_t.len && gh_shift == gh_c, "all input is taken");
        SM_COVER("replaced to the end");
    }else{
        SM_ASSERT(!gh_fnd && (gh_st == TAIL || gh_c == gh_t.len - gh_partial), "the rest is copied");
        SM_ASSERT(gh_shift == gh_t.len - gh_partial, "all input is taken, but for a part of a pattern at its end");
        if(gh_partial) SM_COVER("partial");
        SM_COVER("tail");
    }
}
SM_HARNESS(p_recode){
    recode_setup();
    gh_has_stop = false; gh_force = true;
    bool append = sm_bool();
    size_t olen = gh_out.len;
    derr_t e = dstr_recode(&gh_t, &gh_out, &gh_pats, &gh_repl, append);
    SM_ASSERT((e.type != E_NONE) == gh_failed, "fails exactly if the output cannot grow");
    (void)olen;
    if(e.type) return;
    SM_ASSERT(gh_st == HEAD ? gh_c == gh_t.len : gh_st == TAIL || (gh_st == SEARCHED && !gh_fnd && gh_c == gh_t.len), "all of the input is recoded");
    if(gh_st == TAIL) SM_COVER("tail");
    if(gh_st == HEAD && gh_t.len) SM_COVER("replaced to the end");
    if(gh_t.len == 0) SM_COVER("empty");
}
#else
static bool at(dstr_t t, dstr_t p, size_t i){
    return i <= t.len && p.len <= t.len - i && (!p.len || !memcmp(t.data + i, p.data, p.len));
}
static dstr_t any_text(size_t n, size_t lo){
    dstr_t d = sm_dstr_in(sm_range(lo, n));
    unsigned mode = sm_u8() % 3;
    if(mode) for(size_t i = 0; i < d.len; i++) d.data[i] = mode == 1 ? "ab.."[d.data[i] & 3] : "a\0z\x80"[d.data[i] & 3];
    return d;
}
static bool same(dstr_t a, const char *p, size_t n){ return a.len == n && (!n || !memcmp(a.data, p, n)); }
SM_HARNESS(s_split){
    dstr_t t = any_text(24, 0);
    LIST_VAR(dstr_t, pats, 4); LIST_VAR(dstr_t, reps, 4);
    pats.len = reps.len = sm_range(1, 4);
    for(size_t p = 0; p < pats.len; p++){ pats.data[p] = any_text(3, 1); reps.data[p] = any_text(3, 0); }
    // find
    size_t fi = t.len, fp = 0, part = 0;
    for(size_t i = t.len; i-- > 0;) for(size_t p = pats.len; p-- > 0;) if(at(t, pats.data[p], i)){ fi = i; fp = p; }
    for(size_t p = 0; p < pats.len; p++) for(size_t k = 1; k < pats.data[p].len && k <= t.len; k++)
        if(!memcmp(t.data + t.len - k, pats.data[p].data, k) && k > part) part = k;
    if(fi < t.len) part = 0;
    size_t which = 9, partial = 9;
    char *r = dstr_find(&t, &pats, &which, &partial);
    SM_ASSERT(r == (fi < t.len ? t.data + fi : NULL), "first match");
    SM_ASSERT(which == fp, "first of the patterns that match there");
    SM_ASSERT(partial == part, "longest part of a pattern at the end");
    SM_ASSERT(dstr_find(&t, &pats, NULL, NULL) == r, "first match");
    // split
    size_t ws[32], wn[32], n = 0, s = 0;
    dstr_t pat = pats.data[0];
    for(size_t i = 0; i <= t.len;){
        if(i < t.len && at(t, pat, i)){ ws[n] = s; wn[n++] = i - s; i += pat.len; s = i; if(s > t.len) break; }
        else i++;
    }
    ws[n] = s; wn[n++] = t.len - s;
    dstr_t w[5]; size_t len = 9;
    size_t room = sm_range(1, 5);
    dstr_t *outs[5]; for(size_t i = 0; i < 5; i++) outs[i] = sm_u8() % 8 ? &w[i] : NULL;
    LIST(dstr_t) list = { malloc(room * sizeof(dstr_t)), room * sizeof(dstr_t), 0, true };
    bool soft = sm_bool();
    derr_t e = E_OK, e2;
    if(soft){ _dstr_split2_soft(t, pat, &len, outs, room); e2 = dstr_split_soft(&t, &pat, &list); }
    else{ e = _dstr_split2(t, pat, &len, outs, room); e2 = dstr_split(&t, &pat, &list); }
    SM_ASSERT((e.type == E_NONE) == (soft || n <= room) && (e2.type == E_NONE) == (soft || n <= room), "too many words are an error unless soft");
    bool bad = e.type;
    DROP_VAR(&e); DROP_VAR(&e2);
    if(!bad){
        size_t want = n < room ? n : room;
        SM_ASSERT(len == want && list.len == want, "number of words");
        for(size_t k = 0; k < want; k++){
            size_t l = k == want - 1 ? t.len - ws[k] : wn[k];
            SM_ASSERT(!outs[k] || same(w[k], t.data + ws[k], l), "word");
            SM_ASSERT(same(list.data[k], t.data + ws[k], l), "word");
        }
        for(size_t k = want; k < room; k++) SM_ASSERT(!outs[k] || (w[k].len == 0 && w[k].data == NULL), "unused outputs are empty");
    }
    free(list.data);
    // recode
    char exp[128]; size_t el = 0;
    bool has_stop = sm_bool(), force = sm_bool(), stopped = false; size_t stop = sm_range(0, 3);
    size_t c = 0;
    while(c < t.len && !stopped){
        size_t bi = t.len, bp = 0;
        for(size_t i = t.len; i-- > c;) for(size_t p = pats.len; p-- > 0;) if(at(t, pats.data[p], i)){ bi = i; bp = p; }
        size_t pt = 0;
        if(bi == t.len && !force) for(size_t p = 0; p < pats.len; p++) for(size_t k = 1; k < pats.data[p].len && k <= t.len - c; k++)
            if(!memcmp(t.data + t.len - k, pats.data[p].data, k) && k > pt) pt = k;
        memcpy(exp + el, t.data + c, bi - pt - c); el += bi - pt - c; c = bi - pt;
        if(bi == t.len) break;
        if(reps.data[bp].len) memcpy(exp + el, reps.data[bp].data, reps.data[bp].len);
        el += reps.data[bp].len; c = bi + pats.data[bp].len;
        if(has_stop && bp == stop) stopped = true;
    }
    DSTR_VAR(out, 128); DSTR_VAR(in, 32);
    memcpy(in.data, t.data, t.len); in.len = t.len;
    bool st = sm_bool();
    e = dstr_recode_stream(&in, &out, &pats, &reps, force, stop, has_stop ? &st : NULL);
    SM_ASSERT(e.type == E_NONE, "recode");
    SM_ASSERT(same(out, exp, el), "recoded text");
    SM_ASSERT(in.len == t.len - c && !memcmp(in.data, t.data + c, in.len), "input left");
    if(has_stop) SM_ASSERT(st == stopped, "end pattern reported");
    if(!has_stop && force){
        DSTR_VAR(o2, 128); o2.len = 2; o2.data[0] = o2.data[1] = 'q';
        bool app = sm_bool();
        e = dstr_recode(&t, &o2, &pats, &reps, app);
        SM_ASSERT(e.type == E_NONE, "recode");
        SM_ASSERT(o2.len == el + (app ? 2 : 0) && !memcmp(o2.data + (app ? 2 : 0), exp, el), "recoded text");
    }
}
#endif
