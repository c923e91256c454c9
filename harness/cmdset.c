/* which messages a command acts on: libimaildir/dn.c and the set builder of
   libimaildir/util.c.

   Trees, the iterator over a set (proved under C03 and I03) and the sending of
   responses are used by contract.  The mailbox and every list may have any
   length; one message or number, the witness, is followed exactly. */
#include "sm.h"
#ifdef SM_CBMC
SM_DEFINE_ERRORS
#endif
#ifdef SM_PROOF
#include "libimaildir/libimaildir.h"
static bool gh_oom;
static void *sm_malloc(size_t n){
    if(gh_oom && sm_bool()) return NULL;
    void *p = malloc(n);
    SM_ASSUME(p != NULL);
    return p;
}
static void l_free(void *p);
static jsw_anode_t *sm_hv_ssbe(void);
static ie_seq_set_t *sm_hv_set(void);
static void sm_hv_extract(void);
static bool gh_extract(ie_seq_set_t *base, ie_seq_set_t *cur, jsw_anode_t *node);
static size_t gh_ssbe_left(void);
static jsw_anode_t *sm_hv_popped(void);
static void sm_hv_ssbfree(void);
static bool gh_popped(jsw_anode_t *node);
#define malloc sm_malloc
#define free(x) l_free(x)
#include "libimaildir/util.c"
#undef free
static jsw_anode_t *sm_hv_view(void);
static ie_nums_t *sm_hv_nums(void);
static void sm_hv_search(void);
#define gh_search(node, seq, nums, loader) gh_search_(node, seq, nums, (loader)->content == NULL && (loader)->hdrs == NULL && (loader)->imf == NULL && !(loader)->open)
static bool gh_search_(jsw_anode_t *node, unsigned seq, ie_nums_t *nums, bool closed);
static size_t gh_views_left(void);
static const ie_seq_set_t *sm_hv_range(void);
static bool gh_range(const ie_seq_set_t *p);
static void gh_range_step(const ie_seq_set_t *p);
static size_t gh_ranges_left(void);
static void sm_hv_canon(void);
static bool gh_canon(unsigned i);
static size_t gh_nums_left(void);
static msg_key_list_t *sm_hv_keys(void);
static bool gh_keys(unsigned i, msg_key_list_t *keys, bool wanted);
static bool gh_store(dn_t *dn, unsigned i);
static bool gh_expunge(jsw_anode_t *node, msg_key_list_t *keys);
static const ie_fetch_extra_t *sm_hv_extra(void);
static bool gh_extra(const ie_fetch_extra_t *p);
static void gh_extra_step(const ie_fetch_extra_t *p);
static size_t gh_extras_left(void);
// loop contracts of the same file which belong to I08 and I09 (harness/dnview.c)
#define sm_hv_gathered(...) NULL
#define sm_hv_update(...) NULL
#define gh_next_update(...) NULL
#define sm_hv_exp(...) NULL
#define sm_hv_met(...) NULL
#define sm_hv_unseen(...) NULL
#define sm_hv_part(...) NULL
#define gh_fresp(...) NULL
#define sm_hv_hdr(...) NULL
#define gh_flds(...) NULL
#define sm_hv_name(...) NULL
#define sm_hv_send(...) (void)0
#define sm_hv_updates(...) (void)0
#define gh_update_step(...) (void)0
#define sm_hv_merge(...) (void)0
#define sm_hv_parts(...) (void)0
#define gh_part_step(...) (void)0
#define sm_hv_flds(...) (void)0
#define gh_hdr_step(...) (void)0
#define gh_name_step(...) (void)0
#define gh_gathered(...) true
#define gh_update(...) true
#define gh_merge(...) true
#define gh_unseen(...) true
#define gh_part(...) true
#define gh_hdr(...) true
#define gh_name(...) true
#define gh_gathered_left(...) 0
#define gh_updates_left(...) 0
#define gh_merge_left(...) 0
#define gh_unseen_left(...) 0
#define gh_parts_left(...) 0
#define gh_hdrs_left(...) 0
#define gh_names_left(...) 0
static msg_view_t *gh_wview;
#define free(x) l_free(x)
#include "libimaildir/dn.c"
#undef malloc
#undef free
#define FAIL(c) do { if(sm_bool()) return (derr_t){ .type = c }; } while(0)
static bool covers(unsigned n1, unsigned n2, unsigned v){ return n1 <= v && v <= n2; }

/* ==== the builder: a bag of ranges.  Sorted by n1 when traversed */
static seq_set_builder_t gh_ssb;
static seq_set_builder_elem_t *gh_el; static size_t gh_eleft;  // the one at hand; how many are left
static unsigned gh_v, gh_last1; static bool gh_seen;           // a number; covered by the ones before gh_el
static size_t gh_ssbe_left(void){ return gh_eleft; }
static seq_set_builder_elem_t *new_elem(void){
    seq_set_builder_elem_t *el = malloc(sizeof(*el));
    SM_ASSUME(el != NULL);
    el->n1 = sm_u32(); el->n2 = sm_u32();
    SM_ASSUME(el->n1 >= 1 && el->n1 <= el->n2);
    return el;
}
#if P_UNIT == 1 || P_UNIT == 2
static unsigned gh_erase;
static void l_free(void *p){ SM_ASSERT(p && p == gh_el, "each element is freed once, after it is out of the tree"); free(p); gh_el = NULL; }
#endif
#if P_UNIT == 1
static ie_seq_set_t *gh_base, *gh_curset, *gh_prev; static unsigned gh_prevmax; static bool gh_done;
static unsigned gh_setfreed, gh_ssbfreed;
static jsw_anode_t *next_elem(void){
    if(gh_el && covers(gh_el->n1, gh_el->n2, gh_v)) gh_seen = true;
    if(!gh_eleft){ gh_el = NULL; return NULL; }
    gh_eleft--;
    gh_el = new_elem();
    SM_ASSUME(gh_el->n1 >= gh_last1);
    gh_last1 = gh_el->n1;
    return &gh_el->node;
}
jsw_anode_t *jsw_atfirst(jsw_atrav_t *trav, jsw_atree_t *tree){ (void)trav; SM_ASSERT(tree == &gh_ssb, "the builder"); return next_elem(); }
jsw_anode_t *jsw_atnext(jsw_atrav_t *trav){ (void)trav; return next_elem(); }
static ie_seq_set_t *new_set(unsigned n1, unsigned n2){
    ie_seq_set_t *s = malloc(sizeof(*s));
    SM_ASSUME(s != NULL);
    *s = (ie_seq_set_t){ .n1 = n1, .n2 = n2 };
    return s;
}
ie_seq_set_t *ie_seq_set_new(derr_t *e, unsigned n1, unsigned n2){
    if(e->type) return NULL;
    if(sm_bool()){ e->type = E_NOMEM; return NULL; }
    ie_seq_set_t *s = new_set(n1, n2);
    if(!gh_base) gh_base = s;
    else { if(covers(gh_curset->n1, gh_curset->n2, gh_v)) gh_done = true; gh_prev = gh_curset; gh_prevmax = gh_prev->n2; }
    gh_curset = s;
    return s;
}
void ie_seq_set_free(ie_seq_set_t *s){ SM_ASSERT(s == gh_base && s, "the whole list is freed"); gh_setfreed++; }
void c_seq_set_builder_free(seq_set_builder_t *ssb){ SM_ASSERT(ssb == &gh_ssb, "the builder"); gh_ssbfreed++; }
static bool gh_extract(ie_seq_set_t *base, ie_seq_set_t *cur, jsw_anode_t *node){
    return node != NULL && node == &gh_el->node && gh_el->n1 == gh_last1 && gh_el->n1 >= 1 && gh_el->n1 <= gh_el->n2 && gh_eleft < SM_HUGE
        && base != NULL && base == gh_base && cur != NULL && cur == gh_curset && cur->next == NULL
        && cur->n1 >= 1 && cur->n1 <= cur->n2 && cur->n1 <= gh_last1
        && (gh_prev ? gh_prev->next == cur && gh_prev->n2 == gh_prevmax && gh_prevmax < cur->n1 - 1 && base != cur : base == cur && !gh_done)
        && gh_seen == (gh_done || covers(cur->n1, cur->n2, gh_v));
}
static jsw_anode_t *sm_hv_ssbe(void){
    SM_MODPTR(gh_el, new_elem()) SM_MOD(gh_eleft) SM_MOD(gh_last1) SM_MODB(gh_seen)
    return &gh_el->node;
}
static ie_seq_set_t *sm_hv_set(void){
    gh_base->n1 = sm_u32(); gh_base->n2 = sm_u32(); gh_base->next = NULL;
    SM_MODPTR(gh_curset, gh_base) SM_MODPTR(gh_prev, NULL) SM_MOD(gh_prevmax) SM_MODB(gh_done)
    if(sm_bool()){
        SM_MODPTR(gh_curset, new_set(sm_u32(), sm_u32()))
        SM_MODPTR(gh_prev, gh_base)
        if(sm_bool()){ SM_MODPTR(gh_prev, new_set(sm_u32(), sm_u32())) gh_base->next = gh_prev; }
        gh_prev->next = gh_curset;
    }
    return gh_curset;
}
static void sm_hv_extract(void){ SM_MODPTR(gh_base, gh_base) }
SM_HARNESS(p_extract){
    gh_v = sm_u32(); gh_seen = gh_done = false; gh_base = gh_curset = gh_prev = NULL; gh_el = NULL; gh_last1 = 1;
    gh_setfreed = gh_ssbfreed = 0;
    gh_eleft = sm_len(0); SM_ASSUME(gh_eleft < SM_HUGE);
    bool empty = gh_eleft == 0;
    derr_t e = { .type = sm_bool() ? E_NOMEM : E_NONE };
    bool pre = e.type != E_NONE;
    ie_seq_set_t *s = seq_set_builder_extract(&e, &gh_ssb);
    SM_ASSERT(gh_ssbfreed == 1, "the builder is used up, whatever happens");
    if(e.type){
        SM_ASSERT(s == NULL && gh_setfreed == (gh_base != NULL), "nothing is kept after an error");
        if(!pre) SM_COVER("out of memory"); else SM_ASSERT(!gh_base, "an earlier error stays");
        return;
    }
    SM_ASSERT((s == NULL) == empty && s == gh_base && !gh_setfreed, "no set for no numbers");
    if(!s){ SM_COVER("empty"); return; }
    SM_ASSERT(gh_eleft == 0 && !gh_el, "every range is used");
    SM_ASSERT(gh_curset->next == NULL && (gh_prev ? gh_prev->next == gh_curset && gh_prev->n2 < gh_curset->n1 - 1 : gh_curset == s), "ranges are in order, do not touch, and are linked");
    SM_ASSERT(gh_seen == (gh_done || covers(gh_curset->n1, gh_curset->n2, gh_v)), "the set has exactly the numbers put in");
    if(gh_prev) SM_COVER("more than one"); else SM_COVER("one");
    if(gh_seen) SM_COVER("in"); else SM_COVER("out");
}
#elif P_UNIT == 2
static unsigned gh_ins;
jsw_anode_t *jsw_apop(jsw_atree_t *tree){
    SM_ASSERT(tree == &gh_ssb && !gh_el, "the one before is freed");
    if(!gh_eleft) return NULL;
    gh_eleft--; gh_el = new_elem();
    return &gh_el->node;
}
jsw_anode_t *jsw_aerase(jsw_atree_t *tree, const void *val){ SM_ASSERT(*(const unsigned*)val == gh_erase, "the value"); return jsw_apop(tree); }
jsw_anode_t *jsw_atfirst(jsw_atrav_t *trav, jsw_atree_t *tree){
    SM_ASSERT(tree == &gh_ssb, "the builder");
    (void)trav;
    if(!gh_eleft) return NULL;
    gh_el = new_elem(); gh_el->n2 = gh_el->n1 = gh_v;
    return &gh_el->node;
}
jsw_anode_t *jsw_pop_atnext(jsw_atrav_t *trav){ (void)trav; SM_ASSERT(gh_el && gh_eleft, "the first one is removed"); gh_eleft--; return NULL; }
void jsw_ainsert(jsw_atree_t *tree, jsw_anode_t *node){
    SM_ASSERT(tree == &gh_ssb, "the builder");
    gh_el = CONTAINER_OF(node, seq_set_builder_elem_t, node);
    gh_ins++;
}
static jsw_anode_t *sm_hv_popped(void){ SM_MODPTR(gh_el, new_elem()) SM_MOD(gh_eleft) return &gh_el->node; }
static void sm_hv_ssbfree(void){ }
static bool gh_popped(jsw_anode_t *node){ return node != NULL && node == &gh_el->node; }
static void init(void){ gh_el = NULL; gh_eleft = sm_len(0); SM_ASSUME(gh_eleft < SM_HUGE); gh_ins = 0; }
SM_HARNESS(p_ssb_free){
    init();
    size_t n = gh_eleft;
    seq_set_builder_free(&gh_ssb);
    SM_ASSERT(!gh_eleft && !gh_el, "every element is freed");
    if(n > 1) SM_COVER("many");
    gh_erase = sm_u32();
    gh_eleft = sm_len(0); SM_ASSUME(gh_eleft < SM_HUGE);
    seq_set_builder_del_val(&gh_ssb, gh_erase);
    SM_ASSERT(!gh_eleft && !gh_el, "every element with the value is removed and freed");
}
SM_HARNESS(p_ssb_add){
    init();
    unsigned n1 = sm_u32(), n2 = sm_u32(); bool val = sm_bool();
    if(val) n2 = n1;
    gh_oom = true;
    derr_t e = val ? seq_set_builder_add_val(&gh_ssb, n1) : seq_set_builder_add_range(&gh_ssb, n1, n2);
    if(e.type){ SM_ASSERT(!gh_ins && (e.type == E_NOMEM || (e.type == E_PARAM && (!n1 || !n2))), "0 is refused"); SM_COVER("refused"); return; }
    unsigned lo = n1 < n2 ? n1 : n2, hi = n1 < n2 ? n2 : n1;
    SM_ASSERT(lo && gh_ins == 1 && gh_el->n1 == lo && gh_el->n2 == hi, "the range is put in, lowest first");
    if(val) SM_COVER("number"); else SM_COVER("range");
}
SM_HARNESS(p_ssb_pop){
    init();
    size_t n = gh_eleft;
    gh_v = sm_u32(); SM_ASSUME(gh_v >= 1);
    unsigned r = seq_set_builder_pop_val(&gh_ssb);
    SM_ASSERT(n ? r == gh_v && gh_eleft == n - 1 && !gh_el : r == 0 && gh_eleft == 0, "the first number is taken out");
    if(n) SM_COVER("popped"); else SM_COVER("empty");
}
#else
/* ==== the mailbox: views in order of their uid, at 0 .. gh_size - 1 */
static dn_t gh_dn;
static size_t gh_size, gh_wi; static unsigned gh_wu, gh_fu, gh_lu; static bool gh_in;    // the witness is at gh_wi, if it is in; first and last uid
static bool gh_evald; static msg_view_t *gh_at; static size_t gh_pos;        // the view returned last, and where it is
static unsigned gh_uidmax;
static msg_view_t *other_view(unsigned uid){
    msg_view_t *v = malloc(sizeof(*v));
    SM_ASSUME(v != NULL);
    v->uid_dn = uid; v->key.uid_up = sm_u32(); v->key.uid_local = sm_u32();
    v->flags.seen = sm_bool(); v->flags.deleted = sm_bool(); v->flags.answered = sm_bool(); v->flags.flagged = sm_bool(); v->flags.draft = sm_bool();
    SM_ASSUME(uid >= 1 && uid <= gh_lu && uid >= gh_fu && uid != gh_wu);
    SM_ASSUME(v->key.uid_up != gh_wview->key.uid_up || v->key.uid_local != gh_wview->key.uid_local);
    return v;
}
static void init_views(void){
    gh_size = sm_len(0);
    gh_dn.views.size = gh_size;
    gh_wu = sm_u32(); gh_fu = sm_u32(); gh_lu = sm_u32(); gh_in = sm_bool(); gh_wi = sm_len(0);
    SM_ASSUME(gh_size < SM_HUGE);
    SM_ASSUME(gh_wu >= 1 && gh_fu >= 1 && gh_fu <= gh_lu && (gh_size == 1) <= (gh_fu == gh_lu) && (gh_size < 2 || gh_fu < gh_lu));
    if(gh_size == 0) SM_ASSUME(!gh_in);
    if(gh_in) SM_ASSUME(gh_wi < gh_size && gh_fu <= gh_wu && gh_wu <= gh_lu && (gh_wi == 0) == (gh_wu == gh_fu) && (gh_wi == gh_size - 1) == (gh_wu == gh_lu));
    else if(gh_size) SM_ASSUME(gh_wu != gh_fu && gh_wu != gh_lu);
    msg_view_t *v = malloc(sizeof(*v));
    SM_ASSUME(v != NULL);
    v->uid_dn = gh_wu; v->key.uid_up = sm_u32(); v->key.uid_local = sm_u32();
    v->flags.seen = sm_bool(); v->flags.deleted = sm_bool(); v->flags.answered = sm_bool(); v->flags.flagged = sm_bool(); v->flags.draft = sm_bool();
    gh_wview = v;
    gh_at = NULL; gh_pos = 0;
}
static jsw_anode_t *view_at(size_t i){
    if(i >= gh_size){ gh_at = NULL; return NULL; }
    if(gh_in && i == gh_wi){ gh_at = gh_wview; return &gh_at->node; }
    gh_at = other_view(i == 0 ? gh_fu : i == gh_size - 1 ? gh_lu : sm_u32());
    return &gh_at->node;
}
jsw_anode_t *jsw_atfirst(jsw_atrav_t *trav, jsw_atree_t *tree){ SM_ASSERT(tree == &gh_dn.views, "the views"); trav->tree = tree; gh_pos = 0; return view_at(0); }
jsw_anode_t *jsw_atlast(jsw_atrav_t *trav, jsw_atree_t *tree){ SM_ASSERT(tree == &gh_dn.views, "the views"); trav->tree = tree; gh_pos = gh_size - 1; return view_at(gh_pos); }
jsw_anode_t *jsw_atnext(jsw_atrav_t *trav){ (void)trav; gh_pos++; return view_at(gh_pos); }
jsw_anode_t *jsw_atprev(jsw_atrav_t *trav){ (void)trav; gh_evald = false; if(gh_pos == 0){ gh_at = NULL; gh_pos = SIZE_MAX; return NULL; } gh_pos--; return view_at(gh_pos); }
jsw_anode_t *jsw_aindex(jsw_atree_t *tree, size_t idx){ SM_ASSERT(tree == &gh_dn.views, "the views"); return view_at(idx); }
static bool gh_canonical;
jsw_anode_t *jsw_afind(jsw_atree_t *tree, const void *val, size_t *idx){
    SM_ASSERT(tree == &gh_dn.views && !idx, "the views");
    unsigned uid = *(const unsigned*)val;
    if(uid == gh_wu){ gh_at = gh_in ? gh_wview : NULL; return gh_in ? &gh_at->node : NULL; }
    if(!gh_canonical && (uid < gh_fu || uid > gh_lu || sm_bool())){ gh_at = NULL; return NULL; }
    gh_at = other_view(uid);
    return &gh_at->node;
}
/* ---- the numbers of a set.  In bounds gh_lo .. gh_hi; a canonical set has only uids in the mailbox, each once */
static const ie_seq_set_t *gh_set; static unsigned gh_lo, gh_hi;
static size_t gh_nleft; static unsigned gh_i, gh_wn;   // numbers left; the one at hand; the witness's (0: it has none)
static bool gh_named, gh_wprev, gh_wpend;              // the witness is in the set; was among those before gh_i; is still to come
static size_t gh_nums_left(void){ return gh_nleft; }
static void check_bounds(unsigned min, unsigned max);
static unsigned next_num(void){
    if(gh_i && gh_i == gh_wn) gh_wprev = true;
    if(!gh_nleft){ gh_i = 0; return 0; }
    gh_nleft--;
    unsigned n = sm_u32();
    SM_ASSUME(n >= 1 && gh_lo <= n && n <= gh_hi);
    if(gh_nleft == 0 && gh_wpend) SM_ASSUME(n == gh_wn);
    if(n == gh_wn){
        SM_ASSUME(gh_named);
        if(gh_canonical) SM_ASSUME(!gh_wprev);
        gh_wpend = false;
    }
    gh_i = n;
    return n;
}
static void init_nums(void){ gh_nleft = sm_len(0); SM_ASSUME(gh_nleft < SM_HUGE); gh_wprev = false; gh_i = 0; gh_wpend = gh_named; if(gh_named) SM_ASSUME(gh_nleft >= 1 && gh_wn); }
unsigned ie_seq_set_iter(ie_seq_set_trav_t *trav, const ie_seq_set_t *set, unsigned min, unsigned max){
    SM_ASSERT(set == gh_set, "the set of the command");
    check_bounds(min, max);
    trav->ptr = set;
    return next_num();
}
unsigned ie_seq_set_next(ie_seq_set_trav_t *trav){ SM_ASSERT(trav->ptr == gh_set, "a started iteration"); return next_num(); }
static bool nums_ok(unsigned i){
    return i != 0 && i == gh_i && gh_lo <= i && i <= gh_hi && gh_nleft < SM_HUGE && gh_wpend == (gh_named && !gh_wprev && i != gh_wn) && (!gh_wpend || gh_nleft)
        && (i != gh_wn || gh_named) && (!gh_wprev || gh_named) && (!gh_canonical || i != gh_wn || !gh_wprev);
}
#if P_UNIT == 3
/* ---- seq_set_to_canonical_uids_dn */
static bool gh_uidmode, gh_big, gh_added, gh_any, gh_uses, gh_ssbfreed; static ie_seq_set_t *gh_rnode; static size_t gh_rleft;
static ie_seq_set_t gh_res;
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
static void check_bounds(unsigned min, unsigned max){
    if(gh_uidmode){ SM_ASSERT(max == gh_lu, "'*' is the largest uid in the mailbox"); SM_ASSERT(min >= 1 && min <= gh_fu, "no uid in the mailbox is left out"); }
    else { SM_ASSERT(max == gh_size, "'*' is the largest sequence number"); SM_ASSERT(min == 1, "sequence numbers start at 1"); }
    SM_ASSERT(min <= max, "some number is in bounds");
    gh_lo = min; gh_hi = max;
    SM_ASSUME(!gh_named || (min <= gh_wn && gh_wn <= max));
}
static ie_seq_set_t *new_range(void){
    ie_seq_set_t *n = malloc(sizeof(*n));
    SM_ASSUME(n != NULL);
    n->n1 = sm_u32(); n->n2 = sm_u32(); n->next = NULL;
    return n;
}
#define NEW_RANGES { SM_MOD(gh_rleft) SM_MOD(gh_rnode) SM_ASSUME(gh_rleft < SM_HUGE); gh_rnode = NULL; if(gh_rleft > 0) gh_rnode = new_range(); if(gh_rleft > 1) gh_rnode->next = new_range(); }
static const ie_seq_set_t *sm_hv_range(void){ NEW_RANGES SM_MODB(gh_big) return gh_rnode; }
static bool gh_range(const ie_seq_set_t *p){ return p == gh_rnode && !gh_big && gh_rleft >= 1; }
static void gh_range_step(const ie_seq_set_t *p){ if(p->n1 > gh_size || p->n2 > gh_size) gh_big = true; gh_rnode = gh_rnode->next; gh_rleft--; }
static size_t gh_ranges_left(void){ return gh_rleft; }
void c_seq_set_builder_prep(seq_set_builder_t *ssb){ (void)ssb; SM_ASSERT(!gh_uses, "one builder"); gh_uses = true; }
void c_seq_set_builder_free(seq_set_builder_t *ssb){ (void)ssb; SM_ASSERT(gh_uses && !gh_ssbfreed, "freed once"); gh_ssbfreed = true; }
derr_t c_seq_set_builder_add_val(seq_set_builder_t *ssb, unsigned v){
    (void)ssb;
    SM_ASSERT(gh_uses && !gh_ssbfreed, "a builder");
    SM_ASSERT(gh_at && v == gh_at->uid_dn, "the uid of the message just looked up");
    if(sm_bool()) return (derr_t){ .type = E_NOMEM };
    gh_any = true;
    if(v == gh_wu) gh_added = true;
    return E_OK;
}
ie_seq_set_t *c_seq_set_builder_extract(derr_t *e, seq_set_builder_t *ssb){
    c_seq_set_builder_free(ssb);
    if(e->type || !gh_any) return NULL;
    if(sm_bool()){ e->type = E_NOMEM; return NULL; }
    return &gh_res;
}
static bool gh_canon(unsigned i){ return nums_ok(i) && gh_added == (gh_wprev && gh_in) && (!gh_added || gh_any) && gh_uses && !gh_ssbfreed; }
static void sm_hv_canon(void){
    SM_MOD(gh_nleft) SM_MOD(gh_i) SM_MODB(gh_wprev) SM_MODB(gh_wpend) SM_MODB(gh_added) SM_MODB(gh_any) SM_MOD(gh_at) SM_MODB(gh_uses) SM_MODB(gh_ssbfreed)
}
SM_HARNESS(p_canonical){
    init_views();
    NEW_RANGES
    gh_set = gh_rnode; gh_big = gh_added = gh_any = gh_uses = gh_ssbfreed = gh_canonical = false;
    gh_uidmode = sm_bool();
    gh_wn = gh_uidmode ? gh_wu : gh_in ? (unsigned)gh_wi + 1 : 0;
    gh_named = sm_bool();
    // (the witness's number is one of the numbers of the mailbox)
    if(gh_uidmode ? gh_wu < gh_fu || gh_wu > gh_lu : gh_wn == 0 || gh_size > UINT_MAX) gh_named = false;
    init_nums();
    ie_seq_set_t *out = &gh_res; bool ok = sm_bool();
    derr_t e = seq_set_to_canonical_uids_dn(&gh_dn, gh_uidmode, gh_set, &out, &ok);
    SM_ASSERT(!gh_uses || gh_ssbfreed, "the builder is freed");
    if(e.type){ SM_ASSERT(out == NULL && (e.type == E_NOMEM || gh_size > UINT_MAX), "only memory can run out"); SM_COVER("error"); return; }
    if(!ok){
        SM_ASSERT(!gh_uidmode && (gh_size == 0 || gh_big), "a set is refused only if it has a sequence number that does not exist");
        SM_ASSERT(out == NULL, "then there is no result");
        if(gh_size) SM_COVER("too large"); else SM_COVER("empty mailbox");
        return;
    }
    if(gh_size == 0){ SM_ASSERT(gh_uidmode && !out, "an empty mailbox has no uids"); return; }
    if(!gh_uidmode) SM_ASSERT(!gh_big && gh_rleft == 0, "every range of the set was looked at");
    SM_ASSERT(gh_added == (gh_named && gh_in), "a message is in the result exactly if the set names it");
    SM_ASSERT(out == (gh_any ? &gh_res : NULL), "the result is what was put in");
    if(gh_added){ if(gh_uidmode) SM_COVER("by uid"); else SM_COVER("by sequence number"); }
    if(gh_uidmode && gh_named && !gh_in) SM_COVER("a uid that does not exist");
    if(!gh_named && gh_in) SM_COVER("not named");
}
#elif P_UNIT == 5
/* ---- dn_search_loop */
static ie_search_key_t gh_skey; static ie_search_cmd_t gh_cmd; static bool gh_wmatch, gh_hasnum, gh_numsfreed, gh_open;
static ie_nums_t *gh_nums, *gh_newnum; static bool gh_newisw;
static imf_hdrs_t *gh_hdrs; static imf_t *gh_imf; static ie_dstr_t *gh_content;
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
static void check_bounds(unsigned min, unsigned max){ (void)min; (void)max; }
static size_t gh_views_left(void){ return gh_pos + 1; }
void imf_hdrs_free(imf_hdrs_t *p){ if(!p) return; SM_ASSERT(p == gh_hdrs, "headers are freed once"); gh_hdrs = NULL; }
void imf_free(imf_t *p){ if(!p) return; SM_ASSERT(p == gh_imf, "a parsed message is freed once"); gh_imf = NULL; }
void ie_dstr_free(ie_dstr_t *p){ if(!p) return; SM_ASSERT(p == gh_content, "content is freed once"); gh_content = NULL; }
void imaildir_dn_close_msg(imaildir_t *m, const msg_key_t key, int *fd){
    SM_ASSERT(m == gh_dn.m && gh_open, "an open message");
    SM_ASSERT(gh_at && key.uid_up == gh_at->key.uid_up && key.uid_local == gh_at->key.uid_local, "it is closed by its own key");
    gh_open = false; *fd = -1;
}
derr_t search_key_eval(const ie_search_key_t *key, const msg_view_t *view, unsigned seq, unsigned seq_max, unsigned uid_dn_max, derr_t (*get_hdrs)(void*, const imf_hdrs_t**), void *hd, derr_t (*get_imf)(void*, const imf_t**), void *id, bool *out){
    SM_ASSERT(key == &gh_skey && view == gh_at && !gh_evald, "the key is tried on each message, once");
    SM_ASSERT(seq == gh_pos + 1, "with its sequence number");
    SM_ASSERT(seq_max == gh_size, "and the largest sequence number");
    SM_ASSERT(uid_dn_max == gh_lu, "and the largest uid");
    SM_ASSERT(get_hdrs == _loader_parse_hdrs_fn && get_imf == _loader_parse_imf_fn && hd == id, "headers and message come from the same loader");
    loader_t *l = hd;
    SM_ASSERT(l->m == gh_dn.m && l->key.uid_up == view->key.uid_up && l->key.uid_local == view->key.uid_local && !l->open && !l->content && !l->hdrs && !l->imf && !l->taken && !l->eof, "a fresh one for this message");
    gh_evald = true;
    // it may load any part
    if(sm_bool()){ l->open = true; gh_open = true; gh_content = malloc(sizeof(*gh_content)); SM_ASSUME(gh_content != NULL); l->content = gh_content; }
    if(l->open && sm_bool()){ gh_hdrs = malloc(sizeof(*gh_hdrs)); SM_ASSUME(gh_hdrs != NULL); l->hdrs = gh_hdrs; }
    if(l->open && sm_bool()){ gh_imf = malloc(sizeof(*gh_imf)); SM_ASSUME(gh_imf != NULL); l->imf = gh_imf; }
    if(sm_bool()) return (derr_t){ .type = E_FS };
    *out = view == gh_wview ? gh_wmatch : sm_bool();
    return E_OK;
}
static ie_nums_t *num(void){ ie_nums_t *n = malloc(sizeof(*n)); SM_ASSUME(n != NULL); return n; }
ie_nums_t *ie_nums_new(derr_t *e, unsigned n){
    if(e->type || sm_bool()){ if(!e->type) e->type = E_NOMEM; return NULL; }
    SM_ASSERT(gh_at && !gh_newnum, "one number for a message");
    SM_ASSERT(n == (gh_cmd.uid_mode ? gh_at->uid_dn : gh_pos + 1), "the number of a message is its uid, or its sequence number");
    gh_newisw = gh_at == gh_wview;
    ie_nums_t *x = num();
    if(!gh_nums){ gh_nums = x; gh_hasnum = gh_newisw; }     // the list itself
    else gh_newnum = x;
    return x;
}
ie_nums_t *ie_nums_append(derr_t *e, ie_nums_t *nums, ie_nums_t *next){
    // (on an error, both are freed)
    if(e->type){ SM_ASSERT(!nums && next == gh_nums, "the list"); gh_nums = NULL; gh_newnum = NULL; return NULL; }
    SM_ASSERT(nums == gh_newnum && next == gh_nums && nums && next, "the new number is joined to the list");
    gh_hasnum = gh_hasnum || gh_newisw;
    gh_nums = nums; gh_newnum = NULL;
    return nums;
}
void ie_nums_free(ie_nums_t *n){ if(n){ SM_ASSERT(n == gh_nums, "the list"); gh_nums = NULL; } gh_numsfreed = true; }
static jsw_anode_t *gh_hv;
static jsw_anode_t *sm_hv_view(void){
    SM_MOD(gh_pos) SM_MODPTR(gh_at, gh_wview)
    SM_ASSUME(gh_pos < gh_size);
    if(!gh_in || gh_pos != gh_wi) SM_MODPTR(gh_at, other_view(gh_pos == 0 ? gh_fu : gh_pos == gh_size - 1 ? gh_lu : sm_u32()))
    return &gh_at->node;
}
static ie_nums_t *sm_hv_nums(void){ SM_MODPTR(gh_nums, sm_bool() ? NULL : num()) SM_MODPTR(gh_newnum, NULL) SM_MODB(gh_hasnum) SM_MODB(gh_newisw) return gh_nums; }
static void sm_hv_search(void){ SM_MODB(gh_evald) SM_MODB(gh_open) SM_MODPTR(gh_hdrs, NULL) SM_MODPTR(gh_imf, NULL) SM_MODPTR(gh_content, NULL) SM_MODB(gh_numsfreed) }
static bool gh_search_(jsw_anode_t *node, unsigned seq, ie_nums_t *nums, bool closed){
    // (closed: nothing is left to free but what loader_close() has freed)
    (void)closed;
    return node != NULL && gh_at != NULL && node == &gh_at->node && gh_pos < gh_size && seq == gh_pos + 1 && nums == gh_nums && !gh_newnum
        && (gh_at == gh_wview) == (gh_in && gh_pos == gh_wi) && (gh_pos != gh_size - 1 || gh_at->uid_dn == gh_lu)
        && gh_hasnum == (gh_in && gh_wmatch && gh_wi > gh_pos) && (!gh_hasnum || nums) && !gh_open && !gh_hdrs && !gh_imf && !gh_content && !gh_numsfreed && !gh_evald;
}
SM_HARNESS(p_search){
    init_views();
    SM_ASSUME(gh_size >= 1 && gh_size <= UINT_MAX);
    gh_wmatch = sm_bool(); gh_hasnum = gh_numsfreed = gh_open = gh_evald = false; gh_nums = gh_newnum = NULL; gh_hdrs = NULL; gh_imf = NULL; gh_content = NULL;
    gh_cmd = (ie_search_cmd_t){ .uid_mode = sm_bool(), .search_key = &gh_skey };
    ie_nums_t *out = NULL;
    derr_t e = dn_search_loop(&gh_dn, &gh_cmd, (unsigned)gh_size, &out);
    SM_ASSERT(!gh_open && !gh_hdrs && !gh_imf && !gh_content, "every message loaded is closed, and freed once");
    if(e.type){ SM_ASSERT(!out && !gh_nums, "no result after an error"); SM_COVER("error"); return; }
    SM_ASSERT(out == gh_nums, "the list is the result");
    SM_ASSERT(gh_hasnum == (gh_in && gh_wmatch), "a message is in the result exactly if it matches");
    if(gh_hasnum) SM_COVER("match");
    if(gh_in && !gh_wmatch) SM_COVER("no match");
    if(!out) SM_COVER("nothing");
}
#else
/* ---- lists of keys */
static msg_key_list_t *gh_list, *gh_lost; static bool gh_haswit; static unsigned gh_freed;
msg_key_list_t *msg_key_list_new(derr_t *e, const msg_key_t key, msg_key_list_t *tail){
    SM_ASSERT(tail == gh_list, "the list grows");
    if(e->type || sm_bool()){ if(!e->type) e->type = E_NOMEM; gh_list = NULL; return NULL; }
    SM_ASSERT(gh_at && key.uid_up == gh_at->key.uid_up && key.uid_local == gh_at->key.uid_local, "the key of the message just looked up");
    if(gh_at == gh_wview){ SM_ASSERT(!gh_haswit, "each message once"); gh_haswit = true; }
    msg_key_list_t *n = malloc(sizeof(*n));
    SM_ASSUME(n != NULL);
    n->next = tail; n->key = key;
    gh_list = n;
    return n;
}
void msg_key_list_free(msg_key_list_t *keys){ if(!keys) return; SM_ASSERT(keys == gh_list, "freed once"); gh_list = NULL; gh_freed++; }
static msg_key_list_t *any_keys(void){ if(sm_bool()) return NULL; msg_key_list_t *n = malloc(sizeof(*n)); SM_ASSUME(n != NULL); return n; }
static msg_key_list_t *sm_hv_keys(void){ SM_MODPTR(gh_list, any_keys()) SM_MODB(gh_haswit) SM_MOD(gh_freed) return gh_list; }
static bool gh_keys(unsigned i, msg_key_list_t *keys, bool wanted){ return nums_ok(i) && keys == gh_list && gh_haswit == (wanted && gh_wprev) && (!gh_haswit || keys) && gh_freed == 0; }
static ie_seq_set_t gh_uids;
static void init_keys(void){
    gh_list = NULL; gh_haswit = false; gh_freed = 0; gh_canonical = true; gh_set = &gh_uids; gh_lo = 1; gh_hi = UINT_MAX;
    gh_wn = gh_wu; gh_named = sm_bool();
    if(!gh_in) gh_named = false;
    gh_lo = gh_fu; gh_hi = gh_lu;
    init_nums();
}
static void check_bounds(unsigned min, unsigned max){ SM_ASSERT(min == 0 && max == 0, "the whole set"); }
#if P_UNIT == 4
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
static void sm_hv_canon(void){ SM_MOD(gh_nleft) SM_MOD(gh_i) SM_MODB(gh_wprev) SM_MODB(gh_wpend) SM_MOD(gh_at) }
#define CHECK_KEYS(fn, wanted) \
    init_views(); SM_ASSUME(gh_size >= 1); init_keys(); \
    msg_key_list_t *out; \
    derr_t e = fn(&gh_dn, &gh_uids, &out); \
    if(e.type){ SM_ASSERT(out == NULL && e.type == E_NOMEM && !gh_list, "nothing is left after an error"); SM_COVER("error"); return; } \
    SM_ASSERT(out == gh_list && gh_freed == 0, "the list is the result"); \
    SM_ASSERT(gh_haswit == (gh_named && (wanted)), "a message is in the list exactly if it is in the set and wanted"); \
    if(gh_haswit) SM_COVER("listed"); \
    if(gh_in && !gh_haswit) SM_COVER("not listed");
SM_HARNESS(p_keys){ CHECK_KEYS(uids_dn_to_msg_keys, true) }
SM_HARNESS(p_nonpeek){ CHECK_KEYS(nonpeek_msgs, !gh_wview->flags.seen) }
#elif P_UNIT == 7
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
static size_t gh_views_left(void){ return gh_size - gh_pos; }
static jsw_anode_t *sm_hv_view(void){
    SM_MOD(gh_pos) SM_MODPTR(gh_at, gh_wview)
    SM_ASSUME(gh_pos < gh_size);
    if(!gh_in || gh_pos != gh_wi) SM_MODPTR(gh_at, other_view(gh_pos == 0 ? gh_fu : gh_pos == gh_size - 1 ? gh_lu : sm_u32()))
    return &gh_at->node;
}
static void sm_hv_search(void){ SM_MODPTR(gh_lost, NULL) }
static bool gh_expunge(jsw_anode_t *node, msg_key_list_t *keys){
    return node != NULL && gh_at != NULL && node == &gh_at->node && gh_pos < gh_size && (gh_at == gh_wview) == (gh_in && gh_pos == gh_wi) && keys == gh_list
        && gh_haswit == (gh_in && gh_wview->flags.deleted && gh_wi < gh_pos) && (!gh_haswit || keys) && gh_freed == 0;
}
SM_HARNESS(p_expunge_keys){
    init_views(); init_keys();
    msg_key_list_t *out;
    derr_t e = get_msg_keys_to_expunge(&gh_dn, &out);
    if(e.type){ SM_ASSERT(out == NULL && e.type == E_NOMEM && !gh_list, "nothing is left after an error"); SM_COVER("error"); return; }
    SM_ASSERT(out == gh_list, "the list is the result");
    SM_ASSERT(gh_haswit == (gh_in && gh_wview->flags.deleted), "a message is expunged exactly if it is marked deleted");
    if(gh_haswit) SM_COVER("expunged");
    if(gh_in && !gh_haswit) SM_COVER("kept");
}
#else
/* ==== commands: P_UNIT 6 store, 8 copy, 9 expunge, 10 disconnect, 11 fetch, 12 fetch_is_peek_only */
static bool gh_ok_uids, gh_no, gh_bad, gh_okresp, gh_gathered, gh_usesfreed, gh_keysmade, gh_keysused;
static msg_key_list_t gh_klist; static unsigned gh_requests; static ie_seq_set_t gh_cset; static ie_dstr_t gh_tag; static ie_seq_set_t gh_cmdset; static bool gh_cmduid;
static ie_flags_t gh_flags, gh_flags2; static int gh_sign; static bool gh_haveuids; static bool gh_reqerr; static ie_mailbox_t gh_mbx, gh_mbx2; static ie_store_mods_t gh_mods2;
static msg_store_cmd_t gh_mstore; static msg_copy_cmd_t gh_mcopy; static update_req_t gh_req; static bool gh_req_has;
static unsigned gh_kind;
static void l_free(void *p){ (void)p; }
void ie_seq_set_free(ie_seq_set_t *s){ if(s){ SM_ASSERT(s == &gh_cset && !gh_usesfreed, "freed once"); gh_usesfreed = true; } }
derr_t c_seq_set_to_canonical_uids_dn(dn_t *dn, bool uid_mode, const ie_seq_set_t *old, ie_seq_set_t **out, bool *ok){
    SM_ASSERT(dn == &gh_dn && uid_mode == gh_cmduid && old == &gh_cmdset, "the set of the command, in its mode");
    *out = NULL;
    FAIL(E_NOMEM);
    *ok = gh_ok_uids;
    if(gh_ok_uids && gh_haveuids) *out = &gh_cset;
    return E_OK;
}
derr_t c_uids_dn_to_msg_keys(dn_t *dn, const ie_seq_set_t *uids, msg_key_list_t **out){
    SM_ASSERT(dn == &gh_dn && uids == &gh_cset && !gh_keysmade && !gh_usesfreed, "the canonical set");
    *out = NULL;
    FAIL(E_NOMEM);
    gh_keysmade = true; gh_list = &gh_klist;
    *out = &gh_klist;
    return E_OK;
}
derr_t c_nonpeek_msgs(dn_t *dn, const ie_seq_set_t *uids, msg_key_list_t **out){
    SM_ASSERT(dn == &gh_dn && (uids == NULL) == !gh_haveuids && (!uids || uids == &gh_cset) && !gh_keysmade, "the canonical set");
    *out = NULL;
    FAIL(E_NOMEM);
    if(!uids || sm_bool()) return E_OK;
    gh_keysmade = true; gh_list = &gh_klist;
    *out = &gh_klist;
    return E_OK;
}
derr_t c_get_msg_keys_to_expunge(dn_t *dn, msg_key_list_t **out){
    SM_ASSERT(dn == &gh_dn && !gh_keysmade, "once");
    *out = NULL;
    FAIL(E_NOMEM);
    if(sm_bool()) return E_OK;
    gh_keysmade = true; gh_list = &gh_klist;
    *out = &gh_klist;
    return E_OK;
}
derr_t c_send_no(dn_t *dn, ie_dstr_t **tagp, const dstr_t msg, link_t *out){ (void)dn; (void)tagp; (void)msg; (void)out; FAIL(E_NOMEM); gh_no = true; return E_OK; }
derr_t c_send_bad(dn_t *dn, ie_dstr_t **tagp, const dstr_t msg, link_t *out){ (void)dn; (void)tagp; (void)msg; (void)out; FAIL(E_NOMEM); gh_bad = true; return E_OK; }
derr_t c_send_ok(dn_t *dn, ie_dstr_t **tagp, const dstr_t msg, link_t *out){ (void)dn; (void)tagp; (void)msg; (void)out; FAIL(E_NOMEM); gh_okresp = true; return E_OK; }
derr_t c_dn_gather_updates(dn_t *dn, bool allow, bool uid, ie_st_resp_t **st, link_t *out){ (void)dn; (void)allow; (void)uid; (void)st; (void)out; FAIL(E_NOMEM); gh_gathered = true; return E_OK; }
derr_t c_gather_updates_dont_send(dn_t *dn, bool allow, ie_st_resp_t **st, gather_t *g){ (void)dn; (void)allow; (void)st; (void)g; FAIL(E_NOMEM); gh_gathered = true; return E_OK; }
void c_gather_prep(gather_t *g){ (void)g; }
void c_free_response_list(link_t *l){ (void)l; }
void link_list_append_list(link_t *a, link_t *b){ (void)a; (void)b; }
ie_store_mods_t *ie_store_mods_copy(derr_t *e, const ie_store_mods_t *m){ if(e->type || !m) return NULL; if(sm_bool()){ e->type = E_NOMEM; return NULL; } return &gh_mods2; }
ie_flags_t *ie_flags_copy(derr_t *e, const ie_flags_t *f){ if(e->type || !f) return NULL; if(sm_bool()){ e->type = E_NOMEM; return NULL; } SM_ASSERT(f == &gh_flags, "the flags of the command"); return &gh_flags2; }
ie_flags_t *ie_flags_new(derr_t *e){ if(e->type) return NULL; if(sm_bool()){ e->type = E_NOMEM; return NULL; } gh_flags2 = (ie_flags_t){0}; return &gh_flags2; }
ie_flags_t *ie_flags_add_simple(derr_t *e, ie_flags_t *f, ie_flag_type_t t){ if(e->type) return NULL; SM_ASSERT(f == &gh_flags2 && t == IE_FLAG_SEEN, "only \\Seen is set by reading"); f->seen = true; return f; }
ie_mailbox_t *ie_mailbox_copy(derr_t *e, const ie_mailbox_t *m){ if(e->type || sm_bool()){ if(!e->type) e->type = E_NOMEM; return NULL; } SM_ASSERT(m == &gh_mbx, "the mailbox of the command"); return &gh_mbx2; }
static void take(msg_key_list_t *keys){ SM_ASSERT(keys == &gh_klist && gh_list == &gh_klist && !gh_keysused, "the keys, used once"); gh_list = NULL; gh_keysused = true; }
msg_store_cmd_t *msg_store_cmd_new(derr_t *e, msg_key_list_t *keys, ie_store_mods_t *mods, int sign, ie_flags_t *flags){
    (void)mods;
    take(keys);
    if(e->type || sm_bool()){ if(!e->type) e->type = E_NOMEM; return NULL; }
    SM_ASSERT(sign == gh_sign, "the sign of the command");
    SM_ASSERT(flags == &gh_flags2, "the flags of the command");
    gh_mstore = (msg_store_cmd_t){ .keys = keys, .sign = sign, .flags = flags };
    return &gh_mstore;
}
msg_copy_cmd_t *msg_copy_cmd_new(derr_t *e, msg_key_list_t *keys, ie_mailbox_t *m){
    take(keys);
    if(e->type || sm_bool()){ if(!e->type) e->type = E_NOMEM; return NULL; }
    SM_ASSERT(m == &gh_mbx2, "the mailbox of the command");
    return &gh_mcopy;
}
update_req_t *update_req_store_new(derr_t *e, msg_store_cmd_t *s, void *r){
    if(e->type || sm_bool()){ if(!e->type) e->type = E_NOMEM; return NULL; }
    SM_ASSERT(s == &gh_mstore && r == &gh_dn, "the request"); gh_kind = 1; return &gh_req;
}
update_req_t *update_req_copy_new(derr_t *e, msg_copy_cmd_t *s, void *r){
    if(e->type || sm_bool()){ if(!e->type) e->type = E_NOMEM; return NULL; }
    SM_ASSERT(s == &gh_mcopy && r == &gh_dn, "the request"); gh_kind = 2; return &gh_req;
}
update_req_t *update_req_expunge_new(derr_t *e, msg_key_list_t *keys, void *r){
    take(keys);
    if(e->type || sm_bool()){ if(!e->type) e->type = E_NOMEM; return NULL; }
    SM_ASSERT(r == &gh_dn, "the request"); gh_kind = 3; return &gh_req;
}
derr_t imaildir_dn_request_update(imaildir_t *m, update_req_t *req){
    SM_ASSERT(m == gh_dn.m && req == &gh_req && gh_kind, "the request");
    SM_ASSERT(!gh_dn.examine || gh_kind == 2, "a mailbox opened read-only is not changed");
    gh_requests++;
    if(sm_bool()){ gh_reqerr = true; return (derr_t){ .type = E_NOMEM }; }
    return E_OK;
}
#if P_UNIT == 6
static bool gh_expw; static msg_flags_t gh_expflags; static unsigned gh_exps; static exp_flags_t *gh_exp;
void jsw_ainsert(jsw_atree_t *tree, jsw_anode_t *node){
    SM_ASSERT(tree == &gh_dn.store.tree, "what is expected after the command");
    exp_flags_t *x = CONTAINER_OF(node, exp_flags_t, node);
    SM_ASSERT(gh_at && x->uid_dn == gh_at->uid_dn, "the uid of the message just looked up");
    if(x->uid_dn == gh_wu){ SM_ASSERT(!gh_expw, "each message once"); gh_expw = true; gh_expflags = x->flags; }
}
#define FLAG_OK(f) (gh_expflags.f == (gh_sign == 0 ? gh_flags.f : gh_sign == 1 ? gh_wview->flags.f || gh_flags.f : gh_wview->flags.f && !gh_flags.f))
static bool exp_ok(void){ return !gh_expw || (FLAG_OK(answered) && FLAG_OK(flagged) && FLAG_OK(seen) && FLAG_OK(draft) && FLAG_OK(deleted)); }
static bool gh_store(dn_t *dn, unsigned i){ return dn == &gh_dn && nums_ok(i) && gh_expw == gh_wprev && exp_ok() && !gh_requests; }
static void sm_hv_canon(void){
    SM_MOD(gh_nleft) SM_MOD(gh_i) SM_MODB(gh_wprev) SM_MODB(gh_wpend) SM_MOD(gh_at) SM_MODB(gh_expw) SM_MOD(gh_expflags)
}
#endif
static link_t gh_out;
static void init_cmd(void){
    init_views();
    init_keys();
    gh_dn.examine = sm_bool(); gh_dn.m = NULL;
    gh_no = gh_bad = gh_okresp = gh_gathered = gh_usesfreed = gh_keysmade = gh_keysused = gh_reqerr = false; gh_requests = 0; gh_kind = 0;
    gh_ok_uids = sm_bool(); gh_haveuids = sm_bool(); gh_cmduid = sm_bool(); gh_list = NULL;
    gh_set = &gh_cset;
    gh_oom = true;
    SM_ASSUME(gh_size >= 1);
}
#if P_UNIT == 6
SM_HARNESS(p_store){
    init_cmd();
    gh_expw = false;
    gh_flags.answered = sm_bool(); gh_flags.flagged = sm_bool(); gh_flags.seen = sm_bool(); gh_flags.draft = sm_bool(); gh_flags.deleted = sm_bool();
    int s = (int)sm_range(0, 2); gh_sign = s - 1;
    ie_store_cmd_t cmd = { .uid_mode = gh_cmduid, .seq_set = &gh_cmdset, .sign = gh_sign, .flags = &gh_flags, .silent = sm_bool() };
    ie_dstr_t *tag = &gh_tag; bool ok = false;
    derr_t e = store_begin(&gh_dn, &tag, &cmd, &gh_out, &ok);
    SM_ASSERT(gh_list == NULL && (!gh_keysmade || gh_usesfreed), "nothing is lost");
    if(gh_requests) SM_ASSERT(gh_requests == 1 && gh_kind == 1 && gh_ok_uids && gh_haveuids && !gh_dn.examine && !ok, "one request, for messages that exist");
    if(e.type){ SM_COVER("error"); return; }
    if(gh_dn.examine){ SM_ASSERT(gh_no && !gh_requests && ok, "NO"); SM_COVER("read-only"); return; }
    if(!gh_ok_uids){ SM_ASSERT(gh_bad && !gh_requests && ok, "BAD for numbers that do not exist"); SM_COVER("bad"); return; }
    if(!gh_haveuids){ SM_ASSERT(gh_okresp && gh_gathered && !gh_requests && ok, "OK for none"); SM_COVER("none"); return; }
    SM_ASSERT(gh_requests == 1 && gh_kind == 1 && !ok, "a request is made");
    SM_ASSERT(gh_expw == gh_named && exp_ok(), "each message is expected to have the flags the command gives it");
    SM_ASSERT(gh_dn.store.started && gh_dn.store.uid_mode == gh_cmduid && gh_dn.store.silent == cmd.silent && gh_dn.store.tag == &gh_tag && !tag, "the command is remembered");
    if(gh_expw){ if(gh_sign == 0) SM_COVER("set"); else if(gh_sign == 1) SM_COVER("add"); else SM_COVER("remove"); }
}
#elif P_UNIT == 8
SM_HARNESS(p_copy){
    init_cmd();
    ie_copy_cmd_t cmd = { .uid_mode = gh_cmduid, .seq_set = &gh_cmdset, .m = &gh_mbx };
    ie_dstr_t *tag = &gh_tag; bool ok = false;
    derr_t e = copy_begin(&gh_dn, &tag, &cmd, &gh_out, &ok);
    SM_ASSERT(gh_list == NULL && (!gh_keysmade || gh_usesfreed), "nothing is lost");
    if(gh_requests) SM_ASSERT(gh_requests == 1 && gh_kind == 2 && gh_ok_uids && gh_haveuids && !ok, "one request, for messages that exist");
    if(e.type){ SM_COVER("error"); return; }
    if(!gh_ok_uids){ SM_ASSERT(gh_bad && !gh_requests && ok, "BAD for numbers that do not exist"); SM_COVER("bad"); return; }
    if(!gh_haveuids){ SM_ASSERT(gh_okresp && gh_gathered && !gh_requests && ok, "OK for none"); SM_COVER("none"); return; }
    SM_ASSERT(gh_requests == 1 && gh_kind == 2 && !ok && gh_dn.copy.started && gh_dn.copy.uid_mode == gh_cmduid && gh_dn.copy.tag == &gh_tag && !tag, "a request is made");
    SM_COVER("copy");
}
#elif P_UNIT == 9
SM_HARNESS(p_expunge){
    init_cmd();
    ie_dstr_t *tag = &gh_tag; bool ok = false;
    derr_t e = expunge_begin(&gh_dn, &tag, &gh_out, &ok);
    SM_ASSERT(gh_list == NULL, "nothing is lost");
    if(gh_requests) SM_ASSERT(gh_requests == 1 && gh_kind == 3 && !ok, "one request");
    if(e.type){ SM_COVER("error"); return; }
    if(gh_dn.examine){ SM_ASSERT(gh_no && !gh_requests && ok, "NO"); SM_COVER("read-only"); return; }
    if(!gh_keysmade){ SM_ASSERT(gh_okresp && gh_gathered && !gh_requests && ok, "OK for none"); SM_COVER("none"); return; }
    SM_ASSERT(gh_requests == 1 && gh_dn.expunge.started && gh_dn.expunge.tag == &gh_tag && !tag, "a request is made");
    SM_COVER("expunge");
}
#elif P_UNIT == 10
SM_HARNESS(p_disconnect){
    init_cmd();
    bool ok = false, expunge = sm_bool();
    derr_t e = disconnect_begin(&gh_dn, expunge, &ok);
    SM_ASSERT(gh_list == NULL, "nothing is lost");
    if(gh_requests) SM_ASSERT(gh_requests == 1 && gh_kind == 3 && !ok && expunge, "only an explicit CLOSE expunges");
    if(e.type){ SM_COVER("error"); return; }
    if(!gh_keysmade || gh_dn.examine){ SM_ASSERT(!gh_requests && ok, "disconnected at once"); if(gh_dn.examine && expunge) SM_COVER("read-only"); if(!expunge) SM_COVER("no CLOSE"); return; }
    SM_ASSERT(gh_requests == 1 && gh_dn.disconnect.started, "a request is made");
    SM_COVER("expunge");
}
#elif P_UNIT == 11
static bool gh_peek;
bool c_fetch_is_peek_only(const ie_fetch_cmd_t *f){ SM_ASSERT(f == gh_dn.fetch.cmd, "the command"); return gh_peek; }
SM_HARNESS(p_fetch){
    init_cmd();
    gh_peek = sm_bool(); gh_sign = 1;
    gh_dn.fetch.ready = false; gh_dn.fetch.uids_dn = NULL;
    ie_fetch_cmd_t cmd = { .uid_mode = gh_cmduid, .seq_set = &gh_cmdset }, *cmdp = &cmd;
    ie_dstr_t *tag = &gh_tag; bool ok = false;
    derr_t e = fetch_begin(&gh_dn, &tag, &cmdp, &gh_out, &ok);
    SM_ASSERT(!tag && !cmdp && gh_dn.fetch.tag == &gh_tag && gh_dn.fetch.cmd == &cmd, "the command is remembered");
    SM_ASSERT(gh_list == NULL, "nothing is lost");
    if(gh_requests) SM_ASSERT(gh_requests == 1 && gh_kind == 1 && gh_ok_uids && !gh_peek && gh_keysused && !ok && !gh_dn.fetch.ready, "only reading without PEEK marks messages as seen");
    if(e.type){ SM_COVER("error"); return; }
    if(!gh_ok_uids){ SM_ASSERT(gh_bad && !gh_requests && ok && !gh_dn.fetch.ready, "BAD for numbers that do not exist"); SM_COVER("bad"); return; }
    SM_ASSERT(gh_dn.fetch.uids_dn == (gh_haveuids ? &gh_cset : NULL) && !ok, "the messages are remembered");
    SM_ASSERT(gh_dn.fetch.ready == !gh_requests, "the answer waits for a request, if there is one");
    if(gh_requests){ SM_ASSERT(gh_flags2.seen && !gh_flags2.answered && !gh_flags2.flagged && !gh_flags2.deleted && !gh_flags2.draft, "\\Seen is added"); SM_COVER("seen"); }
    else { SM_ASSERT(gh_gathered, "updates are gathered"); SM_ASSERT(!gh_keysmade, "messages to be marked are marked"); if(gh_dn.examine && !gh_peek) SM_COVER("read-only"); SM_COVER("at once"); }
}
#elif P_UNIT == 12
static ie_fetch_extra_t *gh_xnode; static size_t gh_xleft; static bool gh_nonpeek;
static ie_fetch_extra_t *new_extra(void){ ie_fetch_extra_t *x = malloc(sizeof(*x)); SM_ASSUME(x != NULL); x->peek = sm_bool(); x->next = NULL; return x; }
#define NEW_EXTRAS { SM_MOD(gh_xleft) SM_MOD(gh_xnode) SM_ASSUME(gh_xleft < SM_HUGE); gh_xnode = NULL; if(gh_xleft > 0) gh_xnode = new_extra(); if(gh_xleft > 1) gh_xnode->next = new_extra(); }
static const ie_fetch_extra_t *sm_hv_extra(void){ NEW_EXTRAS SM_MODB(gh_nonpeek) return gh_xnode; }
static bool gh_extra(const ie_fetch_extra_t *p){ return p == gh_xnode && !gh_nonpeek && gh_xleft >= 1; }
static void gh_extra_step(const ie_fetch_extra_t *p){ if(!p->peek) gh_nonpeek = true; gh_xnode = gh_xnode->next; gh_xleft--; }
static size_t gh_extras_left(void){ return gh_xleft; }
SM_HARNESS(p_peek){
    NEW_EXTRAS
    gh_nonpeek = false;
    ie_fetch_attrs_t a = { .rfc822 = sm_bool(), .rfc822_text = sm_bool(), .rfc822_header = sm_bool(), .envelope = sm_bool(), .body = sm_bool(), .extras = gh_xnode };
    ie_fetch_cmd_t cmd = { .attr = &a };
    bool r = fetch_is_peek_only(&cmd);
    if(a.rfc822 || a.rfc822_text){ SM_ASSERT(!r, "the whole message or its text is read"); SM_COVER("rfc822"); return; }
    SM_ASSERT(r == !gh_nonpeek, "BODY[...] without PEEK counts as reading");
    SM_ASSERT(!r || gh_xleft == 0, "every part is looked at");
    if(r) SM_COVER("peek"); else SM_COVER("not peek");
}
#endif
#endif
#endif
#endif
#endif
#ifdef SM_NATIVE
/* ==== search: whole commands on a mailbox of a few messages */
#include "libimaildir/libimaildir.h"
#include "libimaildir/dn.c"
REGISTER_ERROR_TYPE(E_IMAILDIR, "E_IMAILDIR", "imaildir failed on another thread");
static update_req_t *R_req; static unsigned R_n;
derr_t imaildir_dn_request_update(imaildir_t *m, update_req_t *req){ (void)m; R_n++; R_req = req; return E_OK; }
derr_t imaildir_dn_open_msg(imaildir_t *m, const msg_key_t key, int *fd){ (void)m; (void)key; (void)fd; SM_ASSERT(0, "no message need be read"); return E_OK; }
void imaildir_dn_close_msg(imaildir_t *m, const msg_key_t key, int *fd){ (void)m; (void)key; (void)fd; }
bool imaildir_dn_select_failed(imaildir_t *m, ie_status_t *s){ (void)m; (void)s; return false; }
bool imaildir_dn_synced(imaildir_t *m, bool ex){ (void)m; (void)ex; return true; }
derr_t imaildir_dn_build_views(imaildir_t *m, dn_t *dn, jsw_atree_t *views, unsigned *max, unsigned *vld){ (void)m; (void)dn; (void)views; (void)max; (void)vld; return E_OK; }
#define NV 9
static msg_view_t V[NV]; static unsigned nV;
static unsigned pickn(void){ unsigned b = sm_u8(); return b < 250 ? b % 40 : UINT_MAX - (b - 250); }
static bool in_keys(const msg_key_list_t *k, unsigned i, unsigned *n){
    unsigned c = 0; *n = 0;
    for(; k; k = k->next, (*n)++) if(k->key.uid_up == V[i].key.uid_up && k->key.uid_local == V[i].key.uid_local) c++;
    SM_ASSERT(c < 2, "each message once");
    return c == 1;
}
static unsigned f_num(msg_flags_t f){ return f.answered | f.flagged << 1 | f.seen << 2 | f.draft << 3 | f.deleted << 4; }
SM_HARNESS(s_cmdset){
    derr_t e = E_OK;
    // the builder
    seq_set_builder_t ssb; seq_set_builder_prep(&ssb);
    unsigned nb = sm_u8() % 6, A[6], B[6];
    for(unsigned i = 0; i < nb; i++){
        A[i] = pickn(); B[i] = sm_bool() ? A[i] : pickn();
        if(!A[i]) A[i] = 1;
        if(!B[i]) B[i] = 1;
        e = seq_set_builder_add_range(&ssb, A[i], B[i]); SM_ASSERT(!e.type, "added");
    }
    ie_seq_set_t *s = seq_set_builder_extract(&e, &ssb);
    SM_ASSERT(!e.type && (s != NULL) == (nb != 0), "extracted");
    for(unsigned k = 0; k < 48; k++){
        unsigned v = k < 42 ? k : UINT_MAX - (k - 42); bool want = false, got = false;
        for(unsigned i = 0; i < nb; i++) want |= (A[i] <= v && v <= B[i]) || (B[i] <= v && v <= A[i]);
        for(ie_seq_set_t *p = s; p; p = p->next) got |= p->n1 <= v && v <= p->n2;
        SM_ASSERT(want == got, "the set has exactly the numbers put in");
    }
    for(ie_seq_set_t *p = s; p; p = p->next) SM_ASSERT(p->n1 && p->n1 <= p->n2 && (!p->next || p->n2 < p->next->n1 - 1), "ranges are in order and do not touch");
    ie_seq_set_free(s);
    // a mailbox
    extensions_t exts = {0};
    dn_t dn; bool examine = sm_u8() % 3 == 0;
    static imaildir_t mdir; e = dn_init(&dn, &mdir, NULL, &exts, examine);
    nV = sm_u8() % (NV + 1); unsigned uid = 0;
    for(unsigned i = 0; i < nV; i++){
        uid += 1 + sm_u8() % 4;
        unsigned f = sm_u8();
        V[i] = (msg_view_t){ .uid_dn = uid, .key = f & 128 ? (msg_key_t){ .uid_up = 100 + i } : (msg_key_t){ .uid_local = 100 + i }, .flags = { .answered = f & 1, .flagged = f >> 1 & 1, .seen = f >> 2 & 1, .draft = f >> 3 & 1, .deleted = f >> 4 & 1 } };
        jsw_ainsert(&dn.views, &V[i].node);
    }
    // a set
    bool uidm = sm_bool(), bad = false; ie_seq_set_t *set = NULL; bool named[NV] = {0};
    unsigned nr = 1 + sm_u8() % 3, top = uidm ? uid : nV;
    for(unsigned i = 0; i < nr; i++){
        unsigned a = sm_u8(), b = sm_u8(); a = a > 250 ? UINT_MAX : a % (uidm ? uid + 3 : nV + 1 + (a > 240)); b = b > 250 ? UINT_MAX : b % (uidm ? uid + 3 : nV + 1 + (b > 240));
        if(!uidm && (a > nV || b > nV)) bad = true;
        unsigned x = a ? a : top, y = b ? b : top;
        for(unsigned j = 0; j < nV; j++){ unsigned n = uidm ? V[j].uid_dn : j + 1; if((x <= n && n <= y) || (y <= n && n <= x)) named[j] = true; }
        ie_seq_set_t *t = ie_seq_set_new(&e, a, b);
        set = set ? ie_seq_set_append(&e, set, t) : t;
    }
    if(!uidm && !nV) bad = true;
    bool any = false;
    for(unsigned j = 0; j < nV; j++) any |= named[j] && !bad;
    ie_dstr_t *tag = ie_dstr_new2(&e, DSTR_LIT("t")); link_t out = {0}; bool ok = false;
    R_req = NULL; R_n = 0;
    unsigned what = sm_u8() % 5, n;
    msg_key_list_t *keys = NULL; unsigned nwant = 0;
    if(what == 0){
        int sign = (int)(sm_u8() % 3) - 1; unsigned f = sm_u8() & 31;
        ie_flags_t fl = { .answered = f & 1, .flagged = f >> 1 & 1, .seen = f >> 2 & 1, .draft = f >> 3 & 1, .deleted = f >> 4 & 1 };
        ie_store_cmd_t cmd = { .uid_mode = uidm, .seq_set = set, .sign = sign, .flags = &fl };
        e = dn_store(&dn, &tag, &cmd, &out, &ok);
        SM_ASSERT(!e.type && R_n == (any && !examine) && ok == !R_n, "a request for messages that exist, unless read-only");
        if(R_n){
            msg_store_cmd_t *st = R_req->val.msg_store;
            SM_ASSERT(R_req->type == UPDATE_REQ_STORE && st->sign == sign && st->flags && f_num(msg_flags_from_flags(st->flags)) == f, "the command is passed on");
            keys = st->keys;
            for(unsigned j = 0; j < nV; j++){
                jsw_anode_t *x = jsw_afind(&dn.store.tree, &V[j].uid_dn, NULL);
                SM_ASSERT((x != NULL) == named[j], "what is expected of each message named");
                unsigned old = f_num(V[j].flags);
                if(x) SM_ASSERT(f_num(CONTAINER_OF(x, exp_flags_t, node)->flags) == (sign == 0 ? f : sign > 0 ? old | f : old & ~f), "the flags");
            }
        }
        for(unsigned j = 0; j < nV; j++) nwant += named[j];
    }else if(what == 1){
        ie_copy_cmd_t cmd = { .uid_mode = uidm, .seq_set = set, .m = ie_mailbox_new_inbox(&e) };
        e = dn_copy(&dn, &tag, &cmd, &out, &ok);
        ie_mailbox_free(cmd.m);
        SM_ASSERT(!e.type && R_n == any && ok == !R_n, "a request for messages that exist");
        if(R_n){ SM_ASSERT(R_req->type == UPDATE_REQ_COPY, "copy"); keys = R_req->val.msg_copy->keys; }
        for(unsigned j = 0; j < nV; j++) nwant += named[j];
    }else if(what == 2){
        bool close = sm_bool(), x = false;
        for(unsigned j = 0; j < nV; j++){ named[j] = V[j].flags.deleted; x |= named[j]; nwant += named[j]; }
        e = close ? dn_disconnect(&dn, true, &ok) : dn_expunge(&dn, &tag, &out, &ok);
        SM_ASSERT(!e.type && R_n == (x && !examine) && ok == !R_n, "a request for messages marked deleted, unless read-only");
        if(R_n){ SM_ASSERT(R_req->type == UPDATE_REQ_EXPUNGE, "expunge"); keys = R_req->val.msg_keys; }
    }else if(what == 3){
        ie_fetch_attrs_t at = { .uid = true, .rfc822_text = sm_bool() };
        bool reads = at.rfc822_text, x = false;
        ie_fetch_extra_t ex2 = { .peek = sm_bool() }, ex1 = { .peek = sm_bool(), .next = sm_bool() ? &ex2 : NULL };
        if(sm_bool()){ at.extras = &ex1; reads |= !ex1.peek || (ex1.next && !ex2.peek); }
        ie_fetch_cmd_t cmd = { .uid_mode = uidm, .seq_set = set, .attr = &at }, *cmdp = &cmd;
        for(unsigned j = 0; j < nV; j++){ named[j] = named[j] && !bad && !V[j].flags.seen && reads; x |= named[j]; nwant += named[j]; }
        e = fetch_begin(&dn, &tag, &cmdp, &out, &ok);
        SM_ASSERT(!e.type && R_n == (x && !examine) && ok == bad, "a request if messages become seen, unless read-only");
        if(R_n){ SM_ASSERT(R_req->type == UPDATE_REQ_STORE && R_req->val.msg_store->sign == 1 && f_num(msg_flags_from_flags(R_req->val.msg_store->flags)) == 4, "\\Seen"); keys = R_req->val.msg_store->keys; }
        if(!bad) for(unsigned v = 0; v < 48; v++){ bool got = false; for(ie_seq_set_t *p = dn.fetch.uids_dn; p; p = p->next) got |= p->n1 <= v && v <= p->n2; if(got) SM_ASSERT(jsw_afind(&dn.views, &v, NULL), "only messages that exist"); }
        ie_dstr_free(STEAL(ie_dstr_t, &dn.fetch.tag));
        ie_seq_set_free(STEAL(ie_seq_set_t, &dn.fetch.uids_dn));
    }else{
        unsigned t = sm_u8() % 4, hits = 0;
        ie_search_key_t *k = t == 0 ? ie_search_0(&e, IE_SEARCH_SEEN) : t == 1 ? ie_search_0(&e, IE_SEARCH_ALL) : ie_search_seq_set(&e, t == 2 ? IE_SEARCH_UID : IE_SEARCH_SEQ_SET, ie_seq_set_copy(&e, set));
        ie_search_cmd_t cmd = { .uid_mode = sm_bool(), .search_key = k };
        if(nV){
            ie_nums_t *nums = NULL;
            e = dn_search_loop(&dn, &cmd, nV, &nums);
            SM_ASSERT(!e.type, "searched");
            for(unsigned j = 0; j < nV; j++){
                bool want = t == 0 ? V[j].flags.seen : t == 1, got = false;
                if(t > 1) for(ie_seq_set_t *p = set; p; p = p->next){ unsigned m = t == 2 ? uid : nV, x = p->n1 ? p->n1 : m, y = p->n2 ? p->n2 : m, q = t == 2 ? V[j].uid_dn : j + 1; want |= (x <= q && q <= y) || (y <= q && q <= x); }
                for(ie_nums_t *p = nums; p; p = p->next) got |= p->num == (cmd.uid_mode ? V[j].uid_dn : j + 1);
                SM_ASSERT(got == want, "a message is in the result exactly if it matches");
                hits += want;
            }
            for(ie_nums_t *p = nums; p; p = p->next) hits--;
            SM_ASSERT(hits == 0, "and nothing else is");
            ie_nums_free(nums);
        }
        ie_search_key_free(k);
    }
    if(R_n){
        for(unsigned j = 0; j < nV; j++) SM_ASSERT(in_keys(keys, j, &n) == named[j], "exactly the messages named");
        SM_ASSERT(n == nwant, "and no others");
        update_req_free(R_req);
    }
    free_response_list(&out);
    ie_dstr_free(tag); ie_seq_set_free(set);
    jsw_anode_t *x;
    while((x = jsw_apop(&dn.store.tree))){ exp_flags_t *f = CONTAINER_OF(x, exp_flags_t, node); exp_flags_free(&f); }
    ie_dstr_free(dn.store.tag); ie_dstr_free(dn.copy.tag); ie_dstr_free(dn.expunge.tag);
}
#endif
