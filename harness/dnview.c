/* what a session is told: libimaildir/dn.c.

   The client's idea of the mailbox is followed by two ghost variables: how many
   messages it knows of (cnt), and where in them one message, the witness, is
   (cpos; 0: unknown to it).  The views, the gathered updates and the lists have
   any length; trees are used by contract. */
#include "sm.h"
#ifdef SM_CBMC
SM_DEFINE_ERRORS
#endif
#ifdef SM_PROOF
#include "libimaildir/libimaildir.h"
static bool gh_oom; static void *gh_malloced;
static void *sm_malloc(size_t n){
    if(gh_oom && sm_bool()) return NULL;
    void *p = malloc(n);
    SM_ASSUME(p != NULL);
    gh_malloced = p;
    return p;
}
static void l_free(void *p);
// ghost functions named by the loop contracts of this property
static jsw_anode_t *sm_hv_gathered(void);
static void sm_hv_send(link_t *temp);
static bool gh_gathered(unsigned ph, jsw_anode_t *node, link_t *temp);
static size_t gh_gathered_left(void);
static update_t *sm_hv_update(void);
static update_t *gh_next_update(void);
static void sm_hv_updates(void);
static bool gh_update(update_t *update, update_t *next);
static size_t gh_updates_left(void);
static void gh_update_step(update_t *update);
struct exp_flags_s;
static void *sm_hv_exp(void);
static void *sm_hv_met(void);
static void sm_hv_merge(link_t *temp);
static bool gh_merge(void *exp, void *met, link_t *temp);
static size_t gh_merge_left(void);
static jsw_anode_t *sm_hv_unseen(void);
static bool gh_unseen(jsw_anode_t *node, unsigned seq);
static size_t gh_unseen_left(void);
static ie_fetch_extra_t *sm_hv_part(void);
static ie_fetch_resp_t *gh_fresp(void);
static void sm_hv_parts(derr_t *e);
static bool gh_part(ie_fetch_extra_t *p, ie_fetch_resp_t *f, derr_t *e, bool missing);
static void gh_part_step(ie_fetch_extra_t *p);
static size_t gh_parts_left(void);
static const imf_hdr_t *sm_hv_hdr(void);
static ie_dstr_t *gh_flds(void);
static void sm_hv_flds(derr_t *e);
static bool gh_hdr(const imf_hdr_t *hdr, ie_dstr_t *out, derr_t *e);
static void gh_hdr_step(const imf_hdr_t *hdr);
static size_t gh_hdrs_left(void);
static const ie_dstr_t *sm_hv_name(void);
static bool gh_name(const ie_dstr_t *name);
static void gh_name_step(const ie_dstr_t *name);
static size_t gh_names_left(void);
// loop contracts of the same file which belong to I06 (harness/cmdset.c)
#define sm_hv_view() NULL
#define sm_hv_nums() NULL
#define sm_hv_search() (void)0
#define gh_search(...) true
#define gh_views_left() 0
#define sm_hv_range() NULL
#define gh_range(p) true
#define gh_range_step(p) (void)0
#define gh_ranges_left() 0
#define sm_hv_canon() (void)0
#define gh_canon(i) true
#define gh_nums_left() 0
#define sm_hv_keys() NULL
#define gh_keys(...) true
#define gh_store(...) true
#define gh_expunge(...) true
#define sm_hv_extra() NULL
#define gh_extra(p) true
#define gh_extra_step(p) (void)0
#define gh_extras_left() 0
static msg_view_t *gh_wview;
#define malloc sm_malloc
#define free(x) l_free(x)
#include "libimaildir/dn.c"
#undef malloc
#undef free
#define FAIL(c) do { if(sm_bool()) return (derr_t){ .type = c }; } while(0)

static dn_t gh_dn; static link_t gh_out;
static unsigned gh_W;                               // the witness: a uid
static bool gh_in; static size_t gh_widx;           // it is in the views, and where
static size_t gh_cnt, gh_cpos;                      // what the client knows
derr_t index_to_seq_num(size_t index, unsigned *seq){
    *seq = 0;
    if(index >= UINT_MAX) return (derr_t){ .type = E_INTERNAL };
    *seq = (unsigned)index + 1;
    return E_OK;
}
static msg_view_t *new_view(unsigned uid){
    msg_view_t *v = malloc(sizeof(*v));
    SM_ASSUME(v != NULL);
    v->uid_dn = uid; v->key.uid_up = sm_u32(); v->key.uid_local = sm_u32(); v->length = sm_u64();
    v->flags.seen = sm_bool(); v->flags.deleted = sm_bool(); v->flags.answered = sm_bool(); v->flags.flagged = sm_bool(); v->flags.draft = sm_bool();
    return v;
}

#if P_UNIT == 1
/* ==== gather_send_responses */
static gather_t gh_g; static bool gh_uidmode, gh_forstore, gh_in0;
static bool gh_wnew, gh_wmeta, gh_wexp, gh_wnew0, gh_wmeta0;    // the witness is in news, metas, expunges
static bool gh_wun;                                             // its mark, once expunges were looked through
static gathered_t *gh_el; static bool gh_elW; static size_t gh_left; static bool gh_wleft; static unsigned gh_ph;
static size_t gh_nexp, gh_un;                                   // expunges; those the client does not know of, not yet removed
static bool gh_wasnew;
static gathered_t *gh_erased;                                   // taken out of a tree, to be freed
static msg_view_t *gh_view, *gh_gone; static size_t gh_idx;     // the view found last, and where; the view taken out
static size_t gh_pending;                                       // the client must be told of its removal
static unsigned gh_told, gh_appended, gh_stored; static link_t *gh_temp;
static bool gh_dropped;
static gathered_t *new_el(unsigned uid){
    gathered_t *g = malloc(sizeof(*g));
    SM_ASSUME(g != NULL);
    g->uid_dn = uid;
    return g;
}
static bool member(unsigned ph){ return ph == 2 ? gh_wnew : ph == 3 ? gh_wmeta : gh_wexp; }
static jsw_anode_t *next_el(void){
    if(gh_ph == 1 && gh_el){
        SM_ASSERT(gh_el->unseen == gh_wasnew, "a message the client does not know of is marked");
        if(gh_elW) gh_wun = gh_el->unseen;
        if(gh_wasnew) gh_un++;
    }
    SM_ASSERT(!gh_erased && !gh_gone, "what was taken out is freed");
    SM_ASSERT(!gh_pending, "the client is told of each message expunged");
    gh_wasnew = false; gh_view = NULL;
    if(!gh_left){ gh_el = NULL; gh_elW = false; return NULL; }
    gh_left--;
    gh_elW = gh_wleft && (gh_left == 0 || sm_bool());
    if(gh_elW) gh_wleft = false;
    gh_el = new_el(gh_elW ? gh_W : sm_u32());
    if(!gh_elW) SM_ASSUME(gh_el->uid_dn != gh_W);
    gh_el->unseen = false;
    if(gh_ph == 4){
        // the bag has as many marked elements as were marked
        gh_el->unseen = gh_elW ? gh_wun : sm_bool();
        size_t rest = gh_left, w = gh_wleft && gh_wun;
        if(gh_el->unseen) SM_ASSUME(gh_un >= 1);
        size_t un = gh_un - gh_el->unseen;
        SM_ASSUME(un >= w && un <= rest - (gh_wleft && !gh_wun));
    }
    return &gh_el->node;
}
static jsw_anode_t *start(jsw_atrav_t *trav, jsw_atree_t *tree){
    (void)trav;
    SM_ASSERT(tree == &gh_g.expunges || tree == &gh_g.news || tree == &gh_g.metas, "gathered updates");
    SM_ASSERT(gh_el == NULL, "one walk at a time");
    gh_ph = tree == &gh_g.news ? 2 : tree == &gh_g.metas ? 3 : gh_ph == 0 ? 1 : 4;
    gh_left = gh_ph == 2 ? gh_g.news.size : gh_ph == 3 ? gh_g.metas.size : gh_nexp;
    gh_wleft = member(gh_ph);
    return next_el();
}
jsw_anode_t *jsw_atfirst(jsw_atrav_t *trav, jsw_atree_t *tree){ return start(trav, tree); }
jsw_anode_t *jsw_atlast(jsw_atrav_t *trav, jsw_atree_t *tree){ return start(trav, tree); }
jsw_anode_t *jsw_atnext(jsw_atrav_t *trav){ (void)trav; return next_el(); }
jsw_anode_t *jsw_atprev(jsw_atrav_t *trav){ (void)trav; return next_el(); }
static jsw_anode_t *find_view(unsigned uid){
    if(uid == gh_W){
        if(!gh_in){ gh_view = NULL; return NULL; }
        gh_idx = gh_widx; gh_view = gh_wview;
        return &gh_view->node;
    }
    SM_ASSERT(gh_el && uid == gh_el->uid_dn, "the update at hand");
    // (every message with an update or an expunge is in the views; messages it was told of come first)
    gh_view = new_view(uid);
    gh_idx = sm_u64();
    SM_ASSUME(gh_idx < gh_dn.views.size && (!gh_in || (gh_idx < gh_widx) == (uid < gh_W)) && (!gh_in || gh_idx != gh_widx) && (gh_in || gh_idx <= gh_dn.views.size));
    if(gh_ph == 3) SM_ASSUME(gh_idx < gh_cnt);
    if(gh_ph == 4) SM_ASSUME((gh_idx < gh_cnt) == !gh_el->unseen);
    return &gh_view->node;
}
jsw_anode_t *jsw_afind(jsw_atree_t *tree, const void *val, size_t *idx){
    SM_ASSERT(tree == &gh_dn.views, "the views");
    jsw_anode_t *node = find_view(*(const unsigned*)val);
    if(idx) *idx = gh_idx;
    return node;
}
jsw_anode_t *jsw_aerase(jsw_atree_t *tree, const void *val){
    unsigned uid = *(const unsigned*)val;
    SM_ASSERT(gh_el && uid == gh_el->uid_dn, "the update at hand");
    if(tree == &gh_dn.views){
        SM_ASSERT(gh_ph == 4 && !gh_gone, "messages are removed last");
        if(!gh_view) find_view(uid);
        SM_ASSERT(gh_view, "it is there");
        gh_gone = gh_view;
        gh_dn.views.size--;
        if(gh_elW){ gh_in = false; }
        else if(gh_idx < gh_widx) gh_widx--;
        if(gh_el->unseen) gh_un--; else gh_pending = gh_idx + 1;
        return &gh_gone->node;
    }
    SM_ASSERT(!gh_erased, "what was taken out is freed");
    bool has;
    if(tree == &gh_g.news){
        SM_ASSERT(gh_ph == 1, "only before they are counted");
        has = gh_elW ? gh_wnew : sm_bool();
        if(has && !gh_elW) SM_ASSUME(gh_g.news.size > gh_wnew);
        if(has){ gh_g.news.size--; if(gh_elW) gh_wnew = false; gh_wasnew = true; }
    }else{
        SM_ASSERT(tree == &gh_g.metas && gh_ph < 3, "metas, before they are sent");
        has = gh_elW ? gh_wmeta : sm_bool();
        if(has && !gh_elW) SM_ASSUME(gh_g.metas.size > gh_wmeta);
        if(has){ gh_g.metas.size--; if(gh_elW) gh_wmeta = false; }
    }
    if(!has) return NULL;
    gh_erased = new_el(uid);
    return &gh_erased->node;
}
static void l_free(void *p){ SM_ASSERT(p && p == gh_erased, "only what was taken out is freed"); gh_erased = NULL; free(p); }
void msg_view_free(msg_view_t **v){ SM_ASSERT(*v && *v == gh_gone, "the view taken out is freed"); gh_gone = NULL; *v = NULL; }
#define TO(x) { SM_ASSERT(!gh_temp || (x) == gh_temp, "one list of responses"); gh_temp = (x); }
derr_t c_send_flags_update(dn_t *dn, unsigned seq, msg_flags_t flags, const unsigned *uid, link_t *out){
    SM_ASSERT(dn == &gh_dn && out != &gh_out, "responses are kept back until all is well");
    TO(out)
    SM_ASSERT(gh_ph == 3 && gh_el && gh_view && seq == gh_idx + 1, "the sequence number of the message");
    SM_ASSERT(gh_uidmode ? uid && *uid == gh_el->uid_dn : !uid, "its uid, in reply to a UID command");
    if(gh_elW){
        SM_ASSERT(seq == gh_cpos && seq <= gh_cnt, "the client knows the message by this number");
        SM_ASSERT(msg_flags_eq(flags, gh_wview->flags), "its flags");
        gh_told++;
    }
    FAIL(E_NOMEM);
    return E_OK;
}
derr_t c_send_store_fetch_resps(dn_t *dn, gather_t *g, link_t *out){
    SM_ASSERT(dn == &gh_dn && g == &gh_g && out != &gh_out && gh_forstore, "for STORE");
    TO(out)
    SM_ASSERT(!gh_el && gh_wmeta == (gh_wmeta0 && !gh_wexp && !gh_wnew0) && gh_ph < 4, "no flags of expunged or new messages are sent");
    gh_stored++;
    FAIL(E_NOMEM);
    return E_OK;
}
derr_t c_send_expunge(dn_t *dn, unsigned seq, link_t *out){
    SM_ASSERT(dn == &gh_dn && out != &gh_out, "responses are kept back until all is well");
    TO(out)
    SM_ASSERT(1 <= seq && seq <= gh_cnt, "the client knows of the message");
    SM_ASSERT(gh_pending == seq, "the number of the message just removed");
    SM_ASSERT((gh_cpos == seq) == gh_elW, "the client takes it for the same message");
    gh_pending = 0;
    if(sm_bool()){ gh_dropped = true; return (derr_t){ .type = E_NOMEM }; }
    gh_cnt--;
    if(gh_cpos == seq) gh_cpos = 0; else if(seq < gh_cpos) gh_cpos--;
    return E_OK;
}
derr_t c_send_exists_resp(dn_t *dn, link_t *out){
    SM_ASSERT(dn == &gh_dn && out != &gh_out, "responses are kept back until all is well");
    TO(out)
    SM_ASSERT(!gh_el, "after the others");
    SM_ASSERT(gh_cnt <= gh_dn.views.size, "EXISTS never shrinks the mailbox");
    FAIL(E_NOMEM);
    if(gh_dn.views.size > UINT_MAX) return (derr_t){ .type = E_VALUE };
    gh_cnt = gh_dn.views.size;
    gh_cpos = gh_in ? gh_widx + 1 : 0;
    return E_OK;
}
void link_list_append_list(link_t *to, link_t *from){ SM_ASSERT(to == &gh_out && (!gh_temp || from == gh_temp), "the responses are passed on"); gh_appended++; }
void c_free_response_list(link_t *l){ SM_ASSERT(l != &gh_out, "other responses are kept"); }
static size_t gh_gathered_left(void){ return gh_left; }
static bool gh_gathered(unsigned ph, jsw_anode_t *node, link_t *temp){
    bool done = member(ph) && !gh_wleft && !gh_elW;
    bool p1 = ph > 1 || done;                      // step 1 has dealt with the witness
    size_t here = ph == 4 && gh_el && gh_el->unseen;
    return ph == gh_ph && node != NULL && gh_el != NULL && node == &gh_el->node && (gh_el->uid_dn == gh_W) == gh_elW && gh_left < SM_HUGE
        && !(gh_wleft && (!member(ph) || gh_elW)) && !(gh_elW && !member(ph)) && !(gh_wleft && !gh_left)
        && !gh_erased && !gh_gone && !gh_pending && !gh_wasnew && !gh_view && !gh_appended && !gh_dropped && (!gh_temp || gh_temp == temp)
        && gh_dn.views.size < SM_HUGE && gh_g.news.size < SM_HUGE && gh_g.metas.size < SM_HUGE && gh_un < SM_HUGE && gh_cnt < SM_HUGE
        && gh_dn.views.size == gh_cnt + gh_g.news.size + gh_un
        && gh_g.news.size >= gh_wnew && gh_g.metas.size >= gh_wmeta
        && (ph >= 4 || gh_in == gh_in0)
        && (!gh_in || (gh_widx < gh_dn.views.size && (gh_widx < gh_cnt) == !(gh_wnew0)))
        && gh_cpos == (gh_in && gh_widx < gh_cnt ? gh_widx + 1 : 0)
        // what the steps have done so far
        && (gh_wexp && p1 ? !gh_wnew && gh_wun == gh_wnew0 : gh_wnew == gh_wnew0 && !gh_wun)
        && gh_wmeta == (gh_wmeta0 && !(gh_wexp && p1) && !(gh_wnew && (ph > 2 || (ph == 2 && done))))
        && (ph != 1 || (!gh_el->unseen && gh_un <= gh_nexp - 1 - gh_left && gh_left < gh_nexp && gh_un >= gh_wun && gh_nexp - 1 - gh_left - gh_un >= (done && gh_wexp && !gh_wun)))
        && (ph != 2 || (gh_un <= gh_nexp && gh_un >= gh_wun && gh_nexp - gh_un >= (gh_wexp && !gh_wun)))
        && (ph != 3 || (!gh_forstore && gh_un <= gh_nexp && gh_un >= gh_wun && gh_nexp - gh_un >= (gh_wexp && !gh_wun)))
        && (ph != 4 || (gh_in == (gh_in0 && !done) && gh_un <= gh_left + 1 && gh_un >= here + (gh_wleft && gh_wun) && gh_un - here <= gh_left - (gh_wleft && !gh_wun) && (!gh_elW || gh_el->unseen == gh_wun)))
        && gh_told == (ph < 3 || gh_forstore ? 0 : ph == 3 ? done : gh_wmeta)
        && gh_stored == (ph == 4 && gh_forstore) && gh_nexp < SM_HUGE;
}
static jsw_anode_t *sm_hv_gathered(void){
    SM_MODB(gh_elW)
    SM_MODPTR(gh_el, new_el(gh_elW ? gh_W : sm_u32()))
    gh_el->unseen = sm_bool();
    return &gh_el->node;
}
static void sm_hv_send(link_t *temp){
    SM_MOD(gh_left) SM_MODB(gh_wleft) SM_MODB(gh_wnew) SM_MODB(gh_wmeta) SM_MODB(gh_wun) SM_MOD(gh_un) SM_MODB(gh_wasnew)
    SM_MODPTR(gh_erased, NULL) SM_MODPTR(gh_view, NULL) SM_MODPTR(gh_gone, NULL) SM_MOD(gh_idx) SM_MOD(gh_pending) SM_MOD(gh_told) SM_MOD(gh_stored) SM_MODB(gh_dropped)
    SM_MODPTR(gh_temp, sm_bool() ? temp : NULL) SM_MODB(gh_in) SM_MOD(gh_widx) SM_MOD(gh_cnt) SM_MOD(gh_cpos)
    SM_MOD(gh_g.news.size) SM_MOD(gh_g.metas.size) SM_MOD(gh_dn.views.size)
}

SM_HARNESS(p_send){
    gh_W = sm_u32(); gh_in = gh_in0 = sm_bool(); gh_widx = sm_u64(); gh_wview = new_view(gh_W);
    gh_wnew = gh_wnew0 = sm_bool(); gh_wmeta = gh_wmeta0 = sm_bool(); gh_wexp = sm_bool(); gh_wun = gh_elW = gh_wleft = gh_wasnew = gh_dropped = false;
    gh_uidmode = sm_bool(); gh_forstore = sm_bool();
    gh_cnt = sm_len(0); gh_nexp = sm_len(0); gh_un = 0; gh_ph = 0; gh_el = NULL; gh_erased = NULL; gh_view = gh_gone = NULL; gh_pending = 0;
    gh_told = gh_appended = gh_stored = 0; gh_temp = NULL; gh_left = 0; gh_idx = 0;
    gh_g.news.size = sm_len(0); gh_g.metas.size = sm_len(0);
    SM_ASSUME(gh_cnt < SM_HUGE / 4 && gh_g.news.size < SM_HUGE / 4 && gh_nexp < SM_HUGE && gh_g.metas.size < SM_HUGE);
    gh_dn.views.size = gh_cnt + gh_g.news.size;
    SM_ASSUME(gh_g.news.size >= gh_wnew && gh_g.metas.size >= gh_wmeta && gh_nexp >= gh_wexp);
    // updates are for messages in the views; new ones come last
    if(gh_wnew || gh_wmeta || gh_wexp) SM_ASSUME(gh_in);
    if(gh_in) SM_ASSUME(gh_widx < gh_dn.views.size && (gh_widx < gh_cnt) == !gh_wnew);
    gh_cpos = gh_in && !gh_wnew ? gh_widx + 1 : 0;
    size_t cnt0 = gh_cnt;
    derr_t e = gather_send_responses(&gh_dn, &gh_g, gh_uidmode, gh_forstore, &gh_out);
    if(e.type){
        SM_ASSERT(!gh_appended, "nothing is sent after an error");
        SM_ASSERT(e.type == E_NOMEM || gh_dn.views.size + 1 > UINT_MAX, "only memory can run out");
        SM_COVER("error");
        return;
    }
    SM_ASSERT(gh_appended == 1 && !gh_pending && !gh_dropped, "the responses are sent, once");
    SM_ASSERT(gh_cnt == gh_dn.views.size, "the client's count is the size of the mailbox");
    SM_ASSERT(gh_in == (gh_in0 && !gh_wexp), "a message expunged is gone");
    SM_ASSERT(gh_cpos == (gh_in ? gh_widx + 1 : 0), "the client's number for a message is its sequence number");
    SM_ASSERT(gh_stored == gh_forstore, "STORE is answered by its own rules");
    if(!gh_forstore) SM_ASSERT(gh_told == (gh_wmeta0 && !gh_wexp && !gh_wnew0), "new flags are told, once, unless the message is new or expunged");
    if(gh_wexp){ if(gh_wnew0) SM_COVER("expunged unseen"); else SM_COVER("expunged"); }
    else if(gh_wnew0) SM_COVER("new"); else if(gh_told) SM_COVER("flags");
    if(gh_cnt < cnt0) SM_COVER("fewer");
    if(gh_cnt > cnt0) SM_COVER("more");
    if(gh_in && gh_widx + 1 < gh_cnt) SM_COVER("in the middle");
}
#elif P_UNIT == 2
/* ==== gather_updates_dont_send: the pending updates, W is one of them */
static gather_t gh_g; static bool gh_allow, gh_wantsync;
static update_t *gh_u, *gh_n, *gh_cur, *gh_w;       // the next one, the one after; the one at hand; the witness
static size_t gh_left; static bool gh_wleft;        // how many are left from gh_u on; the witness is among them
static bool gh_inlist, gh_removed, gh_handled, gh_whandled, gh_synced; static unsigned gh_gfreed;
static ie_st_resp_t gh_fail1, *gh_syncarg; static bool gh_stfreed;
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
#define HEAD CONTAINER_OF(&gh_dn.pending_updates, update_t, link)
static update_t *fresh(void){
    update_t *u = malloc(sizeof(*u));
    SM_ASSUME(u != NULL);
    u->type = sm_u8() & 3;
    u->arg.sync = sm_bool() ? &gh_fail1 : NULL;
    u->link.next = &gh_dn.pending_updates;
    return u;
}
// the i-th from the front of what is left
static update_t *pick(size_t left){
    if(!left) return HEAD;
    if(gh_wleft && (left == 1 || sm_bool())){ gh_wleft = false; return gh_w; }
    return fresh();
}
static void three(void){
    // gh_u, gh_n, and one more: as far as the loop looks ahead
    bool keep = gh_wleft;
    gh_u = pick(gh_left);
    gh_n = pick(gh_left ? gh_left - 1 : 0);
    update_t *nn = pick(gh_left > 1 ? gh_left - 2 : 0);
    if(gh_left) gh_u->link.next = &gh_n->link;
    if(gh_left > 1) gh_n->link.next = &nn->link;
    gh_wleft = keep;
}
static update_t *sm_hv_update(void){
    SM_MOD(gh_left) SM_MODB(gh_wleft)
    SM_ASSUME(gh_left >= 1 && gh_left < SM_HUGE);
    three();
    SM_MODPTR(gh_u, gh_u) SM_MODPTR(gh_n, gh_n)
    return gh_u;
}
static update_t *gh_next_update(void){ return gh_n; }
static void sm_hv_updates(void){ SM_MODPTR(gh_cur, NULL) SM_MODB(gh_removed) SM_MODB(gh_handled) SM_MODB(gh_whandled) SM_MODB(gh_synced) SM_MOD(gh_syncarg) }
static bool taken(update_t *u){ return u->type != UPDATE_EXPUNGE || gh_allow; }
static bool gh_update(update_t *update, update_t *next){
    return update != NULL && update == gh_u && next == gh_n && gh_u != HEAD && gh_left >= 1 && gh_left < SM_HUGE && (gh_u->link.next == &gh_n->link)
        && (!gh_wleft || gh_inlist) && (gh_u != gh_w || gh_wleft) && !gh_synced && (!gh_inlist || gh_wleft || gh_w->type != UPDATE_SYNC)
        // the one before was dealt with
        && (!gh_cur || gh_removed == gh_handled)
        && gh_whandled == (gh_inlist && !gh_wleft && taken(gh_w));
}
static void gh_update_step(update_t *update){
    gh_cur = update; gh_removed = gh_handled = false;
    if(update == gh_w) gh_wleft = false;
    gh_left--;
    gh_u = gh_n; gh_n = gh_left ? CONTAINER_OF(gh_u->link.next, update_t, link) : NULL;
    if(gh_left == 0) gh_n = NULL;
}
static size_t gh_updates_left(void){ return gh_left; }
static void handle(update_t *u, update_type_e type){
    SM_ASSERT(u == gh_cur && u->type == type && gh_removed && !gh_handled, "each update in turn, taken off the list, by its type");
    gh_handled = true;
    if(u == gh_w) gh_whandled = true;
}
void link_remove(link_t *l){ SM_ASSERT(gh_cur && l == &gh_cur->link && !gh_removed, "the update at hand is taken off the list"); gh_removed = true; }
derr_t c_gather_update_new(dn_t *dn, gather_t *g, update_t *u){ SM_ASSERT(dn == &gh_dn && g == &gh_g, "new"); handle(u, UPDATE_NEW); FAIL(E_NOMEM); return E_OK; }
derr_t c_gather_update_meta(dn_t *dn, gather_t *g, update_t *u){ SM_ASSERT(dn == &gh_dn && g == &gh_g, "meta"); handle(u, UPDATE_META); FAIL(E_NOMEM); return E_OK; }
derr_t c_gather_update_expunge(dn_t *dn, gather_t *g, update_t *u){ SM_ASSERT(dn == &gh_dn && g == &gh_g && gh_allow, "expunge"); handle(u, UPDATE_EXPUNGE); FAIL(E_NOMEM); return E_OK; }
void update_free(update_t **u){ handle(*u, UPDATE_SYNC); SM_ASSERT(!(*u)->arg.sync, "the failure is handed on first"); gh_synced = true; *u = NULL; }
void c_gather_free(gather_t *g){ SM_ASSERT(g == &gh_g, "gathered"); gh_gfreed++; }
void ie_st_resp_free(ie_st_resp_t *st){ (void)st; gh_stfreed = true; }
SM_HARNESS(p_updates){
    gh_allow = sm_bool(); gh_wantsync = sm_bool(); gh_inlist = sm_bool(); gh_left = sm_len(0); gh_wleft = gh_inlist;
    gh_removed = gh_handled = gh_whandled = gh_synced = gh_stfreed = false; gh_gfreed = 0; gh_cur = NULL;
    gh_w = fresh(); update_type_e wtype = gh_w->type; ie_st_resp_t *warg = gh_w->arg.sync;
    SM_ASSUME(gh_left < SM_HUGE && gh_left >= gh_inlist);
    three();
    gh_dn.pending_updates.next = gh_left ? &gh_u->link : &gh_dn.pending_updates;
    if(!gh_left && sm_bool()) gh_dn.pending_updates.next = NULL;       // (a list nothing was ever put in)
    ie_st_resp_t *st = &gh_fail1;
    derr_t e = gather_updates_dont_send(&gh_dn, gh_allow, gh_wantsync ? &st : NULL, &gh_g);
    if(e.type){
        SM_ASSERT(gh_gfreed == 1, "what was gathered is freed");
        SM_ASSERT(e.type == E_NOMEM || gh_wantsync != (gh_synced || (gh_cur && gh_cur->type == UPDATE_SYNC)), "it fails only for lack of memory, or if the end of the command is not where it should be");
        SM_COVER("error");
        return;
    }
    SM_ASSERT(!gh_gfreed && gh_synced == gh_wantsync, "updates are gathered up to the end of the command, if there is one");
    SM_ASSERT(gh_synced || !gh_left, "all of them, otherwise");
    bool seen = gh_inlist && !gh_wleft;
    SM_ASSERT(gh_whandled == (seen && (wtype != UPDATE_EXPUNGE || gh_allow)), "each is taken by its type, unless it is an EXPUNGE which may not be sent now");
    if(seen && wtype == UPDATE_SYNC) SM_ASSERT(gh_wantsync && st == warg && gh_cur == gh_w, "the outcome of the command");
    if(gh_whandled){ if(gh_synced) SM_COVER("before a sync"); else SM_COVER("handled"); }
    if(seen && !gh_whandled) SM_COVER("held back");
    if(gh_inlist && !seen) SM_COVER("after the sync");
}
#elif P_UNIT == 3
/* ==== send_store_fetch_resps: two trees side by side; 0: what STORE expects, 1: new flags */
static gather_t gh_g; static bool gh_has[2], gh_past[2]; static size_t gh_left[2]; static unsigned gh_uid[2];
static exp_flags_t *gh_exp; static gathered_t *gh_met; static jsw_atrav_t *gh_trav[2];
static unsigned gh_calls, gh_kind; static bool gh_appended; static link_t *gh_temp;
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
// ascending: the next uid of a tree after `last`
static unsigned next_uid(unsigned i, unsigned last, bool first){
    unsigned u = sm_u32();
    SM_ASSUME((first || u > last) && (u != gh_W || gh_has[i]));
    if(gh_has[i] && !gh_past[i]) SM_ASSUME(u <= gh_W && (gh_left[i] > 1 || u == gh_W) );
    return u;
}
static jsw_anode_t *node_of(unsigned i){
    if(i == 0){ gh_exp = malloc(sizeof(*gh_exp)); SM_ASSUME(gh_exp != NULL); gh_exp->uid_dn = gh_uid[0]; return &gh_exp->node; }
    gh_met = malloc(sizeof(*gh_met)); SM_ASSUME(gh_met != NULL); gh_met->uid_dn = gh_uid[1]; return &gh_met->node;
}
static jsw_anode_t *step(unsigned i, bool first){
    if(!first){
        SM_ASSERT(i == 0 ? gh_exp != NULL : gh_met != NULL, "not past the end");
        if(gh_uid[i] == gh_W) gh_past[i] = true;
        gh_left[i]--;
    }
    if(!gh_left[i]){ if(i == 0) gh_exp = NULL; else gh_met = NULL; return NULL; }
    gh_uid[i] = next_uid(i, gh_uid[i], first);
    return node_of(i);
}
jsw_anode_t *jsw_atfirst(jsw_atrav_t *trav, jsw_atree_t *tree){
    SM_ASSERT(tree == &gh_dn.store.tree || tree == &gh_g.metas, "one of the two");
    unsigned i = tree == &gh_g.metas;
    SM_ASSERT(!gh_trav[i], "each once");
    gh_trav[i] = trav;
    return step(i, true);
}
jsw_anode_t *jsw_atnext(jsw_atrav_t *trav){ SM_ASSERT(trav == gh_trav[0] || trav == gh_trav[1], "one of the two"); return step(trav == gh_trav[1], false); }
static void called(unsigned kind, unsigned uid, link_t *out){
    SM_ASSERT(out != &gh_out && (!gh_temp || out == gh_temp), "kept back until all is well");
    gh_temp = out;
    if(uid == gh_W){ gh_calls++; gh_kind = kind; }
}
derr_t c_send_store_resp_noexp(dn_t *dn, unsigned uid, link_t *out){ SM_ASSERT(dn == &gh_dn && gh_met && uid == gh_uid[1], "new flags which were not expected"); called(1, uid, out); FAIL(E_NOMEM); return E_OK; }
derr_t c_send_store_resp_noupdate(dn_t *dn, const exp_flags_t *x, link_t *out){ SM_ASSERT(dn == &gh_dn && gh_exp && x == gh_exp, "flags expected, but nothing changed"); called(2, x->uid_dn, out); FAIL(E_NOMEM); return E_OK; }
derr_t c_send_store_resp_expupdate(dn_t *dn, const exp_flags_t *x, link_t *out){ SM_ASSERT(dn == &gh_dn && gh_exp && x == gh_exp && gh_met && gh_uid[1] == gh_uid[0], "new flags which were expected"); called(3, x->uid_dn, out); FAIL(E_NOMEM); return E_OK; }
void link_list_append_list(link_t *to, link_t *from){ SM_ASSERT(to == &gh_out && (!gh_temp || from == gh_temp), "the responses are passed on"); gh_appended = true; }
void c_free_response_list(link_t *l){ SM_ASSERT(l != &gh_out, "other responses are kept"); }
static bool side(unsigned i, bool cur){
    return cur == (gh_left[i] != 0) && gh_left[i] < SM_HUGE && (!gh_past[i] || gh_has[i]) && gh_trav[i]
        && (!cur || gh_uid[i] != gh_W || (gh_has[i] && !gh_past[i]))
        && (!gh_has[i] || gh_past[i] || (cur && gh_uid[i] <= gh_W && (gh_left[i] > 1 || gh_uid[i] == gh_W)))
        && (!gh_past[i] || !cur || gh_uid[i] > gh_W);
}
static bool gh_merge(void *exp, void *met, link_t *temp){
    return exp == gh_exp && met == gh_met && side(0, exp != NULL) && side(1, met != NULL) && (exp || met) && (!gh_temp || gh_temp == temp) && !gh_appended
        && (!exp || gh_exp->uid_dn == gh_uid[0]) && (!met || gh_met->uid_dn == gh_uid[1]) && gh_trav[0] != gh_trav[1]
        && (!(gh_has[0] && gh_has[1]) || gh_past[0] == gh_past[1])
        && gh_calls == (gh_past[0] || gh_past[1]) && (!gh_calls || gh_kind == (gh_has[0] ? gh_has[1] ? 3 : 2 : 1));
}
static void *sm_hv_exp(void){
    SM_MOD(gh_left[0]) SM_MOD(gh_uid[0]) SM_MODB(gh_past[0])
    SM_MODPTR(gh_exp, NULL)
    if(gh_left[0]) node_of(0);
    return gh_exp;
}
static void *sm_hv_met(void){
    SM_MOD(gh_left[1]) SM_MOD(gh_uid[1]) SM_MODB(gh_past[1])
    SM_MODPTR(gh_met, NULL)
    if(gh_left[1]) node_of(1);
    return gh_met;
}
static void sm_hv_merge(link_t *temp){ SM_MOD(gh_calls) SM_MOD(gh_kind) SM_MODPTR(gh_temp, sm_bool() ? temp : NULL) }
static size_t gh_merge_left(void){ return gh_left[0] + gh_left[1]; }
SM_HARNESS(p_merge){
    gh_W = sm_u32();
    for(unsigned i = 0; i < 2; i++){ gh_has[i] = sm_bool(); gh_past[i] = false; gh_left[i] = sm_len(0); SM_ASSUME(gh_left[i] < SM_HUGE && gh_left[i] >= gh_has[i]); gh_trav[i] = NULL; gh_uid[i] = 0; }
    gh_calls = 0; gh_appended = false; gh_temp = NULL; gh_exp = NULL; gh_met = NULL;
    derr_t e = send_store_fetch_resps(&gh_dn, &gh_g, &gh_out);
    if(e.type){ SM_ASSERT(!gh_appended && e.type == E_NOMEM, "nothing is sent after an error"); SM_COVER("error"); return; }
    SM_ASSERT(gh_appended && !gh_left[0] && !gh_left[1], "every message is looked at");
    SM_ASSERT(gh_calls == (gh_has[0] || gh_has[1]), "each once");
    if(gh_calls) SM_ASSERT(gh_kind == (gh_has[0] ? gh_has[1] ? 3 : 2 : 1), "by what was expected of it, and what happened");
    if(gh_calls){ if(gh_kind == 1) SM_COVER("not expected"); else if(gh_kind == 2) SM_COVER("no change"); else SM_COVER("expected"); }
}
#elif P_UNIT == 4 || P_UNIT == 5
/* ==== one message */
static gather_t gh_g; static update_t *gh_u; static msg_view_t *gh_oldview, *gh_newview; static msg_expunge_t gh_x;
static unsigned gh_ins, gh_insview, gh_updfreed, gh_viewfreed, gh_listed; static jsw_atree_t *gh_intree; static unsigned gh_inuid; static bool gh_inunseen;
static bool gh_inmetas;
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
#if P_UNIT == 4
void jsw_ainsert(jsw_atree_t *tree, jsw_anode_t *node){
    if(tree == &gh_dn.views){ SM_ASSERT(node == &gh_newview->node, "the new view"); gh_insview++; return; }
    SM_ASSERT(tree == &gh_g.news || tree == &gh_g.metas || tree == &gh_g.expunges, "gathered");
    SM_ASSERT(node == &((gathered_t*)gh_malloced)->node, "a new element");
    gh_intree = tree; gh_inuid = ((gathered_t*)gh_malloced)->uid_dn; gh_inunseen = ((gathered_t*)gh_malloced)->unseen; gh_ins++;
}
jsw_anode_t *jsw_aerase(jsw_atree_t *tree, const void *val){
    SM_ASSERT(tree == &gh_dn.views && *(const unsigned*)val == gh_W && gh_in, "the old view of the message");
    gh_in = false;
    if(!gh_oldview) return NULL;
    return &gh_oldview->node;
}
static size_t gh_idx; 
jsw_anode_t *jsw_afind(jsw_atree_t *tree, const void *val, size_t *idx){
    SM_ASSERT(*(const unsigned*)val == gh_W, "the message");
    if(tree == &gh_dn.views){ if(!gh_oldview) return NULL; if(idx) *idx = gh_idx; return &gh_oldview->node; }
    SM_ASSERT(tree == &gh_g.metas, "what was gathered");
    static gathered_t there;
    return gh_inmetas ? &there.node : NULL;
}
void msg_view_free(msg_view_t **v){ SM_ASSERT(*v && *v == gh_oldview, "the old view"); gh_viewfreed++; *v = NULL; }
void update_free(update_t **u){ SM_ASSERT(*u == gh_u, "the update"); gh_updfreed++; *u = NULL; }
void link_list_append(link_t *l, link_t *x){ SM_ASSERT(l == &gh_g.updates_to_free && x == &gh_u->link, "kept until it has been sent"); gh_listed++; }
static void init(update_type_e type){
    gh_W = sm_u32(); gh_oldview = sm_bool() ? new_view(gh_W) : NULL; gh_newview = new_view(gh_W); gh_in = true;
    gh_u = malloc(sizeof(*gh_u)); SM_ASSUME(gh_u != NULL);
    gh_u->type = type; gh_u->arg.new = gh_newview;
    gh_ins = gh_insview = gh_updfreed = gh_viewfreed = gh_listed = 0; gh_intree = NULL; gh_inmetas = sm_bool(); gh_oom = true;
}
SM_HARNESS(p_new){
    init(UPDATE_NEW);
    derr_t e = gather_update_new(&gh_dn, &gh_g, gh_u);
    SM_ASSERT(gh_updfreed == 1 && !gh_viewfreed && !gh_listed, "the update is used up");
    if(e.type){ SM_ASSERT(e.type == E_NOMEM && !gh_ins && !gh_insview && gh_u->arg.new == gh_newview, "nothing is done without memory"); SM_COVER("error"); return; }
    SM_ASSERT(gh_ins == 1 && gh_intree == &gh_g.news && gh_inuid == gh_W && !gh_inunseen, "the message is known to be new");
    SM_ASSERT(gh_insview == 1 && gh_u->arg.new == NULL, "and in the view, which is not freed with the update");
    SM_COVER("new");
}
SM_HARNESS(p_meta){
    init(UPDATE_META);
    derr_t e = gather_update_meta(&gh_dn, &gh_g, gh_u);
    SM_ASSERT(gh_updfreed == 1 && !gh_listed, "the update is used up");
    if(e.type){ SM_ASSERT(e.type == E_NOMEM && !gh_ins && !gh_insview && gh_u->arg.meta == gh_newview, "out of memory"); SM_COVER("error"); return; }
    if(!gh_oldview){ SM_ASSERT(!gh_ins && !gh_insview && !gh_viewfreed && gh_u->arg.meta == gh_newview, "a message which is not there is left alone"); SM_COVER("none"); return; }
    SM_ASSERT(gh_ins == !gh_inmetas && (!gh_ins || (gh_intree == &gh_g.metas && gh_inuid == gh_W)), "the message is known to have new flags, once");
    SM_ASSERT(gh_insview == 1 && gh_viewfreed == 1 && gh_u->arg.meta == NULL, "the view is replaced");
    SM_COVER("replaced");
}
SM_HARNESS(p_expunge){
    init(UPDATE_EXPUNGE);
    gh_x.uid_dn = gh_W; gh_u->arg.expunge = &gh_x;
    derr_t e = gather_update_expunge(&gh_dn, &gh_g, gh_u);
    SM_ASSERT(!gh_updfreed && gh_listed == 1 && !gh_insview && !gh_viewfreed && gh_in, "the view stays until the client is told");
    if(e.type){ SM_ASSERT(e.type == E_NOMEM && !gh_ins, "out of memory"); SM_COVER("error"); return; }
    SM_ASSERT(gh_ins == 1 && gh_intree == &gh_g.expunges && gh_inuid == gh_W && !gh_inunseen, "the message is known to be expunged");
    SM_COVER("expunged");
}
static unsigned gh_sent;
derr_t c_send_flags_update(dn_t *dn, unsigned seq, msg_flags_t flags, const unsigned *uid, link_t *out){
    SM_ASSERT(dn == &gh_dn && out == &gh_out && gh_oldview, "to the client");
    SM_ASSERT(seq == gh_idx + 1, "the sequence number of the message");
    SM_ASSERT(gh_dn.store.uid_mode ? uid && *uid == gh_W : !uid, "its uid, in reply to UID STORE");
    SM_ASSERT(msg_flags_eq(flags, gh_oldview->flags), "the flags it has");
    gh_sent++;
    FAIL(E_NOMEM);
    return E_OK;
}
SM_HARNESS(p_storeresp){
    init(UPDATE_META);
    gh_sent = 0; gh_idx = sm_u64(); gh_dn.store.uid_mode = sm_bool(); gh_dn.store.silent = sm_bool();
    exp_flags_t x = { .uid_dn = gh_W };
    x.flags.seen = sm_bool(); x.flags.deleted = sm_bool(); x.flags.answered = sm_bool(); x.flags.flagged = sm_bool(); x.flags.draft = sm_bool();
    unsigned kind = sm_u8() % 3;
    derr_t e = kind == 0 ? send_store_resp_noexp(&gh_dn, gh_W, &gh_out) : kind == 1 ? send_store_resp_noupdate(&gh_dn, &x, &gh_out) : send_store_resp_expupdate(&gh_dn, &x, &gh_out);
    if(e.type){ SM_ASSERT(e.type == E_NOMEM || !gh_oldview || gh_idx >= UINT_MAX, "only for a message that is there"); SM_COVER("error"); return; }
    bool eq = gh_oldview->flags.seen == x.flags.seen && gh_oldview->flags.deleted == x.flags.deleted && gh_oldview->flags.answered == x.flags.answered && gh_oldview->flags.flagged == x.flags.flagged && gh_oldview->flags.draft == x.flags.draft;
    bool want = kind == 0 ? true : kind == 1 ? eq && !gh_dn.store.silent : !eq || !gh_dn.store.silent;
    SM_ASSERT(gh_sent == want, "flags are sent unless .SILENT, but always if they are not what was asked for");
    if(want){ if(kind == 1) SM_COVER("unchanged"); else if(kind == 2 && !eq) SM_COVER("different"); } else SM_COVER("silent");
}
#else
/* ---- what a response says */
static imap_resp_t *gh_resp; static imap_resp_type_t gh_rtype; static imap_resp_arg_t gh_arg; static unsigned gh_resps, gh_app;
static ie_fflags_t *gh_ff; static ie_fetch_resp_t gh_f; static unsigned gh_bits, gh_seq, gh_fuid; static bool gh_hasff, gh_hasseq, gh_hasuid;
static bool fail(derr_t *e){ if(e->type) return true; if(sm_bool()){ e->type = E_NOMEM; return true; } return false; }
imap_resp_t *imap_resp_new(derr_t *e, imap_resp_type_t type, imap_resp_arg_t arg){
    if(fail(e)) return NULL;
    gh_rtype = type; gh_arg = arg; gh_resps++;
    gh_resp = malloc(sizeof(*gh_resp)); SM_ASSUME(gh_resp != NULL);
    return gh_resp;
}
imap_resp_t *imap_resp_assert_writable(derr_t *e, imap_resp_t *r, const extensions_t *x){ (void)x; if(fail(e)) return NULL; SM_ASSERT(r == gh_resp, "the response"); return r; }
void link_list_append(link_t *l, link_t *x){ SM_ASSERT(l == &gh_out && x == &gh_resp->link, "the response is sent"); gh_app++; }
static ie_fflags_t gh_ffs;
ie_fflags_t *ie_fflags_new(derr_t *e){ if(fail(e)) return NULL; gh_bits = 0; return &gh_ffs; }
ie_fflags_t *ie_fflags_add_simple(derr_t *e, ie_fflags_t *ff, ie_fflag_type_t t){
    if(fail(e)) return NULL;
    SM_ASSERT(ff == &gh_ffs, "the flags");
    gh_bits |= t == IE_FFLAG_ANSWERED ? 1 : t == IE_FFLAG_FLAGGED ? 2 : t == IE_FFLAG_SEEN ? 4 : t == IE_FFLAG_DRAFT ? 8 : t == IE_FFLAG_DELETED ? 16 : 32;
    return ff;
}
ie_fetch_resp_t *ie_fetch_resp_new(derr_t *e){ if(fail(e)) return NULL; gh_hasff = gh_hasseq = gh_hasuid = false; return &gh_f; }
ie_fetch_resp_t *ie_fetch_resp_seq_num(derr_t *e, ie_fetch_resp_t *f, unsigned n){ if(fail(e)) return NULL; SM_ASSERT(f == &gh_f, "the response"); gh_hasseq = true; gh_seq = n; return f; }
ie_fetch_resp_t *ie_fetch_resp_uid(derr_t *e, ie_fetch_resp_t *f, unsigned n){ if(fail(e)) return NULL; SM_ASSERT(f == &gh_f, "the response"); gh_hasuid = true; gh_fuid = n; return f; }
ie_fetch_resp_t *ie_fetch_resp_flags(derr_t *e, ie_fetch_resp_t *f, ie_fflags_t *ff){ if(fail(e)) return NULL; SM_ASSERT(f == &gh_f && ff == &gh_ffs, "the response"); gh_hasff = true; return f; }
static unsigned bits(msg_flags_t f){ return f.answered | f.flagged << 1 | f.seen << 2 | f.draft << 3 | f.deleted << 4; }
SM_HARNESS(p_resps){
    gh_resps = gh_app = 0;
    msg_view_t *v = new_view(1);
    unsigned seq = sm_u32(), uid = sm_u32(), kind = sm_u8() % 3; bool hasuid = sm_bool();
    gh_dn.views.size = sm_len(0);
    derr_t e = kind == 0 ? send_expunge(&gh_dn, seq, &gh_out) : kind == 1 ? send_exists_resp(&gh_dn, &gh_out) : send_flags_update(&gh_dn, seq, v->flags, hasuid ? &uid : NULL, &gh_out);
    if(e.type){ SM_ASSERT(!gh_app && (e.type == E_NOMEM || (kind == 1 && gh_dn.views.size > UINT_MAX)), "nothing is sent after an error"); SM_COVER("error"); return; }
    SM_ASSERT(gh_resps == 1 && gh_app == 1, "one response");
    if(kind == 0){ SM_ASSERT(gh_rtype == IMAP_RESP_EXPUNGE && gh_arg.expunge == seq, "EXPUNGE with the number"); SM_COVER("expunge"); }
    else if(kind == 1){ SM_ASSERT(gh_rtype == IMAP_RESP_EXISTS && gh_arg.exists == gh_dn.views.size, "EXISTS with the size of the mailbox"); SM_COVER("exists"); }
    else{
        SM_ASSERT(gh_rtype == IMAP_RESP_FETCH && gh_arg.fetch == &gh_f && gh_hasseq && gh_seq == seq, "FETCH with the number");
        SM_ASSERT(gh_hasff && gh_bits == bits(v->flags), "exactly the flags of the message");
        SM_ASSERT(gh_hasuid == hasuid && (!hasuid || gh_fuid == uid), "and the uid, if it is wanted");
        SM_COVER("flags");
    }
}
/* ---- send_unseen_resp */
static msg_view_t *gh_at; static size_t gh_pos, gh_size; static msg_view_t *gh_wv; static unsigned gh_code;
static jsw_anode_t *view_at(size_t i){
    if(i >= gh_size){ gh_at = NULL; return NULL; }
    gh_at = gh_in && i == gh_widx ? gh_wv : new_view(1);
    return &gh_at->node;
}
jsw_anode_t *jsw_atfirst(jsw_atrav_t *trav, jsw_atree_t *tree){ (void)trav; SM_ASSERT(tree == &gh_dn.views, "the views"); gh_pos = 0; return view_at(0); }
jsw_anode_t *jsw_atnext(jsw_atrav_t *trav){ (void)trav; gh_pos++; return view_at(gh_pos); }
jsw_anode_t *jsw_atprev(jsw_atrav_t *trav){ (void)trav; if(gh_pos == 0 || gh_pos == SIZE_MAX){ gh_pos = SIZE_MAX; gh_at = NULL; return NULL; } gh_pos--; return view_at(gh_pos); }
static jsw_anode_t *sm_hv_unseen(void){ SM_MOD(gh_pos) SM_MOD(gh_code) SM_MOD(gh_resps) SM_MOD(gh_app) SM_MOD(gh_rtype) SM_MOD(gh_arg) SM_MOD(gh_resp) SM_ASSUME(gh_pos < gh_size); SM_MODPTR(gh_at, gh_in && gh_pos == gh_widx ? gh_wv : new_view(1)) return &gh_at->node; }
static bool gh_unseen(jsw_anode_t *node, unsigned seq){
    return node != NULL && gh_at && node == &gh_at->node && gh_pos < gh_size && seq == gh_pos + 1 && (gh_at == gh_wv) == (gh_in && gh_pos == gh_widx) && !gh_resps && !gh_app
        && (!gh_in || gh_wv->flags.seen || gh_widx >= gh_pos);
}
static size_t gh_unseen_left(void){ return gh_size - gh_pos; }
ie_st_code_t *ie_st_code_new(derr_t *e, ie_st_code_type_t type, ie_st_code_arg_t arg){ if(fail(e)) return NULL; SM_ASSERT(type == IE_ST_CODE_UNSEEN, "UNSEEN"); gh_code = arg.unseen; static ie_st_code_t c; return &c; }
ie_dstr_t *ie_dstr_new(derr_t *e, const dstr_t *d, keep_type_t t){ (void)d; (void)t; if(fail(e)) return NULL; static ie_dstr_t x; return &x; }
ie_st_resp_t *ie_st_resp_new(derr_t *e, ie_dstr_t *tag, ie_status_t status, const ie_st_code_t *code, const ie_dstr_t *text){ (void)text; if(fail(e)) return NULL; SM_ASSERT(!tag && status == IE_ST_OK && code, "an untagged OK"); static ie_st_resp_t x; return &x; }
SM_HARNESS(p_unseen){
    gh_resps = gh_app = 0; gh_size = sm_len(0); SM_ASSUME(gh_size < UINT_MAX); gh_in = sm_bool(); gh_widx = sm_u64(); if(gh_in) SM_ASSUME(gh_widx < gh_size);
    gh_wv = new_view(1); gh_at = NULL; gh_pos = 0;
    derr_t e = send_unseen_resp(&gh_dn, &gh_out);
    if(e.type){ SM_ASSERT(e.type == E_NOMEM && !gh_app, "only memory can run out"); return; }
    SM_ASSERT(gh_app == gh_resps && gh_app <= 1, "at most one response");
    if(gh_in && !gh_wv->flags.seen) SM_ASSERT(gh_app && gh_code <= gh_widx + 1, "an unseen message is reported, and none before it is left out");
    if(gh_app){ SM_ASSERT(gh_rtype == IMAP_RESP_STATUS_TYPE && gh_at && !gh_at->flags.seen && gh_code == gh_pos + 1, "by its sequence number"); SM_COVER("unseen"); }
    else SM_COVER("all seen");
}
#endif
#elif P_UNIT == 6
/* ==== send_fetch_resp */
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
static bool fail(derr_t *e){ if(e->type) return true; if(sm_bool()){ e->type = E_NOMEM; return true; } return false; }
static msg_view_t *gh_v; static size_t gh_idx; static imap_resp_t *gh_resp; static ie_fetch_resp_t gh_f, *gh_fcur; static ie_fflags_t gh_ffs;
static unsigned gh_app, gh_bits, gh_seq, gh_fuid, gh_has, gh_closed; static loader_t *gh_loader; static size_t gh_rsize;
static ie_dstr_t gh_str[3]; static ie_nums_t gh_num; static ie_envelope_t gh_env; static ie_body_t gh_body; static imf_t gh_imf; static imf_hdrs_t gh_hdrs; static bool gh_intdate;
enum { H_ENV = 1, H_FLAGS = 2, H_INT = 4, H_UID = 8, H_822 = 16, H_HDR = 32, H_SIZE = 64, H_TEXT = 128, H_BODY = 256, H_STRUCT = 512, H_SEQ = 1024 };
jsw_anode_t *jsw_afind(jsw_atree_t *tree, const void *val, size_t *idx){
    SM_ASSERT(tree == &gh_dn.views && *(const unsigned*)val == gh_W, "the message");
    if(!gh_v) return NULL;
    if(idx) *idx = gh_idx;
    return &gh_v->node;
}
static void ld(loader_t *l){ SM_ASSERT(l->m == gh_dn.m && l->key.uid_up == gh_v->key.uid_up && l->key.uid_local == gh_v->key.uid_local && (!gh_loader || l == gh_loader) && !gh_closed, "the content of this message"); gh_loader = l; }
const imf_hdrs_t *c_loader_parse_hdrs(derr_t *e, loader_t *l){ ld(l); return fail(e) ? NULL : &gh_hdrs; }
const imf_t *c_loader_parse_imf(derr_t *e, loader_t *l){ ld(l); return fail(e) ? NULL : &gh_imf; }
ie_dstr_t *c_loader_take_content(derr_t *e, loader_t *l){ ld(l); return fail(e) ? NULL : &gh_str[0]; }
void c_loader_close(loader_t *l){ SM_ASSERT(!gh_loader || l == gh_loader, "the loader"); gh_closed++; }
ie_envelope_t *read_envelope_info(derr_t *e, const imf_hdrs_t *h){ if(fail(e)) return NULL; SM_ASSERT(h == &gh_hdrs, "the headers"); return &gh_env; }
ie_body_t *imf_bodystructure(derr_t *e, const imf_t *imf){ if(fail(e)) return NULL; SM_ASSERT(imf == &gh_imf, "the message"); return &gh_body; }
dstr_t dstr_sub2(const dstr_t d, size_t a, size_t b){ (void)d; return (dstr_t){ .len = a, .size = b }; }
ie_dstr_t *ie_dstr_new2(derr_t *e, const dstr_t d){
    if(fail(e)) return NULL;
    if(d.len == gh_hdrs.bytes.start && d.size == gh_hdrs.bytes.start + gh_hdrs.bytes.len) return &gh_str[1];
    SM_ASSERT(d.len == gh_imf.body.start && d.size == gh_imf.body.start + gh_imf.body.len, "headers or body");
    return &gh_str[2];
}
ie_nums_t *ie_nums_new(derr_t *e, unsigned n){ if(fail(e)) return NULL; gh_rsize = n; return &gh_num; }
ie_fflags_t *ie_fflags_new(derr_t *e){ if(fail(e)) return NULL; gh_bits = 0; return &gh_ffs; }
ie_fflags_t *ie_fflags_add_simple(derr_t *e, ie_fflags_t *ff, ie_fflag_type_t t){
    if(fail(e)) return NULL;
    SM_ASSERT(ff == &gh_ffs, "the flags");
    gh_bits |= t == IE_FFLAG_ANSWERED ? 1 : t == IE_FFLAG_FLAGGED ? 2 : t == IE_FFLAG_SEEN ? 4 : t == IE_FFLAG_DRAFT ? 8 : t == IE_FFLAG_DELETED ? 16 : 32;
    return ff;
}
ie_fetch_resp_t *ie_fetch_resp_new(derr_t *e){ if(fail(e)) return NULL; gh_has = 0; return gh_fcur = &gh_f; }
#define PUT(what, ok) { if(fail(e)) return gh_fcur = NULL; SM_ASSERT(f == &gh_f && !(gh_has & what) && (ok), "the right value"); gh_has |= what; return f; }
ie_fetch_resp_t *ie_fetch_resp_seq_num(derr_t *e, ie_fetch_resp_t *f, unsigned n) PUT(H_SEQ, (gh_seq = n) || true)
ie_fetch_resp_t *ie_fetch_resp_uid(derr_t *e, ie_fetch_resp_t *f, unsigned n) PUT(H_UID, n == gh_W)
ie_fetch_resp_t *ie_fetch_resp_flags(derr_t *e, ie_fetch_resp_t *f, ie_fflags_t *ff) PUT(H_FLAGS, ff == &gh_ffs)
ie_fetch_resp_t *ie_fetch_resp_envelope(derr_t *e, ie_fetch_resp_t *f, ie_envelope_t *x) PUT(H_ENV, x == &gh_env)
ie_fetch_resp_t *ie_fetch_resp_intdate(derr_t *e, ie_fetch_resp_t *f, imap_time_t x) PUT(H_INT, x.year == gh_v->internaldate.year && x.sec == gh_v->internaldate.sec)
ie_fetch_resp_t *ie_fetch_resp_rfc822(derr_t *e, ie_fetch_resp_t *f, ie_dstr_t *x) PUT(H_822, x == &gh_str[0])
ie_fetch_resp_t *ie_fetch_resp_rfc822_hdr(derr_t *e, ie_fetch_resp_t *f, ie_dstr_t *x) PUT(H_HDR, x == &gh_str[1])
ie_fetch_resp_t *ie_fetch_resp_rfc822_text(derr_t *e, ie_fetch_resp_t *f, ie_dstr_t *x) PUT(H_TEXT, x == &gh_str[2])
ie_fetch_resp_t *ie_fetch_resp_rfc822_size(derr_t *e, ie_fetch_resp_t *f, ie_nums_t *x) PUT(H_SIZE, x == &gh_num && gh_rsize == gh_v->length)
ie_fetch_resp_t *ie_fetch_resp_body(derr_t *e, ie_fetch_resp_t *f, ie_body_t *x) PUT(H_BODY, x == &gh_body)
ie_fetch_resp_t *ie_fetch_resp_bodystruct(derr_t *e, ie_fetch_resp_t *f, ie_body_t *x) PUT(H_STRUCT, x == &gh_body)
imap_resp_t *imap_resp_new(derr_t *e, imap_resp_type_t type, imap_resp_arg_t arg){
    if(fail(e)) return NULL;
    SM_ASSERT(type == IMAP_RESP_FETCH && arg.fetch == &gh_f, "a FETCH response");
    gh_resp = malloc(sizeof(*gh_resp)); SM_ASSUME(gh_resp != NULL);
    return gh_resp;
}
imap_resp_t *imap_resp_assert_writable(derr_t *e, imap_resp_t *r, const extensions_t *x){ (void)x; if(fail(e)) return NULL; SM_ASSERT(r == gh_resp, "the response"); return r; }
void link_list_append(link_t *l, link_t *x){ SM_ASSERT(l == &gh_out && x == &gh_resp->link, "the response is sent"); gh_app++; }
/* the extra parts: a list of any length, one of them the witness */
static ie_fetch_extra_t *gh_p, *gh_pcur; static size_t gh_pleft, gh_built; static bool gh_pmiss; static size_t gh_npart;
static ie_fetch_extra_t *new_part(void){ ie_fetch_extra_t *p = malloc(sizeof(*p)); SM_ASSUME(p != NULL); p->next = NULL; return p; }
#define NEW_PARTS gh_p = NULL; if(gh_pleft > 0) gh_p = new_part(); if(gh_pleft > 1) gh_p->next = new_part();
static derr_type_t gh_etype;
static ie_fetch_extra_t *sm_hv_part(void){ SM_MOD(gh_pleft) SM_ASSUME(gh_pleft < SM_HUGE); NEW_PARTS SM_MODPTR(gh_p, gh_p) SM_MODPTR(gh_pcur, NULL) SM_MODB(gh_pmiss) SM_MOD(gh_built) SM_MODPTR(gh_fcur, sm_bool() ? &gh_f : NULL) SM_MODPTR(gh_loader, gh_loader) return gh_p; }
static bool gh_bad;
static void sm_hv_parts(derr_t *e){ if(!e->type && sm_bool()) e->type = E_NOMEM; }
static ie_fetch_resp_t *gh_fresp(void){ return gh_fcur; }
static size_t gh_parts_left(void){ return gh_pleft; }
static bool gh_part(ie_fetch_extra_t *p, ie_fetch_resp_t *f, derr_t *e, bool missing){
    if(!gh_fcur && !e->type) return false;
    if(e->type && e->type != E_NOMEM && !(e->type == E_INTERNAL && gh_bad)) return false;
    return p != NULL && p == gh_p && gh_pleft >= 1 && gh_pleft <= gh_npart && gh_built == gh_npart - gh_pleft && f == gh_fcur && !gh_closed && !gh_app && missing == gh_pmiss && gh_npart < SM_HUGE;
}
static void gh_part_step(ie_fetch_extra_t *p){ gh_pcur = p; gh_p = p->next; gh_pleft--; }
ie_fetch_resp_t *c_build_fetch_resp_extra(derr_t *e, ie_fetch_resp_t *f, ie_fetch_extra_t *x, loader_t *l, bool *missing){
    SM_ASSERT(x == gh_pcur && gh_pcur, "each part in turn"); gh_pcur = NULL;
    ld(l);
    gh_built++;
    if(fail(e)){ gh_fcur = NULL; return NULL; }
    SM_ASSERT(f == &gh_f, "the response");
    if(sm_bool()){ gh_pmiss = true; *missing = true; }
    gh_fcur = f;
    return f;
}
SM_HARNESS(p_fetchresp){
    gh_W = sm_u32(); gh_v = sm_bool() ? new_view(gh_W) : NULL; gh_idx = sm_u64(); if(gh_v){ gh_v->internaldate.year = (int)sm_u32(); gh_v->internaldate.sec = (int)sm_u32(); }
    gh_app = gh_closed = gh_has = 0; gh_loader = NULL; gh_pcur = NULL; gh_pmiss = false; gh_built = 0; gh_seq = 0; gh_fcur = NULL;
    gh_pleft = gh_npart = sm_len(0); SM_ASSUME(gh_npart < SM_HUGE);
    NEW_PARTS
    static dstr_t buf; gh_hdrs.bytes.buf = gh_imf.body.buf = &buf;
    gh_hdrs.bytes.start = sm_u32(); gh_hdrs.bytes.len = sm_u32(); gh_imf.body.start = sm_u32(); gh_imf.body.len = sm_u32();
    SM_ASSUME(gh_imf.body.start != gh_hdrs.bytes.start);
    ie_fetch_attrs_t a = { .extras = gh_p }; 
    a.envelope = sm_bool(); a.flags = sm_bool(); a.intdate = sm_bool(); a.uid = sm_bool(); a.rfc822 = sm_bool(); a.rfc822_header = sm_bool(); a.rfc822_size = sm_bool(); a.rfc822_text = sm_bool(); a.body = sm_bool(); a.bodystruct = sm_bool(); a.modseq = sm_bool();
    ie_fetch_cmd_t cmd = { .uid_mode = sm_bool(), .attr = &a };
    bool force = sm_bool(), missing = sm_bool();
    gh_bad = a.modseq || (gh_v && gh_v->length > UINT_MAX);
    derr_t e = send_fetch_resp(&gh_dn, &cmd, gh_W, force, &missing, &gh_out);
    SM_ASSERT(gh_closed == (gh_v && gh_idx < UINT_MAX), "what was loaded is closed");
    if(e.type){ SM_ASSERT(!gh_app && (e.type == E_NOMEM || !gh_v || gh_idx >= UINT_MAX || a.modseq || gh_v->length > UINT_MAX), "nothing is sent after an error"); SM_COVER("error"); return; }
    SM_ASSERT(gh_app == 1, "one response");
    SM_ASSERT((gh_has & H_SEQ) && gh_seq == gh_idx + 1, "with the sequence number of the message");
    unsigned want = H_SEQ | (a.envelope ? H_ENV : 0) | (a.flags || force ? H_FLAGS : 0) | (a.intdate ? H_INT : 0) | (a.uid || cmd.uid_mode ? H_UID : 0) | (a.rfc822 ? H_822 : 0) | (a.rfc822_header ? H_HDR : 0)
        | (a.rfc822_size ? H_SIZE : 0) | (a.rfc822_text ? H_TEXT : 0) | (a.body ? H_BODY : 0) | (a.bodystruct ? H_STRUCT : 0);
    SM_ASSERT(gh_has == want, "exactly what was asked for, and flags that changed");
    if(a.flags || force) SM_ASSERT(gh_bits == (unsigned)(gh_v->flags.answered | gh_v->flags.flagged << 1 | gh_v->flags.seen << 2 | gh_v->flags.draft << 3 | gh_v->flags.deleted << 4), "exactly the flags of the message");
    SM_ASSERT(gh_built == gh_npart && gh_pleft == 0, "and each part");
    SM_ASSERT(missing == gh_pmiss, "a missing part is reported");
    if(missing) SM_COVER("missing");
    if(force && !a.flags) SM_COVER("flags changed");
}
#elif P_UNIT == 7
/* ==== fetch_respond, and how commands end */
static void l_free(void *p);
static gathered_t *gh_erased; static bool gh_wmeta, gh_first, gh_stfail, gh_allow, gh_uidm, gh_fs, gh_wantst; static unsigned gh_i, gh_freed, gh_prep, gh_gfree, gh_gather, gh_sent, gh_order, gh_stresp, gh_stfreed;
static ie_fetch_cmd_t gh_fcmd; static ie_seq_set_t gh_set; static bool gh_force, gh_partmissing; static unsigned gh_fsent; static bool gh_uidmode;
static ie_st_resp_t gh_st; static ie_dstr_t gh_text, gh_tag; static bool gh_passed, gh_tagged; static ie_status_t gh_status; static bool gh_ownst;
static gather_t *gh_gp; static bool gh_sterr, gh_begun; static unsigned gh_resps; static imap_resp_t *gh_resp;
static link_t *gh_temp;
static void l_free(void *p){ SM_ASSERT(p && p == gh_erased, "what was taken out is freed"); gh_erased = NULL; gh_freed++; free(p); }
static bool fail(derr_t *e){ if(e->type) return true; if(sm_bool()){ e->type = E_NOMEM; return true; } return false; }
jsw_anode_t *jsw_aerase(jsw_atree_t *tree, const void *val){
    SM_ASSERT(tree == &gh_dn.fetch.gather.metas && *(const unsigned*)val == gh_i, "new flags of the message");
    if(!gh_wmeta) return NULL;
    gh_erased = malloc(sizeof(*gh_erased)); SM_ASSUME(gh_erased != NULL);
    return &gh_erased->node;
}
unsigned ie_seq_set_iter(ie_seq_set_trav_t *t, const ie_seq_set_t *s, unsigned min, unsigned max){ SM_ASSERT(t == &gh_dn.fetch.trav && s == &gh_set && !min && !max && gh_first, "the messages asked for, from the first"); return gh_i; }
unsigned ie_seq_set_next(ie_seq_set_trav_t *t){ SM_ASSERT(t == &gh_dn.fetch.trav && !gh_first, "the next message"); return gh_i; }
derr_t c_send_fetch_resp(dn_t *dn, const ie_fetch_cmd_t *cmd, unsigned uid, bool force, bool *missing, link_t *out){
    SM_ASSERT(dn == &gh_dn && cmd == &gh_fcmd && uid == gh_i && out == &gh_out, "the message, by the command");
    gh_force = force; gh_fsent++;
    FAIL(E_NOMEM);
    *missing = gh_partmissing;
    return E_OK;
}
derr_t c_gather_updates_dont_send(dn_t *dn, bool allow, ie_st_resp_t **st, gather_t *g){
    SM_ASSERT(dn == &gh_dn && gh_prep == 1 && g == gh_gp && !gh_gather, "once");
    SM_ASSERT(allow == gh_allow, "EXPUNGE is sent only when it may be");
    SM_ASSERT((st != NULL) == gh_wantst, "up to the end of the command, if it has one");
    gh_gather++;
    if(st) *st = NULL;
    FAIL(E_NOMEM);
    if(st && gh_stfail){ *st = &gh_st; gh_ownst = true; }
    return E_OK;
}
derr_t c_gather_send_responses(dn_t *dn, gather_t *g, bool uid, bool fs, link_t *out){
    SM_ASSERT(dn == &gh_dn && gh_gather == 1 && g == gh_gp && !gh_sent, "once, after they are gathered");
    SM_ASSERT(uid == gh_uidmode && fs == gh_fs, "uids in reply to UID commands; STORE by its own rules");
    SM_ASSERT(!gh_temp || gh_temp == out, "one list"); gh_temp = out;
    gh_sent++;
    FAIL(E_NOMEM);
    return E_OK;
}
void c_gather_prep(gather_t *g){ SM_ASSERT(!gh_prep, "once"); gh_prep++; gh_gp = g; }
void c_gather_free(gather_t *g){ SM_ASSERT(g == gh_gp, "what was gathered"); gh_gfree++; }
static void tagged(ie_status_t st, link_t *out){ SM_ASSERT(gh_sent == 1 || gh_fsent, "the end comes after the updates"); SM_ASSERT(!gh_tagged && (!gh_temp || out == gh_temp), "one end"); gh_temp = out; gh_tagged = true; gh_status = st; }
derr_t c_send_ok(dn_t *dn, ie_dstr_t **tagp, const dstr_t msg, link_t *out){ (void)dn; (void)msg; SM_ASSERT(*tagp == &gh_tag, "the tag of the command"); *tagp = NULL; FAIL(E_NOMEM); tagged(IE_ST_OK, out); return E_OK; }
derr_t c_send_no(dn_t *dn, ie_dstr_t **tagp, const dstr_t msg, link_t *out){ (void)dn; (void)msg; SM_ASSERT(*tagp == &gh_tag, "the tag of the command"); *tagp = NULL; FAIL(E_NOMEM); tagged(IE_ST_NO, out); return E_OK; }
derr_t c_send_st_resp(dn_t *dn, ie_dstr_t **tagp, dstr_t msg, ie_status_t status, link_t *out){ (void)dn; SM_ASSERT(*tagp == &gh_tag && msg.len == gh_text.dstr.len && msg.data == gh_text.dstr.data, "the tag and the failure"); *tagp = NULL; FAIL(E_NOMEM); tagged(status, out); return E_OK; }
void ie_st_resp_free(ie_st_resp_t *st){ if(!st) return; SM_ASSERT(st == &gh_st && gh_ownst, "freed once"); gh_ownst = false; }
static ie_st_resp_t gh_st2; static ie_dstr_t *gh_sttag;
ie_st_resp_t *ie_st_resp_new(derr_t *e, ie_dstr_t *tag, ie_status_t status, const ie_st_code_t *code, const ie_dstr_t *text){ (void)text; (void)code; if(fail(e)) return NULL; SM_ASSERT(tag == &gh_tag && status == IE_ST_OK, "OK"); gh_st = (ie_st_resp_t){ .tag = tag, .status = status }; gh_ownst = true; return &gh_st; }
ie_plus_resp_t *ie_plus_resp_new(derr_t *e, ie_st_code_t *c, ie_dstr_t *text){ (void)c; (void)text; if(fail(e)) return NULL; static ie_plus_resp_t p; return &p; }
ie_dstr_t *ie_dstr_new2(derr_t *e, const dstr_t d){ (void)d; if(fail(e)) return NULL; static ie_dstr_t x; return &x; }
void ie_dstr_free(ie_dstr_t *d){ (void)d; }
static imap_resp_type_t gh_rtype;
imap_resp_t *imap_resp_new(derr_t *e, imap_resp_type_t type, imap_resp_arg_t arg){
    if(type == IMAP_RESP_STATUS_TYPE && arg.status_type){ SM_ASSERT(arg.status_type == &gh_st && gh_ownst && gh_st.tag == &gh_tag, "the outcome, with the tag"); gh_ownst = false; gh_status = gh_st.status; }
    gh_rtype = type;
    if(fail(e)) return NULL;
    gh_resp = malloc(sizeof(*gh_resp)); SM_ASSUME(gh_resp != NULL); gh_resps++;
    return gh_resp;
}
imap_resp_t *imap_resp_assert_writable(derr_t *e, imap_resp_t *r, const extensions_t *x){ (void)x; if(fail(e)) return NULL; SM_ASSERT(r == gh_resp, "the response"); return r; }
void link_list_append(link_t *l, link_t *x){ SM_ASSERT(gh_sent == 1 && x == &gh_resp->link && l == gh_temp && !gh_tagged, "the end comes after the updates"); gh_tagged = true; }
void link_list_append_list(link_t *to, link_t *from){
    SM_ASSERT(from == gh_temp && from != &gh_out, "what was made is passed on");
    gh_temp = to;
    if(to == &gh_out){ SM_ASSERT(!gh_passed, "once"); gh_passed = true; }
}
void c_free_response_list(link_t *l){ SM_ASSERT(l != &gh_out, "other responses are kept"); }
static void init(void){
    static imaildir_t *m; gh_dn.m = (imaildir_t*)&m;
    gh_i = sm_u32(); gh_wmeta = sm_bool(); gh_first = sm_bool(); gh_stfail = sm_bool(); gh_partmissing = sm_bool(); gh_uidmode = sm_bool(); gh_fs = gh_wantst = gh_allow = false;
    gh_freed = gh_prep = gh_gfree = gh_gather = gh_sent = gh_fsent = gh_resps = 0; gh_passed = gh_tagged = gh_ownst = false; gh_temp = NULL; gh_gp = NULL; gh_erased = NULL;
    gh_st = (ie_st_resp_t){ .status = sm_bool() ? IE_ST_NO : IE_ST_BAD, .text = &gh_text }; gh_text.dstr.len = sm_u32();
}
SM_HARNESS(p_respond){
    init();
    gh_dn.fetch.cmd = &gh_fcmd; gh_dn.fetch.uids_dn = &gh_set; gh_dn.fetch.tag = &gh_tag; gh_fcmd.uid_mode = gh_uidmode;
    gh_dn.fetch.iter_called = !gh_first; bool any0 = sm_bool(); gh_dn.fetch.any_missing = any0;
    gh_gp = &gh_dn.fetch.gather; gh_prep = 1; gh_gather = 1;
    bool ok = false;
    derr_t e = fetch_respond(&gh_dn, &gh_out, &ok);
    if(e.type){ SM_ASSERT(!gh_passed && !ok && e.type == E_NOMEM, "not done after an error"); SM_COVER("error"); return; }
    SM_ASSERT(gh_dn.fetch.iter_called && ok == (gh_i == 0), "it is done after the last message");
    SM_ASSERT(!gh_erased, "freed");
    if(gh_i){
        SM_ASSERT(gh_fsent == 1 && !gh_sent && !gh_tagged, "one message at a time");
        SM_ASSERT(gh_force == gh_wmeta && gh_freed == gh_wmeta, "new flags of the message are told with it, and not again");
        SM_ASSERT(gh_dn.fetch.any_missing == (any0 || gh_partmissing), "what is missing is remembered");
        SM_COVER("message");
    }else{
        SM_ASSERT(!gh_fsent && gh_sent == 1 && gh_tagged && gh_passed, "then the other updates, and the end");
        SM_ASSERT(gh_status == (any0 ? IE_ST_NO : IE_ST_OK), "NO if a part was missing");
        if(any0) SM_COVER("no"); else SM_COVER("ok");
    }
}
SM_HARNESS(p_postsync){
    init();
    gh_dn.fetch.cmd = &gh_fcmd; gh_dn.fetch.tag = &gh_tag; gh_fcmd.uid_mode = gh_uidmode; gh_allow = gh_uidmode; gh_wantst = true; gh_dn.fetch.ready = false;
    bool ok = false;
    derr_t e = fetch_post_sync(&gh_dn, &gh_out, &ok);
    if(e.type){ SM_ASSERT(!gh_passed && !ok && !gh_dn.fetch.ready && e.type == E_NOMEM, "not done after an error"); SM_COVER("error"); return; }
    SM_ASSERT(gh_gather == 1 && gh_gp == &gh_dn.fetch.gather && !gh_gfree, "the updates are gathered, and kept");
    SM_ASSERT(gh_dn.fetch.ready == !gh_stfail && ok == gh_stfail, "messages are sent, unless they can not be marked seen");
    if(gh_stfail){ SM_ASSERT(gh_tagged && gh_passed && gh_sent == 1 && gh_status == gh_st.status && !gh_ownst, "then that is the outcome"); SM_COVER("failed"); }
    else { SM_ASSERT(!gh_sent && !gh_tagged, "later"); SM_COVER("ready"); }
}
static void ends(derr_t e, bool hasst){
    SM_ASSERT(gh_prep == 1 && (gh_gfree >= 1 || (e.type && gh_gather == 1 && !gh_sent)), "what was gathered is freed");
    SM_ASSERT(!gh_ownst, "the outcome is freed");
    if(e.type){ SM_ASSERT(!gh_passed && e.type == E_NOMEM, "nothing is sent after an error"); SM_COVER("error"); return; }
    SM_ASSERT(gh_gather == 1 && gh_sent == 1 && gh_tagged && gh_passed, "the updates, and then the end");
    if(hasst) SM_ASSERT(gh_status == (gh_stfail ? gh_st.status : IE_ST_OK), "OK exactly if it was carried out");
}
SM_HARNESS(p_store){
    init();
    gh_dn.store.tag = &gh_tag; gh_dn.store.uid_mode = gh_uidmode; gh_allow = gh_uidmode; gh_wantst = true; gh_fs = true;
    ends(store_finish(&gh_dn, &gh_out), true);
    if(gh_stfail) SM_COVER("failed"); else SM_COVER("ok");
}
SM_HARNESS(p_expunged){
    init();
    gh_dn.expunge.tag = &gh_tag; gh_uidmode = false; gh_allow = true; gh_wantst = true;
    ie_status_t st = gh_st.status;
    derr_t e = expunge_finish(&gh_dn, &gh_out);
    ends(e, false);
    if(!e.type) SM_ASSERT(gh_status == (gh_stfail ? st : IE_ST_OK), "OK exactly if it was carried out");
    if(gh_stfail) SM_COVER("failed"); else SM_COVER("ok");
}
SM_HARNESS(p_copied){
    init();
    gh_dn.copy.tag = &gh_tag; gh_dn.copy.uid_mode = gh_uidmode; gh_allow = true; gh_wantst = true;
    ie_status_t st = gh_st.status;
    derr_t e = copy_finish(&gh_dn, &gh_out);
    ends(e, false);
    if(!e.type) SM_ASSERT(gh_status == (gh_stfail ? st : IE_ST_OK), "OK exactly if it was carried out");
    if(gh_stfail) SM_COVER("failed"); else SM_COVER("ok");
}
SM_HARNESS(p_idle){
    init();
    gh_uidmode = false; gh_allow = true; gh_wantst = false;
    bool done = sm_bool();
    ie_dstr_t *tag = &gh_tag;
    gh_dn.idle.tag = done ? &gh_tag : NULL;
    derr_t e = done ? dn_idle_done(&gh_dn, NULL, &gh_out) : dn_idle(&gh_dn, &tag, &gh_out);
    ends(e, false);
    SM_ASSERT((gh_dn.idle.tag != NULL) == (!done && !e.type), "idle until DONE");
    if(!e.type){ if(done){ SM_ASSERT(gh_status == IE_ST_OK, "OK"); SM_COVER("done"); } else SM_COVER("idling"); }
}
static bool gh_ok_begin, gh_begin_ok; static ie_store_cmd_t gh_scmd; static unsigned gh_began, gh_finished;
derr_t c_store_begin(dn_t *dn, ie_dstr_t **tagp, const ie_store_cmd_t *s, link_t *out, bool *ok){ (void)tagp; SM_ASSERT(dn == &gh_dn && s == &gh_scmd && out == &gh_out, "the command"); gh_began++; FAIL(E_NOMEM); *ok = gh_begin_ok; return E_OK; }
derr_t c_store_finish(dn_t *dn, link_t *out){ SM_ASSERT(dn == &gh_dn && out == &gh_out, "the command"); gh_finished++; FAIL(E_NOMEM); return E_OK; }
static unsigned gh_sfree;
void c_dn_free_store(dn_t *dn){ (void)dn; gh_sfree++; }
SM_HARNESS(p_dnstore){
    init();
    bool started = gh_dn.store.started = sm_bool(), synced = gh_dn.store.synced = sm_bool(); gh_begin_ok = sm_bool(); gh_began = gh_finished = gh_sfree = 0;
    gh_stfail = false; // (used below: an error was made)
    ie_dstr_t *tag = &gh_tag; bool ok = true;
    derr_t e = dn_store(&gh_dn, &tag, &gh_scmd, &gh_out, &ok);
    SM_ASSERT(gh_began == !started && gh_finished == (started && synced), "begun once, and ended once it is synced");
    if(e.type){ SM_ASSERT(!ok, "an error"); SM_COVER("error"); return; }
    SM_ASSERT(ok == (!started ? gh_begin_ok : synced), "done when it is done");
    if(!started && !gh_begin_ok) SM_COVER("waits");
    if(started && synced){ SM_ASSERT(gh_sfree == 1, "freed"); SM_COVER("finished"); }
}
#elif P_UNIT == 9
/* ==== dn_imaildir_update */
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
static unsigned gh_app, gh_scheduled; static update_t gh_u;
const void *msg_view_jsw_get_uid_dn(const jsw_anode_t *node){ (void)node; SM_ASSERT(0, "no trees"); return NULL; }
static void s_schedule(dn_cb_i *cb){ SM_ASSERT(cb == gh_dn.cb && gh_app == 1, "the owner, once the update is there"); gh_scheduled++; }
void link_list_append(link_t *l, link_t *x){ SM_ASSERT(l == &gh_dn.pending_updates && x == &gh_u.link && !gh_app, "updates are kept in order"); gh_app++; }
SM_HARNESS(p_update){
    static dn_cb_i cb; static ie_dstr_t tag; cb.schedule = s_schedule; gh_dn.cb = &cb; gh_app = gh_scheduled = 0;
    gh_u.type = sm_bool() ? UPDATE_SYNC : sm_bool() ? UPDATE_NEW : sm_bool() ? UPDATE_META : UPDATE_EXPUNGE;
    gh_dn.idle.tag = sm_bool() ? &tag : NULL;
    unsigned cmd = sm_u8() % 6;
    gh_dn.store.started = cmd == 0; gh_dn.expunge.started = cmd == 1; gh_dn.copy.started = cmd == 2; gh_dn.disconnect.started = cmd == 3; gh_dn.fetch.started = cmd == 4;
    gh_dn.store.synced = gh_dn.expunge.synced = gh_dn.copy.synced = gh_dn.disconnect.synced = gh_dn.fetch.synced = false;
    dn_imaildir_update(&gh_dn, &gh_u);
    bool sync = gh_u.type == UPDATE_SYNC;
    SM_ASSERT(gh_app == 1, "the update is kept, once");
    SM_ASSERT(gh_dn.store.synced == (sync && cmd == 0) && gh_dn.expunge.synced == (sync && cmd == 1) && gh_dn.copy.synced == (sync && cmd == 2) && gh_dn.disconnect.synced == (sync && cmd == 3) && gh_dn.fetch.synced == (sync && cmd == 4), "the command waiting for its changes goes on, and only then");
    SM_ASSERT(gh_scheduled == (sync || gh_dn.idle.tag), "the owner is woken up if someone waits");
    if(sync) SM_COVER("sync"); else if(gh_scheduled) SM_COVER("idle");
}
#elif P_UNIT == 8
/* ==== build_fetch_resp_extra */
static ie_dstr_t gh_contentbuf, *gh_content; static bool gh_alive, gh_ownedbyf;      // the loader's content
static loader_t gh_ld; static ie_fetch_resp_t gh_f; static unsigned gh_ffreed; static bool gh_missing;
static ie_dstr_t gh_new[4]; static unsigned gh_news; static unsigned gh_newfreed;     // strings made here: what they hold
typedef struct { unsigned kind; dstr_off_t off; const ie_dstr_t *names; bool part; size_t start, end; bool alive; } src_t;
static src_t gh_src[4], gh_csrc;
enum { S_ALL = 1, S_OFF, S_FLDS, S_FLDSNOT };
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
static bool fail(derr_t *e){ if(e->type) return true; if(sm_bool()){ e->type = E_NOMEM; return true; } return false; }
static imf_hdrs_t gh_hdrs, gh_hdrs2; static imf_t gh_imf, gh_imf2; static bool gh_heap; static unsigned gh_heapfree, gh_got;
static ie_sect_t gh_sect; static ie_sect_txt_t gh_txt; static ie_sect_part_t gh_spart; static ie_partial_t gh_partial; static ie_dstr_t gh_names; static ie_fetch_extra_t gh_x;
static dstr_off_t gh_bytes, gh_mime; static const imf_t *gh_sub; static dstr_t gh_buf;
static ie_sect_t gh_sectcopy; static ie_nums_t gh_off; static bool gh_hasoff; static unsigned gh_offv; static ie_fetch_resp_extra_t gh_extra; static ie_dstr_t *gh_result; static unsigned gh_added;
static ie_dstr_t *mk(src_t s){
    SM_ASSERT(gh_news < 4, "few strings"); 
    gh_src[gh_news] = s; gh_src[gh_news].alive = true;
    return &gh_new[gh_news++];
}
static src_t *src(const ie_dstr_t *d){
    if(d == &gh_contentbuf){ SM_ASSERT(gh_alive, "content not freed"); return &gh_csrc; }
    size_t i = (size_t)(d - gh_new);
    SM_ASSERT(i < gh_news && gh_src[i].alive, "a string not freed");
    return &gh_src[i];
}
/* parsing needs the content */
static void ld(loader_t *l){ SM_ASSERT(l == &gh_ld, "the content of this message"); if(gh_ld.content) SM_ASSERT(gh_alive, "content not freed"); }
const imf_hdrs_t *c_loader_parse_hdrs(derr_t *e, loader_t *l){ ld(l); if(fail(e)) return NULL; gh_ld.content = &gh_contentbuf; return &gh_hdrs; }
const imf_t *c_loader_parse_imf(derr_t *e, loader_t *l){ ld(l); if(fail(e)) return NULL; gh_ld.content = &gh_contentbuf; return &gh_imf; }
ie_dstr_t *c_loader_take_content(derr_t *e, loader_t *l){
    ld(l);
    if(fail(e)) return NULL;
    gh_ld.content = &gh_contentbuf;
    if(gh_ld.taken) return mk((src_t){ .kind = S_ALL });
    gh_ld.taken = true;
    return &gh_contentbuf;
}
bool imf_get_submessage(derr_t *e, const imf_t *root, const ie_sect_part_t *part, dstr_off_t *bytes, dstr_off_t *mime, const imf_t **imf, imf_t **heap){
    *heap = NULL; *imf = NULL; *bytes = (dstr_off_t){0}; *mime = (dstr_off_t){0};
    if(fail(e)) return false;
    SM_ASSERT(root == &gh_imf && part == gh_sect.sect_part, "the part asked for");
    gh_got++;
    if(sm_bool()){ gh_missing = true; return true; }
    *bytes = gh_bytes; *mime = gh_mime; *imf = gh_sub;
    if(gh_heap) *heap = &gh_imf2;
    return false;
}
void imf_free(imf_t *imf){ if(!imf) return; SM_ASSERT(imf == &gh_imf2 && !gh_heapfree, "freed once"); gh_heapfree++; }
dstr_t dstr_from_off(const dstr_off_t off){ SM_ASSERT(off.buf == &gh_buf, "an offset"); return (dstr_t){ .len = off.start, .size = off.len }; }
ie_dstr_t *c_copy(derr_t *e, const imf_hdrs_t *h, const ie_dstr_t *names, unsigned kind){
    if(fail(e)) return NULL;
    SM_ASSERT(names == &gh_names && h == (gh_sect.sect_part ? gh_sub->hdrs : gh_got ? &gh_hdrs2 : &gh_hdrs), "the headers asked for");
    return mk((src_t){ .kind = kind, .off = h->bytes, .names = names });
}
ie_dstr_t *c_copy_hdr_fields(derr_t *e, const imf_hdrs_t *h, const ie_dstr_t *names){ return c_copy(e, h, names, S_FLDS); }
ie_dstr_t *c_copy_hdr_fields_not(derr_t *e, const imf_hdrs_t *h, const ie_dstr_t *names){ return c_copy(e, h, names, S_FLDSNOT); }
static bool gh_subd; static ie_dstr_t *gh_subof; static size_t gh_a, gh_b;
ie_dstr_t *ie_dstr_new(derr_t *e, const dstr_t *d, keep_type_t t){
    SM_ASSERT(t == KEEP_RAW, "as it is");
    if(fail(e)) return NULL;
    if(gh_subd){
        src_t s = *src(gh_subof);
        s.part = true; s.start = gh_a; s.end = gh_b;
        return mk(s);
    }
    return mk((src_t){ .kind = S_OFF, .off = { .buf = &gh_buf, .start = d->len, .len = d->size } });
}
ie_dstr_t *ie_dstr_new2(derr_t *e, const dstr_t d){ return ie_dstr_new(e, &d, KEEP_RAW); }
ie_dstr_t *ie_dstr_from_off(derr_t *e, const dstr_off_t off){ if(fail(e)) return NULL; SM_ASSERT(off.buf == &gh_buf, "an offset"); return mk((src_t){ .kind = S_OFF, .off = off }); }
dstr_t ie_dstr_sub(const ie_dstr_t *d, size_t a, size_t b){ if(d){ src(d); gh_subd = true; gh_subof = (ie_dstr_t*)d; gh_a = a; gh_b = b; } return (dstr_t){0}; }
void ie_dstr_free(ie_dstr_t *d){
    if(!d) return;
    src_t *s = src(d);
    if(d == &gh_contentbuf){
        // (the loader never looks at it again if the command has failed)
        SM_ASSERT(gh_ld.taken, "not the loader's");
        SM_ASSERT(0, "the content is not freed while the loader may need it");
    }else{ s->alive = false; gh_newfreed++; }
}
ie_nums_t *ie_nums_new(derr_t *e, unsigned n){ if(fail(e)) return NULL; gh_hasoff = true; gh_offv = n; return &gh_off; }
ie_sect_t *ie_sect_copy(derr_t *e, const ie_sect_t *s){ if(fail(e)) return NULL; if(!s) return NULL; SM_ASSERT(s == &gh_sect, "the section"); return &gh_sectcopy; }
static void drop(ie_dstr_t *d){ if(!d) return; if(d == &gh_contentbuf){ SM_ASSERT(gh_alive && gh_ld.taken, "owned by the response"); gh_alive = false; return; } ie_dstr_free(d); }
ie_fetch_resp_extra_t *ie_fetch_resp_extra_new(derr_t *e, ie_sect_t *s, ie_nums_t *off, ie_dstr_t *content){
    if(fail(e)){ drop(content); return NULL; }
    SM_ASSERT(s == (gh_x.sect ? &gh_sectcopy : NULL) && (off == &gh_off) == (gh_x.partial != NULL) && content, "section, offset, content");
    src(content);
    SM_ASSERT(content != &gh_contentbuf || gh_ld.taken, "owned by the response");
    gh_result = content;
    return &gh_extra;
}
static unsigned gh_dropped;
ie_fetch_resp_t *ie_fetch_resp_add_extra(derr_t *e, ie_fetch_resp_t *f, ie_fetch_resp_extra_t *x){
    if(fail(e)){ if(x) drop(gh_result); if(f) gh_ffreed++; return NULL; }
    SM_ASSERT(f == &gh_f && x == &gh_extra && !gh_added, "the part, once");
    gh_added++;
    return f;
}
void ie_fetch_resp_free(ie_fetch_resp_t *f){ if(!f) return; SM_ASSERT(f == &gh_f && !gh_ffreed, "freed once"); gh_ffreed++; }
static bool off_eq(dstr_off_t a, dstr_off_t b){ return a.buf == b.buf && a.start == b.start && a.len == b.len; }
static dstr_off_t any_off(void){ return (dstr_off_t){ .buf = &gh_buf, .start = sm_u64(), .len = sm_u64() }; }
SM_HARNESS(p_extra){
    gh_news = gh_newfreed = gh_ffreed = gh_heapfree = gh_got = gh_added = gh_dropped = 0; gh_missing = gh_hasoff = gh_subd = false; gh_result = NULL;
    gh_csrc = (src_t){ .kind = S_ALL, .alive = true };
    gh_hdrs.bytes = any_off(); gh_hdrs2.bytes = any_off(); gh_imf.hdrs = &gh_hdrs2; gh_imf2.hdrs = &gh_hdrs2; gh_imf2.body = any_off(); gh_imf.body = any_off();
    gh_bytes = any_off(); gh_mime = any_off(); gh_heap = sm_bool();
    bool haspart = sm_bool();
    gh_sect.sect_part = haspart ? &gh_spart : NULL;
    gh_sub = haspart ? (sm_bool() ? &gh_imf2 : NULL) : &gh_imf;    // no part: the message itself
    if(!haspart || !gh_sub) gh_heap = false;
    unsigned t = sm_u8() % 6;
    gh_sect.sect_txt = t < 5 ? &gh_txt : NULL; gh_txt.headers = &gh_names;
    gh_txt.type = t == 0 ? IE_SECT_MIME : t == 1 ? IE_SECT_TEXT : t == 2 ? IE_SECT_HEADER : t == 3 ? IE_SECT_HDR_FLDS : IE_SECT_HDR_FLDS_NOT;
    bool whole = sm_bool();
    gh_x.sect = whole ? NULL : &gh_sect;
    gh_partial.a = sm_u32(); gh_partial.b = sm_u32();
    bool partial = sm_bool();
    gh_x.partial = partial ? &gh_partial : NULL;
    // what came before: content loaded or not; given to another part or not
    gh_ld.content = sm_bool() ? &gh_contentbuf : NULL; gh_alive = true; gh_ld.taken = gh_ld.content && sm_bool();
    bool taken0 = gh_ld.taken;
    derr_t e = E_OK;
    bool failed = sm_bool(); if(failed) e.type = E_NOMEM;
    bool missing = false;
    bool missing0 = missing = sm_bool();
    ie_fetch_resp_t *f = build_fetch_resp_extra(&e, failed ? NULL : &gh_f, &gh_x, &gh_ld, &missing);
    if(gh_heap && gh_got && !gh_missing) SM_ASSERT(gh_heapfree == 1, "what was parsed is freed");
    if(e.type){
        SM_ASSERT(f == NULL && (failed || gh_ffreed == 1) && !gh_added, "the response is freed");
        SM_ASSERT(gh_newfreed == gh_news, "strings are freed");
        SM_COVER("error");
        return;
    }
    SM_ASSERT(f == &gh_f && !gh_ffreed, "the response goes on");
    SM_ASSERT(!gh_ld.content || gh_alive, "the content is there for other parts");
    bool noimf = haspart && !gh_sub && t >= 1 && t <= 4;
    if(!whole && (gh_missing || noimf)){
        SM_ASSERT(missing && !gh_added && gh_newfreed == gh_news && gh_ld.taken == taken0, "a section which does not exist is reported");
        SM_COVER("missing");
        return;
    }
    SM_ASSERT(gh_added == 1 && gh_result, "the part is added");
    SM_ASSERT(missing == missing0, "it is not missing, whatever was before");
    src_t s = *src(gh_result);
    SM_ASSERT(gh_newfreed + (gh_result != &gh_contentbuf) == gh_news, "other strings are freed");
    SM_ASSERT(gh_ld.taken == (taken0 || gh_result == &gh_contentbuf), "the content has at most one owner");
    SM_ASSERT(!(taken0 && gh_result == &gh_contentbuf), "the content has at most one owner");
    if(whole) SM_ASSERT(s.kind == S_ALL, "all of the message");
    else if(t == 5) SM_ASSERT(s.kind == S_OFF && off_eq(s.off, gh_bytes), "all of the part");
    else if(t == 0) SM_ASSERT(s.kind == S_OFF && off_eq(s.off, gh_mime), "the MIME headers of the part");
    else if(t == 1) SM_ASSERT(s.kind == S_OFF && off_eq(s.off, gh_sub->body), "the text of the part");
    else SM_ASSERT(s.kind == (t == 2 ? S_OFF : t == 3 ? S_FLDS : S_FLDSNOT) && off_eq(s.off, haspart ? gh_sub->hdrs->bytes : gh_got ? gh_hdrs2.bytes : gh_hdrs.bytes), "the headers of the part");
    SM_ASSERT(s.part == partial && (!partial || (s.start == gh_partial.a && s.end == (size_t)gh_partial.a + gh_partial.b)), "cut as asked for");
    SM_ASSERT(gh_hasoff == partial && (!partial || gh_offv == gh_partial.a), "with the offset, exactly if it was cut");
    if(whole && partial) SM_COVER("cut"); else if(t == 3) SM_COVER("fields"); else if(t == 1 && haspart) SM_COVER("text of a part");
}
#elif P_UNIT == 10
/* ==== copy_hdr_fields, copy_hdr_fields_not: names are compared by contract */
static void l_free(void *p){ (void)p; SM_ASSERT(0, "nothing to free"); }
static bool fail(derr_t *e){ if(e->type) return true; if(sm_bool()){ e->type = E_NOMEM; return true; } return false; }
static ie_dstr_t gh_outbuf, *gh_o; static derr_t gh_e; static imf_hdrs_t gh_hdrs; static dstr_t gh_buf;
static imf_hdr_t *gh_h, *gh_hcur; static size_t gh_hleft;
static ie_dstr_t *gh_n, *gh_ncur, *gh_nhead; static size_t gh_nleft, gh_nnames;
static bool gh_named, gh_put, gh_sep, gh_not;       // the header at hand has one of the names; was copied
static imf_hdr_t *new_hdr(void){
    imf_hdr_t *h = malloc(sizeof(*h)); SM_ASSUME(h != NULL);
    h->next = NULL; h->name = (dstr_off_t){ .buf = &gh_buf, .start = sm_u64(), .len = sm_u64() }; h->bytes = (dstr_off_t){ .buf = &gh_buf, .start = sm_u64(), .len = sm_u64() };
    return h;
}
static ie_dstr_t *new_name(void){ ie_dstr_t *n = malloc(sizeof(*n)); SM_ASSUME(n != NULL); n->next = NULL; n->dstr = (dstr_t){ .size = sm_u64() }; return n; }
#define NEW_HDRS gh_h = NULL; if(gh_hleft > 0) gh_h = new_hdr(); if(gh_hleft > 1) gh_h->next = new_hdr();
#define NEW_NAMES gh_n = NULL; if(gh_nleft > 0) gh_n = new_name(); if(gh_nleft > 1) gh_n->next = new_name();
static bool settled(void){ return !gh_hcur || (gh_put == (gh_named != gh_not) && (gh_named || gh_nleft == 0)); }
static const imf_hdr_t *sm_hv_hdr(void){
    SM_MOD(gh_hleft) SM_ASSUME(gh_hleft < SM_HUGE); NEW_HDRS SM_MODPTR(gh_h, gh_h) SM_MODPTR(gh_hcur, sm_bool() ? new_hdr() : NULL) SM_MODPTR(gh_o, sm_bool() ? &gh_outbuf : NULL)
    return gh_h;
}
static ie_dstr_t *gh_flds(void){ return gh_o; }
static void sm_hv_flds(derr_t *e){
    SM_MODB(gh_named) SM_MODB(gh_put) SM_MODB(gh_sep) SM_MOD(gh_nleft) SM_MODPTR(gh_n, NULL) SM_MODPTR(gh_ncur, NULL)
    if(!e->type && sm_bool()) e->type = E_NOMEM;
}
static bool gh_hdr(const imf_hdr_t *hdr, ie_dstr_t *out, derr_t *e){
    if(!gh_o && !e->type) return false;
    if(e->type && e->type != E_NOMEM) return false;
    return hdr != NULL && hdr == gh_h && gh_hleft >= 1 && gh_hleft < SM_HUGE && out == gh_o && !gh_sep && (e->type || settled());
}
static void gh_hdr_step(const imf_hdr_t *hdr){ gh_hcur = (imf_hdr_t*)hdr; gh_h = hdr->next; gh_hleft--; gh_named = gh_put = false; gh_n = gh_nhead; gh_nleft = gh_nnames; gh_ncur = NULL; }
static size_t gh_hdrs_left(void){ return gh_hleft; }
static const ie_dstr_t *sm_hv_name(void){ SM_MOD(gh_nleft) SM_ASSUME(gh_nleft < SM_HUGE); NEW_NAMES SM_MODPTR(gh_n, gh_n) SM_MODPTR(gh_ncur, NULL) SM_MODB(gh_named) SM_MODB(gh_put) SM_MODB(gh_sep)
    SM_MODPTR(gh_o, sm_bool() ? &gh_outbuf : NULL) if(!gh_e.type && sm_bool()) gh_e.type = E_NOMEM;
    return gh_n;
}
static bool gh_name(const ie_dstr_t *name){ return name != NULL && name == gh_n && gh_nleft >= 1 && gh_nleft < SM_HUGE && !gh_named && !gh_put && !gh_sep && gh_hcur && (gh_o || gh_e.type) && (!gh_e.type || gh_e.type == E_NOMEM); }
static void gh_name_step(const ie_dstr_t *name){ gh_ncur = (ie_dstr_t*)name; gh_n = name->next; gh_nleft--; }
static size_t gh_names_left(void){ return gh_nleft; }
dstr_t dstr_from_off(const dstr_off_t off){ SM_ASSERT(off.buf == &gh_buf, "an offset"); return (dstr_t){ .len = off.start, .size = off.len }; }
int dstr_icmp2(const dstr_t a, const dstr_t b){
    SM_ASSERT(gh_hcur && a.len == gh_hcur->name.start && a.size == gh_hcur->name.len && gh_ncur && b.size == gh_ncur->dstr.size, "the name of the header, and each name asked for");
    gh_ncur = NULL;
    if(sm_bool()){ gh_named = true; return 0; }
    return sm_bool() ? 1 : -1;
}
ie_dstr_t *ie_dstr_new_empty(derr_t *e){ if(fail(e)) return gh_o = NULL; return gh_o = &gh_outbuf; }
ie_dstr_t *ie_dstr_append(derr_t *e, ie_dstr_t *d, const dstr_t *x, keep_type_t t){
    if(fail(e)) return gh_o = NULL;
    SM_ASSERT(d == &gh_outbuf && t == KEEP_RAW && !gh_sep, "to the answer, as it is");
    if(gh_hleft == 0 && x->len == gh_hdrs.sep.start && x->size == gh_hdrs.sep.len && (gh_put || gh_named == gh_not || !gh_hcur)){
        SM_ASSERT(settled(), "a header is copied exactly if it is asked for");
        gh_sep = true;
    }else{
        SM_ASSERT(gh_hcur && x->len == gh_hcur->bytes.start && x->size == gh_hcur->bytes.len && !gh_put, "the header at hand, once");
        gh_put = true;
    }
    return d;
}
SM_HARNESS(p_fields){
    gh_not = sm_bool();
    gh_o = NULL; gh_hcur = NULL; gh_named = gh_put = gh_sep = false; gh_ncur = NULL;
    gh_nleft = gh_nnames = sm_len(0); gh_hleft = sm_len(0); SM_ASSUME(gh_nleft < SM_HUGE && gh_hleft < SM_HUGE);
    NEW_NAMES NEW_HDRS
    gh_nhead = gh_n;
    bool any = gh_hleft > 0;
    gh_hdrs.hdr = gh_h; gh_hdrs.sep = (dstr_off_t){ .buf = &gh_buf, .start = sm_u64(), .len = sm_u64() };
    gh_e = E_OK;
    ie_dstr_t *out = gh_not ? copy_hdr_fields_not(&gh_e, &gh_hdrs, gh_nhead) : copy_hdr_fields(&gh_e, &gh_hdrs, gh_nhead);
    if(gh_e.type){ SM_ASSERT(gh_e.type == E_NOMEM && !out, "out of memory"); SM_COVER("error"); return; }
    SM_ASSERT(out == &gh_outbuf && gh_hleft == 0 && gh_h == NULL, "every header was looked at");
    SM_ASSERT(settled() && gh_sep, "a header is copied exactly if it is asked for, and then the end of the headers");
    if(any && gh_put) { if(gh_not) SM_COVER("others"); else SM_COVER("asked for"); }
}
#endif
#endif
#ifdef SM_NATIVE
/* ==== searches: a whole session */
#include <sys/mman.h>
#include <unistd.h>
#include "libimaildir/libimaildir.h"
#include "libimaildir/dn.c"
REGISTER_ERROR_TYPE(E_IMAILDIR, "E_IMAILDIR", "imaildir failed on another thread");
static update_req_t *R_req; static unsigned R_n; static int R_fd = -1; static unsigned R_open;
derr_t imaildir_dn_request_update(imaildir_t *m, update_req_t *req){ (void)m; R_n++; R_req = req; return E_OK; }
derr_t imaildir_dn_open_msg(imaildir_t *m, const msg_key_t key, int *fd){ (void)m; (void)key; SM_ASSERT(R_fd >= 0, "no message need be read"); *fd = dup(R_fd); lseek(*fd, 0, SEEK_SET); R_open++; return E_OK; }
void imaildir_dn_close_msg(imaildir_t *m, const msg_key_t key, int *fd){ (void)m; (void)key; close(*fd); R_open--; }
bool imaildir_dn_select_failed(imaildir_t *m, ie_status_t *s){ (void)m; (void)s; return false; }
bool imaildir_dn_synced(imaildir_t *m, bool ex){ (void)m; (void)ex; return true; }
derr_t imaildir_dn_build_views(imaildir_t *m, dn_t *dn, jsw_atree_t *views, unsigned *max, unsigned *vld){ (void)m; (void)dn; (void)views; (void)max; (void)vld; return E_OK; }
static void nop_schedule(dn_cb_i *cb){ (void)cb; }
static unsigned bitsf(msg_flags_t f){ return f.answered | f.flagged << 1 | f.seen << 2 | f.draft << 3 | f.deleted << 4; }
static unsigned bitsff(const ie_fflags_t *f){ return f->answered | f->flagged << 1 | f->seen << 2 | f->draft << 3 | f->deleted << 4; }
static msg_flags_t unbits(unsigned f){ return (msg_flags_t){ .answered = f & 1, .flagged = f >> 1 & 1, .seen = f >> 2 & 1, .draft = f >> 3 & 1, .deleted = f >> 4 & 1 }; }
static msg_view_t *mkview(unsigned uid, unsigned flags, size_t len){
    msg_view_t *v = malloc(sizeof(*v));
    *v = (msg_view_t){ .key = { .uid_up = uid + 100 }, .uid_dn = uid, .length = len, .flags = unbits(flags) };
    return v;
}
#define NM 24
#define NP 200
static struct { unsigned uid, flags; bool alive, known, gone, inc; unsigned vflags, cflags; bool cknown; } M[NM]; static unsigned nM;   // the server, what dn was told, the client
static struct { update_type_e t; unsigned i, flags; } P[NP]; static unsigned nP;            // updates on their way
static unsigned C[NM], nC;                                                                     // the client's mailbox
static dn_t dn;
static void send_update(update_type_e t, unsigned i, unsigned flags){
    if(nP == NP) return;
    P[nP].t = t; P[nP].i = i; P[nP++].flags = flags;
    update_arg_u arg = {0}; update_t *u;
    if(t == UPDATE_NEW) arg.new = mkview(M[i].uid, flags, 0);
    if(t == UPDATE_META) arg.meta = mkview(M[i].uid, flags, 0);
    derr_t e = E_OK;
    if(t == UPDATE_EXPUNGE) e = msg_expunge_new(&arg.expunge, (msg_key_t){ .uid_up = M[i].uid + 100 }, M[i].uid, MSG_EXPUNGE_PUSHED, 1);
    if(!e.type) e = update_new(&u, NULL, t, arg);
    SM_ASSERT(!e.type, "setup");
    dn_imaildir_update(&dn, u);
}
static void happen(unsigned n){
    for(; n; n--){
        unsigned k = sm_u8() % 4, i = nM ? sm_u8() % nM : 0, f = sm_u8() & 31;
        if(k == 0 && nM < NM){ M[nM] = (__typeof__(M[0])){ .uid = (nM ? M[nM-1].uid : 0) + 1 + (sm_u8() & 1), .flags = f, .alive = true }; nM++; send_update(UPDATE_NEW, nM - 1, f); }
        if(k == 1 && nM && M[i].alive){ M[i].alive = false; send_update(UPDATE_EXPUNGE, i, 0); }
        if(k > 1 && nM && M[i].alive){ M[i].flags = f; send_update(UPDATE_META, i, f); }
    }
}
// updates which a command takes in
static void take(bool allow, bool sync){
    unsigned j = 0, k; bool done = false;
    for(k = 0; k < nP; k++){
        if(done || (P[k].t == UPDATE_EXPUNGE && !allow)){ P[j++] = P[k]; continue; }
        unsigned i = P[k].i;
        if(P[k].t == UPDATE_NEW){ M[i].known = true; M[i].vflags = P[k].flags; }
        else if(P[k].t == UPDATE_META) M[i].vflags = P[k].flags;
        else if(P[k].t == UPDATE_EXPUNGE) M[i].gone = true;
        else done = true;
    }
    nP = j;
    SM_ASSERT(done == sync, "setup");
}
static unsigned T_ok, T_no;
static void client(link_t *out, bool uidm, bool noexp){
    link_t *l;
    while((l = link_list_pop_first(out))){
        imap_resp_t *r = CONTAINER_OF(l, imap_resp_t, link);
        SM_ASSERT(!T_ok && !T_no, "nothing comes after the end");
        if(r->type == IMAP_RESP_EXPUNGE){
            unsigned n = r->arg.expunge;
            SM_ASSERT(!noexp, "no EXPUNGE where it is not allowed");
            SM_ASSERT(n >= 1 && n <= nC, "EXPUNGE for a message the client knows");
            M[C[n-1]].inc = false;
            memmove(&C[n-1], &C[n], (nC - n) * sizeof(C[0])); nC--;
        }else if(r->type == IMAP_RESP_EXISTS){
            unsigned n = (unsigned)r->arg.exists;
            SM_ASSERT(n >= nC, "EXISTS never shrinks the mailbox");
            for(unsigned i = 0; i < nM && nC < n; i++) if(M[i].known && !M[i].gone && !M[i].inc){ M[i].inc = true; M[i].cknown = false; C[nC++] = i; }
            SM_ASSERT(nC == n, "EXISTS with the size of the mailbox");
        }else if(r->type == IMAP_RESP_FETCH){
            ie_fetch_resp_t *f = r->arg.fetch;
            SM_ASSERT(f->seq_num >= 1 && f->seq_num <= nC, "FETCH for a message the client knows");
            unsigned i = C[f->seq_num - 1];
            SM_ASSERT((f->uid != 0) == uidm && (!f->uid || f->uid == M[i].uid), "the uid, in reply to a UID command");
            if(f->flags){ M[i].cknown = true; M[i].cflags = bitsff(f->flags); }
        }else{
            SM_ASSERT(r->type == IMAP_RESP_STATUS_TYPE, "a response");
            if(r->arg.status_type->tag){ if(r->arg.status_type->status == IE_ST_OK) T_ok++; else T_no++; }
        }
        imap_resp_free(r);
    }
}
static void agree(void){
    unsigned n = 0;
    for(unsigned i = 0; i < nM; i++){
        if(!M[i].known || M[i].gone) continue;
        SM_ASSERT(n < nC && C[n] == i, "the client's numbers are those of the server");
        n++;
        if(M[i].cknown) SM_ASSERT(M[i].cflags == M[i].vflags, "the client's flags are those of the server");
    }
    SM_ASSERT(n == nC, "the client's count is that of the server");
}
static ie_seq_set_t *some(bool uidm, bool *named){
    derr_t e = E_OK; ie_seq_set_t *s = NULL; unsigned n = 1 + sm_u8() % 2;
    for(unsigned j = 0; j < nC; j++) named[j] = false;
    for(; n; n--){
        unsigned a = sm_u8() % nC, b = sm_u8() % nC, t;
        if(a > b){ t = a; a = b; b = t; }
        for(unsigned j = a; j <= b; j++) named[j] = true;
        ie_seq_set_t *x = ie_seq_set_new(&e, uidm ? M[C[a]].uid : a + 1, uidm ? M[C[b]].uid : b + 1);
        s = s ? ie_seq_set_append(&e, s, x) : x;
    }
    return s;
}
SM_HARNESS(s_view){
    derr_t e = E_OK; extensions_t exts = {0}; static imaildir_t m; dn_cb_i cb = { .schedule = nop_schedule };
    e = dn_init(&dn, &m, &cb, &exts, false);
    nM = nP = nC = 0; R_n = 0; R_req = NULL; R_fd = -1;
    for(unsigned i = sm_u8() % 6; i; i--){
        unsigned f = sm_u8() & 31;
        M[nM] = (__typeof__(M[0])){ .uid = (nM ? M[nM-1].uid : 0) + 1 + (f & 1), .flags = f, .alive = true, .known = true, .inc = true, .vflags = f, .cflags = f, .cknown = true };
        jsw_ainsert(&dn.views, &mkview(M[nM].uid, f, 0)->node);
        C[nC++] = nM++;
    }
    for(unsigned cmd = 1 + sm_u8() % 5; cmd; cmd--){
        happen(sm_u8() % 5);
        unsigned what = sm_u8() % 4; bool uidm = sm_bool(), named[NM] = {0}, ok = false; link_t out = {0};
        ie_dstr_t *tag = ie_dstr_new2(&e, DSTR_LIT("t"));
        T_ok = T_no = 0;
        if(!nC) what = 0;
        if(what <= 1){
            bool allow = what == 0 || uidm;
            e = dn_gather_updates(&dn, allow, uidm, NULL, &out);
            SM_ASSERT(!e.type, "no error");
            take(allow, false); client(&out, uidm, !allow); agree();
        }else if(what == 2){
            ie_fetch_attrs_t *at = ie_fetch_attrs_add_simple(&e, ie_fetch_attrs_new(&e), IE_FETCH_ATTR_FLAGS);
            ie_fetch_cmd_t *c = ie_fetch_cmd_new(&e, uidm, some(uidm, named), at, NULL);
            SM_ASSERT(!e.type, "setup");
            bool taken = false; unsigned before = nC; 
            for(unsigned turn = 0; !ok; turn++){
                SM_ASSERT(turn < 200, "it ends");
                e = dn_fetch(&dn, &tag, &c, &out, &ok);
                SM_ASSERT(!e.type, "no error");
                if(!taken){ take(uidm, false); taken = true; }
                SM_ASSERT(before == nC, "nothing is removed before the end");
                client(&out, uidm, !uidm);
                if(!ok) happen(sm_u8() % 2);
            }
            SM_ASSERT(T_ok == 1 && !T_no, "the end");
            ie_fetch_cmd_free(c);
            agree();
        }else{
            unsigned f = sm_u8() & 31; int sign = (int)(sm_u8() % 3) - 1; bool silent = sm_bool();
            ie_flags_t fl = { .answered = f & 1, .flagged = f >> 1 & 1, .seen = f >> 2 & 1, .draft = f >> 3 & 1, .deleted = f >> 4 & 1 };
            ie_store_cmd_t c = { .uid_mode = uidm, .seq_set = some(uidm, named), .sign = sign, .silent = silent, .flags = &fl };
            R_n = 0;
            e = dn_store(&dn, &tag, &c, &out, &ok);
            SM_ASSERT(!e.type && !ok && R_n == 1, "a request");
            update_req_free(R_req);
            // the client assumes that it works
            if(silent) for(unsigned j = 0; j < nC; j++) if(named[j]){
                unsigned i = C[j]; 
                if(sign == 0){ M[i].cflags = f; M[i].cknown = true; } else if(sign > 0) M[i].cflags |= f; else M[i].cflags &= ~f;
            }
            happen(sm_u8() % 3);
            for(unsigned j = 0; j < nC; j++) if(named[j]){
                unsigned i = C[j];
                M[i].flags = sign == 0 ? f : sign > 0 ? M[i].flags | f : M[i].flags & ~f;
                if(sm_u8() % 8 == 0) M[i].flags ^= 1u << sm_u8() % 5;
                send_update(UPDATE_META, i, M[i].flags);
            }
            if(nP < NP){ P[nP++].t = UPDATE_SYNC; update_t *u; update_arg_u arg = {0}; e = update_new(&u, NULL, UPDATE_SYNC, arg); dn_imaildir_update(&dn, u); }
            happen(sm_u8() % 3);
            e = dn_store(&dn, &tag, &c, &out, &ok);
            SM_ASSERT(!e.type && ok, "the end");
            take(uidm, true); client(&out, uidm, !uidm); 
            SM_ASSERT(T_ok == 1 && !T_no, "the end");
            ie_seq_set_free(c.seq_set);
            agree();
        }
        ie_dstr_free(tag);
    }
    dn_free(&dn);
}
/* ---- parts of a message */
static char T_buf[20000]; static size_t T_len;
static void put(const char *s){ size_t n = strlen(s); if(T_len + n <= sizeof(T_buf)){ memcpy(T_buf + T_len, s, n); T_len += n; } }
static ie_fetch_extra_t *part(void){
    derr_t e = E_OK; ie_sect_t *sect = NULL; ie_sect_part_t *sp = NULL; ie_sect_txt_t *st = NULL; ie_partial_t *pt = NULL;
    unsigned k = sm_u8();
    if(k & 3){
        for(unsigned n = sm_u8() % 4; n; n--){ ie_sect_part_t *x = ie_sect_part_new(&e, 1 + (sm_u8() % 5) / 2); sp = sp ? ie_sect_part_add(&e, sp, x) : x; }
        unsigned t = sm_u8() % 6;
        if(t == 5 && !sp) t = 2;
        if(t == 0 && !sp) t = 1;
        ie_dstr_t *h = NULL;
        if(t == 3 || t == 4){
            static const char *names[] = { "subject", "FROM", "X", "zzz", "content-type" };
            for(unsigned n = 1 + sm_u8() % 2; n; n--){ dstr_t d; DSTR_WRAP(d, (char*)names[sm_u8() % 5], 0, true); d.len = strlen(d.data); ie_dstr_t *x = ie_dstr_new2(&e, d); h = h ? ie_dstr_add(&e, h, x) : x; }
        }
        if(t < 5) st = ie_sect_txt_new(&e, t == 0 ? IE_SECT_MIME : t == 1 ? IE_SECT_TEXT : t == 2 ? IE_SECT_HEADER : t == 3 ? IE_SECT_HDR_FLDS : IE_SECT_HDR_FLDS_NOT, h);
        sect = ie_sect_new(&e, sp, st);
    }
    if(k & 4){ unsigned b = sm_u8(); pt = ie_partial_new(&e, sm_u8() % 40 * (k & 8 ? 1 : 150), 1 + b % 40 * (b > 128 ? 1 : 200)); }
    ie_fetch_extra_t *x = ie_fetch_extra_new(&e, true, sect, pt);
    SM_ASSERT(!e.type, "setup");
    return x;
}
static ie_fetch_resp_t *fetch(const ie_fetch_attrs_t *at, bool *missing){
    ie_fetch_cmd_t c = { .attr = (ie_fetch_attrs_t*)at }; link_t out = {0};
    derr_t e = send_fetch_resp(&dn, &c, 1, false, missing, &out);
    SM_ASSERT(R_open == 0, "files are closed");
    if(e.type){ DROP_VAR(&e); SM_ASSERT(link_list_isempty(&out), "no answer after an error"); return NULL; }
    imap_resp_t *r = CONTAINER_OF(link_list_pop_first(&out), imap_resp_t, link);
    SM_ASSERT(r->type == IMAP_RESP_FETCH && link_list_isempty(&out), "one answer");
    ie_fetch_resp_t *f = r->arg.fetch; r->arg.fetch = NULL; r->type = IMAP_RESP_EXISTS; imap_resp_free(r);
    return f;
}
static bool is(const ie_dstr_t *d, const char *p, size_t n){ return d && d->dstr.len == n && (!n || !memcmp(d->dstr.data, p, n)); }
static ie_dstr_t *alone(ie_fetch_extra_t *x, bool *missing){
    // the answer to one part by itself
    ie_fetch_extra_t y = *x; y.next = NULL;
    ie_fetch_attrs_t at = { .extras = &y };
    ie_fetch_resp_t *f = fetch(&at, missing);
    if(!f){ *missing = false; return NULL; }
    SM_ASSERT((f->extras != NULL) == !*missing && (!f->extras || !f->extras->next), "an answer, or it is missing");
    ie_dstr_t *d = NULL;
    if(f->extras){ SM_ASSERT((f->extras->offset != NULL) == (x->partial != NULL) && (!x->partial || f->extras->offset->num == x->partial->a), "the offset, if it was cut"); d = STEAL(ie_dstr_t, &f->extras->content); }
    ie_fetch_resp_free(f);
    return d;
}
SM_HARNESS(s_parts){
    static const char *frag[] = { "From: a@b\r\n", "Subject: hi\r\n", "X: 1\r\n", "x: 2\r\n y\r\n", "Content-Type: multipart/mixed; boundary=B\r\n", "Content-Type: message/rfc822\r\n", "Content-Type: multipart/digest; boundary=\"C\"\r\n",
        "\r\n", "--B\r\n", "--B--\r\n", "--C\r\n", "--C--\r\n", "text\r\n", "\n", "Content-Type: text/html\r\n", "more text", "\r\n\r\n", "--B" };
    derr_t e = E_OK; extensions_t exts = {0}; static imaildir_t m; static dn_cb_i cb; cb.schedule = nop_schedule;
    e = dn_init(&dn, &m, &cb, &exts, false);
    T_len = 0;
    for(unsigned n = sm_u8() % 24; n; n--){
        unsigned k = sm_u8();
        if(k < 216) put(frag[k % 18]);
        else if(k < 222){ char big[4100]; memset(big, 'a', sizeof(big) - 1); big[sizeof(big)-1] = 0; for(unsigned i = 60; i + 2 < sizeof(big); i += 62){ big[i] = '\r'; big[i+1] = '\n'; } put(big + sm_u8() % 64); }
        else { char c[2] = { (char)sm_u8(), 0 }; put(c); }
    }
    if(R_fd >= 0) close(R_fd);
    R_fd = memfd_create("m", 0); SM_ASSERT(R_fd >= 0 && write(R_fd, T_buf, T_len) == (ssize_t)T_len, "setup");
    jsw_ainsert(&dn.views, &mkview(1, 0, T_len)->node);
    // parts together, each compared with itself alone
    ie_fetch_attrs_t at = { .rfc822 = sm_u8() % 3 == 0, .rfc822_header = sm_u8() % 3 == 0, .rfc822_text = sm_u8() % 3 == 0, .envelope = sm_u8() % 8 == 0, .bodystruct = sm_u8() % 8 == 0, .rfc822_size = sm_bool() };
    unsigned n = sm_u8() % 4; ie_fetch_extra_t *xs[4];
    for(unsigned i = 0; i < n; i++) xs[i] = part();
    for(unsigned i = 0; i + 1 < n; i++) xs[i]->next = xs[i+1];
    at.extras = n ? xs[0] : NULL;
    bool missing, anymissing = false;
    ie_fetch_resp_t *f = fetch(&at, &missing);
    if(f){
        ie_fetch_resp_extra_t *r = f->extras;
        for(unsigned i = 0; i < n; i++){
            bool miss; ie_dstr_t *d = alone(xs[i], &miss);
            if(miss){ anymissing = true; continue; }
            SM_ASSERT(r && d, "an answer to each part");
            SM_ASSERT(is(d, r->content->dstr.data, r->content->dstr.len), "the same answer as alone");
            if(xs[i]->partial){
                ie_partial_t *p = STEAL(ie_partial_t, &xs[i]->partial);
                ie_dstr_t *w = alone(xs[i], &miss);
                SM_ASSERT(w && !miss, "the uncut part");
                size_t a = p->a < w->dstr.len ? p->a : w->dstr.len, b = (size_t)p->a + p->b < w->dstr.len ? (size_t)p->a + p->b : w->dstr.len;
                SM_ASSERT(is(d, w->dstr.data + a, b - a), "cut as asked for");
                ie_partial_free(p); ie_dstr_free(w);
            }else if(!xs[i]->sect) SM_ASSERT(is(d, T_buf, T_len), "all of the message");
            ie_dstr_free(d);
            r = r->next;
        }
        SM_ASSERT(!r && missing == anymissing, "a missing part is reported");
        if(at.rfc822) SM_ASSERT(is(f->rfc822, T_buf, T_len), "all of the message");
        if(at.rfc822_size) SM_ASSERT(f->rfc822_size->num == T_len, "its size");
        ie_sect_txt_t th = { .type = IE_SECT_HEADER }, tt = { .type = IE_SECT_TEXT }; ie_sect_t sh = { .sect_txt = &th }, st = { .sect_txt = &tt }; ie_fetch_extra_t xh = { .sect = &sh }, xt = { .sect = &st };
        bool mh, mt; ie_dstr_t *h = alone(&xh, &mh), *t = alone(&xt, &mt);
        SM_ASSERT(h && t && !mh && !mt, "header and text");
        SM_ASSERT(h->dstr.len + t->dstr.len == T_len && is(h, T_buf, h->dstr.len) && is(t, T_buf + h->dstr.len, t->dstr.len), "header and text are the message");
        if(at.rfc822_header) SM_ASSERT(is(f->rfc822_hdr, h->dstr.data, h->dstr.len), "the header");
        if(at.rfc822_text) SM_ASSERT(is(f->rfc822_text, t->dstr.data, t->dstr.len), "the text");
        ie_dstr_free(h); ie_dstr_free(t);
        ie_fetch_resp_free(f);
    }
    for(unsigned i = 0; i < n; i++){ xs[i]->next = NULL; ie_fetch_extra_free(xs[i]); }
    dn_free(&dn);
}
#endif
