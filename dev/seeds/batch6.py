PRE=r"""
#include <stdio.h>
#include "libimaildir/libimaildir.h"
static update_req_t *R; static unsigned N;
REGISTER_ERROR_TYPE(E_IMAILDIR, "E_IMAILDIR", "x");
derr_t imaildir_dn_request_update(imaildir_t *m, update_req_t *req){ N++; R = req; return E_OK; }
derr_t imaildir_dn_open_msg(imaildir_t *m, const msg_key_t key, int *fd){ return E_OK; }
void imaildir_dn_close_msg(imaildir_t *m, const msg_key_t key, int *fd){ }
bool imaildir_dn_select_failed(imaildir_t *m, ie_status_t *s){ return false; }
bool imaildir_dn_synced(imaildir_t *m, bool ex){ return true; }
derr_t imaildir_dn_build_views(imaildir_t *m, dn_t *dn, jsw_atree_t *views, unsigned *max, unsigned *vld){ return E_OK; }
static imaildir_t mdir; static extensions_t exts; static dn_t dn; static msg_view_t V[8]; static unsigned nV;
static ie_dstr_t *tag; static link_t out; static bool ok; static derr_t e;
static void init(bool examine){ dn_init(&dn, &mdir, NULL, &exts, examine); tag = ie_dstr_new2(&e, DSTR_LIT("t")); }
static void add(unsigned uid, msg_flags_t f){
    V[nV] = (msg_view_t){ .uid_dn = uid, .key = { .uid_up = 100 + uid }, .flags = f };
    jsw_ainsert(&dn.views, &V[nV++].node);
}
static unsigned keys(const msg_key_list_t *k){ unsigned n = 0; for(; k; k = k->next) n++; return n; }
"""
CC=["_build/libimaildir/libimaildir.a","_build/libimap/libimap.a","_build/libdstr/libdstr.a"]
SEEDS=[
dict(id="i06-reversed", prop="I06", needs="a range of sequence numbers written high to low whose first number does not exist",
 breaks="COPY 9:2 in a mailbox of three messages copies two of them instead of failing with BAD",
 edits=[("libimaildir/dn.c","            if(MAX(p->n1, p->n2) > dn->views.size){","            if((p->n2 ? p->n2 : p->n1) > dn->views.size){")],
 demo=PRE+r"""
int main(void){
    init(false); add(3, (msg_flags_t){0}); add(5, (msg_flags_t){0}); add(6, (msg_flags_t){0});
    ie_copy_cmd_t c = { .seq_set = ie_seq_set_new(&e, 9, 2), .m = ie_mailbox_new_inbox(&e) };
    if(dn_copy(&dn, &tag, &c, &out, &ok).type) return 2;
    return N != 0 || !ok;
}
""", cc=CC),
dict(id="i06-nested", prop="I06", needs="ranges given high to low",
 breaks="a set built from the range 7:3 does not contain 4",
 edits=[("libimaildir/util.c",".n1 = MIN(n1, n2), .n2 = MAX(n1, n2) };",".n1 = n1, .n2 = MAX(n1, n2) };")],
 demo=PRE+r"""
int main(void){
    seq_set_builder_t b; seq_set_builder_prep(&b);
    if(seq_set_builder_add_range(&b, 7, 3).type) return 2;
    ie_seq_set_t *s = seq_set_builder_extract(&e, &b);
    bool has = false;
    for(; s; s = s->next) has |= s->n1 <= 4 && 4 <= s->n2;
    return !has;
}
""", cc=CC),
dict(id="i06-star", prop="I06", needs="a SEARCH for UID 4:* in a mailbox whose last UID is larger than the number of messages",
 breaks="'*' stands for the number of messages, so the last messages are not found",
 edits=[("libimaildir/dn.c","    unsigned int uid_dn_max = view->uid_dn;","    unsigned int uid_dn_max = MIN(view->uid_dn, seq_max + 1);")],
 demo=PRE+r"""
int main(void){
    init(false); add(3, (msg_flags_t){0}); add(7, (msg_flags_t){0}); add(9, (msg_flags_t){0});
    ie_search_cmd_t c = { .search_key = ie_search_seq_set(&e, IE_SEARCH_UID, ie_seq_set_new(&e, 8, 0)) };
    if(dn_search(&dn, &tag, &c, &out).type) return 2;
    link_t *l = link_list_pop_first(&out);
    imap_resp_t *r = CONTAINER_OF(l, imap_resp_t, link);
    ie_nums_t *n = r->arg.search->nums;
    return !(n && n->num == 3 && !n->next);
}
""", cc=CC),
dict(id="i06-peek", prop="I06", needs="a FETCH of two parts, the first with PEEK and the second without",
 breaks="the message which was read is not marked as seen",
 edits=[("libimaildir/dn.c","        if(!p->peek) return false;\n","        return p->peek;\n")],
 demo=PRE+r"""
int main(void){
    init(false); add(3, (msg_flags_t){0});
    ie_fetch_extra_t *x2 = calloc(1, sizeof(*x2)), *x1 = calloc(1, sizeof(*x1)); x1->peek = true; x1->next = x2;
    ie_fetch_attrs_t *a = calloc(1, sizeof(*a)); a->extras = x1;
    ie_fetch_cmd_t *c = calloc(1, sizeof(*c)); c->attr = a; c->seq_set = ie_seq_set_new(&e, 1, 1);
    dn_fetch(&dn, &tag, &c, &out, &ok);
    return N != 1;
}
""", cc=CC),
dict(id="i07-silent", prop="I07", needs="STORE .SILENT in a mailbox opened with EXAMINE",
 breaks="flags of a mailbox opened read-only are changed",
 edits=[("libimaildir/dn.c","""    if(dn->examine){
        PROP(&e, send_no(dn, tagp, DSTR_LIT("mailbox is read-only"), out) );
        *ok = true;
        return e;
    }

    ie_seq_set_t *uids_dn = NULL;""","""    if(dn->examine && !store->silent){
        PROP(&e, send_no(dn, tagp, DSTR_LIT("mailbox is read-only"), out) );
        *ok = true;
        return e;
    }

    ie_seq_set_t *uids_dn = NULL;""")],
 demo=PRE+r"""
int main(void){
    init(true); add(3, (msg_flags_t){0});
    ie_flags_t f = { .seen = true };
    ie_store_cmd_t c = { .seq_set = ie_seq_set_new(&e, 1, 1), .sign = 1, .silent = true, .flags = &f };
    if(dn_store(&dn, &tag, &c, &out, &ok).type) return 2;
    return N != 0;
}
""", cc=CC),
]
