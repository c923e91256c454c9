/* IMAP SEARCH and message sets: libimaildir/search.c and the set iterator of
   libimap/expression.c.

   A linked list is specified lazily: at any arrival at a loop head the current
   node is an arbitrary node, whose `next` is NULL exactly if none is left. */
#include "sm.h"
#ifdef SM_CBMC
SM_DEFINE_ERRORS
#endif
#ifdef SM_PROOF
#include "libimaildir/libimaildir.h"
static ie_seq_set_t *gh_node;      // the node the loop must be at next
static imf_hdr_t *gh_hdr;
static size_t gh_left;             // nodes left, the current one included
static bool gh_any;                // some node passed so far matches
static const ie_seq_set_t *sm_hv_seqset(void);
static void gh_seqset_step(unsigned val, unsigned max);
static const imf_hdr_t *sm_hv_hdr(void);
static void gh_hdr_step(void);
static void sm_hv_trav(ie_seq_set_trav_t *trav);
static bool gh_trav(ie_seq_set_trav_t *trav);
static void gh_trav_step(ie_seq_set_trav_t *trav);
#include "libimaildir/search.c"
#include "libimap/expression.c"

static derr_t any_error(void){ return (derr_t){ .type = sm_bool() ? E_NOMEM : E_PARAM }; }
void dstr_free(dstr_t *d){ *d = (dstr_t){0}; }

/* ---- sets.  "0" stands for "*", the largest number in use; a range may be
   written in either order */
static ie_seq_set_t *new_node(void){
    ie_seq_set_t *n = malloc(sizeof(*n));
    SM_ASSUME(n != NULL);
    n->n1 = sm_u32(); n->n2 = sm_u32(); n->next = NULL;
    return n;
}
// an arbitrary suffix of a list
#define NEW_SET { \
    SM_MOD(gh_left) SM_MOD(gh_node) \
    gh_node = NULL; \
    if(gh_left > 0) gh_node = new_node(); \
    if(gh_left > 1) gh_node->next = new_node(); \
}
static ie_seq_set_t *new_set(void){ NEW_SET return gh_node; }
static const ie_seq_set_t *sm_hv_seqset(void){
    SM_MODB(gh_any)
    NEW_SET
    return gh_node;
}
static bool in_range(unsigned val, unsigned n1, unsigned n2, unsigned max){
    if(!n1) n1 = max;
    if(!n2) n2 = max;
    return (n1 <= val && val <= n2) || (n2 <= val && val <= n1);
}
static void gh_seqset_step(unsigned val, unsigned max){
    if(in_range(val, gh_node->n1, gh_node->n2, max)) gh_any = true;
    gh_node = gh_node->next;
    gh_left--;
}
SM_HARNESS(p_in_seq_set){
    unsigned val = sm_u32(), max = sm_u32();
    ie_seq_set_t *s = new_set();
    gh_any = false;
    bool r = in_seq_set(val, s, max);
    SM_ASSERT(r == gh_any, "a number is in the set exactly if one of the elements contains it");
    SM_ASSERT(r || gh_left == 0, "it is not in the set only after a look at every element");
    if(r) SM_COVER("in the set");
    if(!r) SM_COVER("not in the set");
    if(!s) SM_COVER("empty set");
}

/* ---- the iterator over min..max (0: unlimited, for sets without "*") */
static unsigned gh_min, gh_max;
static bool gh_hit;                     // the last element passed has numbers to give
static const ie_seq_set_t *gh_last;     // that element
static unsigned gh_lo, gh_hi;           // and these are the numbers
static void sm_hv_trav(ie_seq_set_trav_t *trav){
    NEW_SET
    trav->ptr = gh_node;
    trav->i = sm_u32(); trav->imax = sm_u32();
    SM_MODB(gh_hit) SM_MOD(gh_last) SM_MOD(gh_lo) SM_MOD(gh_hi)
}
static bool gh_trav(ie_seq_set_trav_t *trav){
    return trav->ptr != NULL && trav->ptr == gh_node && trav->min == gh_min && trav->max == gh_max && !gh_hit;
}
static void gh_trav_step(ie_seq_set_trav_t *trav){
    unsigned n1 = gh_node->n1, n2 = gh_node->n2;
    // "*" needs a maximum to stand for
    if(!gh_max) SM_ASSUME(n1 && n2);
    if(!n1) n1 = gh_max;
    if(!n2) n2 = gh_max;
    gh_lo = n1 < n2 ? n1 : n2; gh_hi = n1 < n2 ? n2 : n1;
    if(gh_lo < gh_min) gh_lo = gh_min;
    if(gh_max && gh_hi > gh_max) gh_hi = gh_max;
    gh_hit = gh_lo <= gh_hi;
    gh_last = gh_node;
    gh_node = gh_node->next;
    gh_left--;
}
static void bounds(void){
    gh_min = sm_u32(); gh_max = sm_u32();
    SM_ASSUME(!gh_max || gh_min <= gh_max);
    gh_hit = false; gh_last = NULL;
}
static void check_iter(unsigned r, ie_seq_set_trav_t *t){
    SM_ASSERT((r != 0) == gh_hit, "elements with nothing in bounds are skipped, others are not");
    SM_ASSERT(t->min == gh_min && t->max == gh_max, "the bounds stay");
    if(gh_hit){
        SM_ASSERT(r == gh_lo && t->i == r, "an element starts at its least number in bounds");
        SM_ASSERT(t->imax == gh_hi, "an element ends at its greatest number in bounds");
        SM_ASSERT(t->ptr == gh_last, "the iterator stays at the element");
    }else{
        SM_ASSERT(gh_left == 0 && t->ptr == NULL, "iteration ends only after the last element");
    }
}
SM_HARNESS(p_iter){
    bounds();
    ie_seq_set_trav_t t;
    ie_seq_set_t *s = new_set();
    unsigned r = ie_seq_set_iter(&t, s, gh_min, gh_max);
    check_iter(r, &t);
    if(r) SM_COVER("found");
    if(!r && s) SM_COVER("none");
}
// within an element, and on to the next
SM_HARNESS(p_next){
    bounds();
    ie_seq_set_t *cur = new_node();
    cur->next = new_set();
    ie_seq_set_trav_t t = { .ptr = cur, .min = gh_min, .max = gh_max, .i = sm_u32(), .imax = sm_u32() };
    SM_ASSUME(t.i >= 1 && t.i >= gh_min && t.i <= t.imax && (!gh_max || t.imax <= gh_max));
    unsigned i = t.i, imax = t.imax;
    unsigned r = ie_seq_set_next(&t);
    if(i < imax){
        SM_ASSERT(r == i + 1 && t.i == r && t.imax == imax && t.ptr == cur && t.min == gh_min && t.max == gh_max, "an element is walked one by one");
        SM_COVER("within");
    }else{
        check_iter(r, &t);
        if(r) SM_COVER("next element");
        if(!r) SM_COVER("end");
    }
    unsigned r2 = ie_seq_set_next(&(ie_seq_set_trav_t){ .ptr = NULL });
    SM_ASSERT(r2 == 0, "an ended iteration stays ended");
}

/* ---- the message as search sees it */
static search_args_t gh_args;
static msg_view_t gh_view;
static dstr_t gh_msg;                   // the whole message
static imf_hdrs_t gh_hdrs; static imf_t gh_imf;
static bool gh_hdrs_bad, gh_imf_bad;    // message does not parse
static int gh_hdrs_data, gh_imf_data;
static derr_t c_get_hdrs(void *data, const imf_hdrs_t **out){
    SM_ASSERT(data == &gh_hdrs_data, "the closure's data is passed on");
    if(gh_hdrs_bad) return any_error();
    *out = &gh_hdrs;
    return E_OK;
}
static derr_t c_get_imf(void *data, const imf_t **out){
    SM_ASSERT(data == &gh_imf_data, "the closure's data is passed on");
    if(gh_imf_bad) return any_error();
    *out = &gh_imf;
    return E_OK;
}
static dstr_off_t any_off(void){
    size_t s = sm_u64(), l = sm_u64();
    SM_ASSUME(s <= gh_msg.len && l <= gh_msg.len - s);
    return (dstr_off_t){ &gh_msg, s, l };
}
static void message(void){
    gh_msg = sm_dstr_in(sm_len(0));
    size_t h = sm_u64(), b = sm_u64();
    SM_ASSUME(h <= gh_msg.len && b <= gh_msg.len - h);
    gh_hdrs.bytes = (dstr_off_t){ &gh_msg, 0, h };
    gh_imf.bytes = (dstr_off_t){ &gh_msg, 0, h + b };
    gh_imf.body = (dstr_off_t){ &gh_msg, h, b };
    gh_imf.hdrs = &gh_hdrs;
    gh_hdrs_bad = sm_bool(); gh_imf_bad = sm_bool();
    SM_ASSUME(!gh_hdrs_bad || gh_imf_bad);
    gh_args = (search_args_t){ &gh_view, sm_u32(), sm_u32(), sm_u32(), c_get_hdrs, &gh_hdrs_data, c_get_imf, &gh_imf_data };
}
dstr_t c_dstr_sub2(const dstr_t d, size_t start, size_t end){
    size_t e = end < d.len ? end : d.len, s = start < e ? start : e;
    return (dstr_t){ d.data ? d.data + s : NULL, e - s, e - s, true };
}

/* ---- headers */
static imf_hdr_t gh_h;                  // the header being looked at
static bool gh_name_eq, gh_value_has;   // its name is the wanted one; its value contains the wanted text
static bool gh_first;                   // find_header: the first one counts
static const dstr_t *gh_name; static dstr_t gh_value;
static dstr_t gh_got;
static imf_hdr_t *new_hdr(void){
    imf_hdr_t *h = malloc(sizeof(*h));
    SM_ASSUME(h != NULL);
    h->name = any_off(); h->value = any_off(); h->bytes = any_off(); h->next = NULL;
    return h;
}
#define NEW_HDRS { \
    SM_MOD(gh_left) SM_MOD(gh_hdr) \
    gh_hdr = NULL; \
    if(gh_left > 0) gh_hdr = new_hdr(); \
    if(gh_left > 1) gh_hdr->next = new_hdr(); \
}
static imf_hdr_t *new_hdrs(void){ NEW_HDRS return gh_hdr; }
static const imf_hdr_t *sm_hv_hdr(void){
    SM_MODB(gh_any) SM_MODB(gh_name_eq) SM_MODB(gh_value_has) SM_MOD(gh_h) SM_MOD(gh_got)
    NEW_HDRS
    return gh_hdr;
}
static void gh_hdr_step(void){
    gh_h = *gh_hdr;
    gh_name_eq = sm_bool(); gh_value_has = sm_bool();
    if(gh_name_eq && (gh_first || gh_value_has)){
        gh_any = true;
        gh_got = (dstr_t){ .data = gh_msg.data + gh_h.value.start, .len = gh_h.value.len };
    }
    gh_hdr = gh_hdr->next;
    gh_left--;
}
static bool same(dstr_t a, const char *p, size_t len){ return a.len == len && (a.data == p || len == 0); }
static bool is_name(dstr_t a){ return same(a, gh_msg.data + gh_h.name.start, gh_h.name.len); }
static bool is_value(dstr_t a){ return same(a, gh_msg.data + gh_h.value.start, gh_h.value.len); }
static bool is_want(dstr_t b){ return same(b, gh_name->data, gh_name->len); }
int c_dstr_icmp2(const dstr_t a, const dstr_t b){
    SM_ASSERT((is_name(a) && is_want(b)) || (is_name(b) && is_want(a)), "the header's name is compared with the wanted name");
    int r = (int)sm_u32();
    SM_ASSUME((r == 0) == gh_name_eq);
    return r;
}
size_t c_dstr_icount2(const dstr_t text, const dstr_t pattern){
    SM_ASSERT(is_value(text), "the header's value is searched");
    SM_ASSERT(same(pattern, gh_value.data, gh_value.len), "for the wanted text");
    size_t r = sm_u64();
    SM_ASSUME((r > 0) == gh_value_has);
    return r;
}
static void headers(void){
    message();
    gh_hdrs.hdr = new_hdrs();
    gh_any = false; gh_got = (dstr_t){0};
    static dstr_t name; name = sm_dstr_in(sm_len(0)); gh_name = &name;
    gh_value = sm_dstr_in(sm_len(0));
}
SM_HARNESS(p_search_headers){
    headers();
    gh_first = false;
    bool out = sm_bool();
    derr_t e = search_headers(&gh_args, *gh_name, gh_value, &out);
    SM_ASSERT(e.type == E_NONE, "a message that does not parse is no error");
    if(gh_hdrs_bad){
        SM_ASSERT(!out, "a message that does not parse does not match");
        SM_COVER("bad message");
        return;
    }
    SM_ASSERT(out == gh_any, "matches exactly if a header of that name contains the text");
    SM_ASSERT(out || gh_left == 0, "no match only after a look at every header");
    if(out) SM_COVER("match");
    if(!out) SM_COVER("no match");
}
SM_HARNESS(p_find_header){
    headers();
    gh_first = true;
    dstr_t out = gh_value;
    derr_t e = find_header(&gh_args, *gh_name, &out);
    SM_ASSERT(e.type == E_NONE, "a message that does not parse is no error");
    if(gh_hdrs_bad || !gh_any){
        SM_ASSERT(!out.data && !out.len, "no such header, no value");
        SM_ASSERT(gh_hdrs_bad || gh_left == 0, "no value only after a look at every header");
        SM_COVER("none");
        return;
    }
    SM_ASSERT(out.data != NULL, "a value is not no value");
    SM_ASSERT(same(out, gh_got.data, gh_got.len), "the value of the first header of that name");
    SM_COVER("found");
}

/* ---- dates */
static bool gh_date_found, gh_date_bad;
static imap_time_t gh_date;
static bool ci_eq(dstr_t a, const char *b, size_t n){
    if(a.len != n) return false;
    for(size_t i = 0; i < n; i++) if((a.data[i] | 0x20) != (b[i] | 0x20)) return false;
    return true;
}
#define IS(a, lit) ci_eq(a, lit, sizeof(lit) - 1)
derr_t d_find_header(search_args_t *args, const dstr_t name, dstr_t *out){
    SM_ASSERT(args == &gh_args && IS(name, "date"), "the Date header is looked up");
    *out = (dstr_t){0};
    if(gh_date_found) *out = gh_value;
    return E_OK;
}
derr_t c_imf_parse_date(const dstr_t in, imap_time_t *out){
    SM_ASSERT(gh_date_found && same(in, gh_value.data, gh_value.len), "the header's value is parsed");
    if(gh_date_bad) return any_error();
    *out = gh_date;
    return E_OK;
}
static imap_time_t any_date(void){
    return (imap_time_t){ (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32() };
}
SM_HARNESS(p_parse_date){
    message();
    gh_value = sm_dstr_in(sm_len(0));
    SM_ASSUME(gh_value.data != NULL);
    gh_date_found = sm_bool(); gh_date_bad = sm_bool(); gh_date = any_date();
    imap_time_t out = any_date();
    derr_t e = parse_date(&gh_args, &out);
    SM_ASSERT(e.type == E_NONE, "a bad date is no error");
    if(!gh_date_found || gh_date_bad){
        SM_ASSERT(out.year == 0, "no date");
        SM_COVER("none");
    }else{
        SM_ASSERT(out.year == gh_date.year && out.month == gh_date.month && out.day == gh_date.day, "the date of the header");
        SM_COVER("date");
    }
}
// -1, 0, 1: order of the calendar days
static int day_order(imap_time_t a, imap_time_t b){
    int64_t d = a.year != b.year ? (int64_t)a.year - b.year : a.month != b.month ? (int64_t)a.month - b.month : (int64_t)a.day - b.day;
    return (d > 0) - (d < 0);
}

/* ---- search keys */
static size_t gh_lvl;
static ie_search_key_t gh_key, gh_ka, gh_kb;
static bool gh_va, gh_vb;              // what the sub-keys evaluate to
static ie_seq_set_t gh_set; static bool gh_in_set;
static ie_dstr_t gh_d1, gh_d2;
static bool gh_hdr_match;
static bool gh_sub_err, gh_err_seen;
derr_t c_do_eval(search_args_t *args, size_t lvl, const ie_search_key_t *key, bool *out){
    SM_ASSERT(args == &gh_args && lvl == gh_lvl + 1, "sub-keys are evaluated against the same message");
    SM_ASSERT(key == &gh_ka || key == &gh_kb, "a sub-key is evaluated");
    if(gh_sub_err && sm_bool()){ gh_err_seen = true; return any_error(); }
    *out = key == &gh_ka ? gh_va : gh_vb;
    return E_OK;
}
bool c_in_seq_set(unsigned val, const ie_seq_set_t *set, unsigned max){
    SM_ASSERT(set == &gh_set, "the set of the key");
    if(gh_key.type == IE_SEARCH_UID) SM_ASSERT(val == gh_view.uid_dn && max == gh_args.uid_dn_max, "UID sets are over UIDs");
    else SM_ASSERT(gh_key.type == IE_SEARCH_SEQ_SET && val == gh_args.seq && max == gh_args.seq_max, "message sets are over sequence numbers");
    return gh_in_set;
}
derr_t c_search_headers(search_args_t *args, const dstr_t name, const dstr_t value, bool *out){
    SM_ASSERT(args == &gh_args, "this message's headers");
    switch(gh_key.type){
        case IE_SEARCH_SUBJECT: SM_ASSERT(IS(name, "subject"), "SUBJECT searches Subject"); break;
        case IE_SEARCH_BCC: SM_ASSERT(IS(name, "bcc"), "BCC searches Bcc"); break;
        case IE_SEARCH_CC: SM_ASSERT(IS(name, "cc"), "CC searches Cc"); break;
        case IE_SEARCH_FROM: SM_ASSERT(IS(name, "from"), "FROM searches From"); break;
        case IE_SEARCH_TO: SM_ASSERT(IS(name, "to"), "TO searches To"); break;
        default: SM_ASSERT(gh_key.type == IE_SEARCH_HEADER && name.data == gh_d2.dstr.data && name.len == gh_d2.dstr.len, "HEADER searches the named header");
    }
    SM_ASSERT(value.data == gh_d1.dstr.data && value.len == gh_d1.dstr.len, "for the key's text");
    *out = gh_hdr_match;
    return E_OK;
}
derr_t c_parse_date(search_args_t *args, imap_time_t *out){
    SM_ASSERT(args == &gh_args, "this message's date");
    *out = (imap_time_t){0};
    if(gh_date_found) *out = gh_date;
    return E_OK;
}
// does the text occur in the message: anywhere; and one (arbitrary) place where it does
static bool gh_occurs; static size_t gh_at;
static bool gh_occurs_body;
size_t e_dstr_icount2(const dstr_t text, const dstr_t pattern){
    SM_ASSERT(pattern.data == gh_d1.dstr.data && pattern.len == gh_d1.dstr.len, "for the key's text");
    SM_ASSERT(text.len == 0 || __CPROVER_same_object(text.data, gh_msg.data), "the message is searched");
    size_t start = text.len ? (size_t)(text.data - gh_msg.data) : 0;
    size_t whole = gh_imf.bytes.len;
    SM_ASSERT(start + text.len <= whole, "nothing but the message is searched");
    size_t n = sm_u64();
    if(gh_key.type == IE_SEARCH_BODY){
        SM_ASSERT(text.len == gh_imf.body.len && (!text.len || start == gh_imf.body.start), "BODY searches the body, all of it");
        SM_ASSUME((n > 0) == gh_occurs_body);
        return n;
    }
    // TEXT
    if(!gh_occurs) SM_ASSUME(n == 0);
    if(gh_occurs && gh_at >= start && gh_at + pattern.len <= start + text.len) SM_ASSUME(n > 0);
    // (an empty text occurs even in an empty place)
    if(pattern.len == 0) SM_ASSUME(n > 0);
    return n;
}
// stands for do_eval itself
derr_t x_do_eval(search_args_t *args, size_t lvl, const ie_search_key_t *key, bool *out){
    (void)args; (void)lvl; (void)key; (void)out; SM_ASSERT(0, "not called"); return E_OK;
}
SM_HARNESS(p_eval){
    message();
    gh_view.uid_dn = sm_u32(); gh_view.length = sm_u64(); gh_view.internaldate = any_date();
    gh_view.flags = (msg_flags_t){ .answered = sm_bool(), .flagged = sm_bool(), .seen = sm_bool(), .draft = sm_bool(), .deleted = sm_bool() };
    gh_lvl = sm_u64();
    SM_ASSUME(gh_lvl <= 1000);
    gh_va = sm_bool(); gh_vb = sm_bool(); gh_in_set = sm_bool(); gh_hdr_match = sm_bool();
    gh_sub_err = sm_bool(); gh_err_seen = false;
    gh_date_found = sm_bool(); gh_date = any_date();
    SM_ASSUME(gh_date.year != 0);
    gh_d1.dstr = sm_dstr_in(sm_len(0)); gh_d2.dstr = sm_dstr_in(sm_len(0));
    gh_occurs_body = sm_bool();
    gh_occurs = sm_bool(); gh_at = sm_u64();
    if(gh_occurs) SM_ASSUME(gh_at <= gh_imf.bytes.len && gh_d1.dstr.len <= gh_imf.bytes.len - gh_at);
    if(!gh_d1.dstr.len) SM_ASSUME(gh_occurs);

    unsigned type = sm_u8();
    SM_ASSUME(type < IE_SEARCH_MODSEQ);
    gh_key.type = (ie_search_key_type_t)type;
    msg_flags_t f = gh_view.flags;
    bool want = false;
    switch(gh_key.type){
        case IE_SEARCH_ALL: case IE_SEARCH_OLD: want = true; break;
        case IE_SEARCH_NEW: case IE_SEARCH_RECENT: want = false; break;
        case IE_SEARCH_ANSWERED: want = f.answered; break;
        case IE_SEARCH_DELETED: want = f.deleted; break;
        case IE_SEARCH_FLAGGED: want = f.flagged; break;
        case IE_SEARCH_SEEN: want = f.seen; break;
        case IE_SEARCH_DRAFT: want = f.draft; break;
        case IE_SEARCH_UNANSWERED: want = !f.answered; break;
        case IE_SEARCH_UNDELETED: want = !f.deleted; break;
        case IE_SEARCH_UNFLAGGED: want = !f.flagged; break;
        case IE_SEARCH_UNSEEN: want = !f.seen; break;
        case IE_SEARCH_UNDRAFT: want = !f.draft; break;
        case IE_SEARCH_SUBJECT: case IE_SEARCH_BCC: case IE_SEARCH_CC: case IE_SEARCH_FROM: case IE_SEARCH_TO:
            gh_key.param.dstr = &gh_d1; want = gh_hdr_match; break;
        case IE_SEARCH_HEADER:
            gh_key.param.header = (ie_search_header_t){ .name = &gh_d2, .value = &gh_d1 }; want = gh_hdr_match; break;
        case IE_SEARCH_BODY: gh_key.param.dstr = &gh_d1; want = !gh_imf_bad && gh_occurs_body; break;
        case IE_SEARCH_TEXT:
            gh_key.param.dstr = &gh_d1;
            SM_ASSUME(!gh_imf_bad);
            want = gh_occurs; break;
        case IE_SEARCH_KEYWORD: gh_key.param.dstr = &gh_d1; want = false; break;
        case IE_SEARCH_UNKEYWORD: gh_key.param.dstr = &gh_d1; want = true; break;
        case IE_SEARCH_BEFORE: gh_key.param.date = any_date(); want = day_order(gh_view.internaldate, gh_key.param.date) < 0; break;
        case IE_SEARCH_ON: gh_key.param.date = any_date(); want = day_order(gh_view.internaldate, gh_key.param.date) == 0; break;
        case IE_SEARCH_SINCE: gh_key.param.date = any_date(); want = day_order(gh_view.internaldate, gh_key.param.date) >= 0; break;
        case IE_SEARCH_SENTBEFORE: gh_key.param.date = any_date(); want = gh_date_found && day_order(gh_date, gh_key.param.date) < 0; break;
        case IE_SEARCH_SENTON: gh_key.param.date = any_date(); want = gh_date_found && day_order(gh_date, gh_key.param.date) == 0; break;
        case IE_SEARCH_SENTSINCE: gh_key.param.date = any_date(); want = gh_date_found && day_order(gh_date, gh_key.param.date) >= 0; break;
        case IE_SEARCH_LARGER: gh_key.param.num = sm_u32(); want = gh_view.length > gh_key.param.num; break;
        case IE_SEARCH_SMALLER: gh_key.param.num = sm_u32(); want = gh_view.length < gh_key.param.num; break;
        case IE_SEARCH_UID: case IE_SEARCH_SEQ_SET: gh_key.param.seq_set = &gh_set; want = gh_in_set; break;
        case IE_SEARCH_NOT: gh_key.param.key = &gh_ka; want = !gh_va; break;
        case IE_SEARCH_GROUP: gh_key.param.key = &gh_ka; want = gh_va; break;
        case IE_SEARCH_OR: gh_key.param.pair = (ie_search_pair_t){ .a = &gh_ka, .b = &gh_kb }; want = gh_va || gh_vb; break;
        case IE_SEARCH_AND: gh_key.param.pair = (ie_search_pair_t){ .a = &gh_ka, .b = &gh_kb }; want = gh_va && gh_vb; break;
        case IE_SEARCH_MODSEQ: default: SM_ASSERT(0, "not reached"); return;
    }
    bool out = sm_bool();
    derr_t e = x_do_eval(&gh_args, gh_lvl, &gh_key, &out);
    if(e.type != E_NONE){
        SM_ASSERT(gh_err_seen, "no error but that of a sub-key");
        SM_COVER("error");
        return;
    }
    SM_ASSERT(!gh_err_seen, "the error of a sub-key is passed on");
    SM_ASSERT(out == want, "the key matches exactly the messages that the RFC says");
    if(out) SM_COVER("match");
    if(!out) SM_COVER("no match");
    if(gh_key.type == IE_SEARCH_TEXT && out) SM_COVER("text");
}
// the public entry
static bool gh_evaled;
derr_t t_do_eval(search_args_t *args, size_t lvl, const ie_search_key_t *key, bool *out){
    SM_ASSERT(key == &gh_key && lvl == 0, "the whole key is evaluated");
    SM_ASSERT(args->view == gh_args.view && args->seq == gh_args.seq && args->seq_max == gh_args.seq_max && args->uid_dn_max == gh_args.uid_dn_max
        && args->get_hdrs == gh_args.get_hdrs && args->get_hdrs_data == gh_args.get_hdrs_data && args->get_imf == gh_args.get_imf && args->get_imf_data == gh_args.get_imf_data,
        "with the message's own data");
    gh_evaled = true;
    if(gh_sub_err) return any_error();
    *out = gh_va;
    return E_OK;
}
SM_HARNESS(p_entry){
    message();
    gh_va = sm_bool(); gh_sub_err = sm_bool(); gh_evaled = false;
    bool out = sm_bool();
    derr_t e = search_key_eval(&gh_key, &gh_view, gh_args.seq, gh_args.seq_max, gh_args.uid_dn_max, gh_args.get_hdrs, gh_args.get_hdrs_data, gh_args.get_imf, gh_args.get_imf_data, &out);
    SM_ASSERT(gh_evaled && (e.type != E_NONE) == gh_sub_err && (gh_sub_err || out == gh_va), "search_key_eval gives the key's value");
    if(!gh_sub_err) SM_COVER("evaluated");
}
#endif
#ifndef SM_CBMC
#include "libimaildir/libimaildir.h"
/* an oracle of its own for whole keys, over messages built here */
static const char *const V_NAME[] = { "Subject", "Cc", "To", "From", "Bcc", "X-Y" };
static const char *const V_TEXT[] = { "abc", "abab", "b", "", "cab cab", "zz" };
static const char *const V_WANT[] = { "ab", "abc", "c", "", "b c", "za", "abcab" };
static const char *const V_DATE[] = { "Tue, 3 Feb 2015 23:00:00 -0700", "1 Jan 1999 00:00:00 +0000", "29 Feb 2016 12:00:00 +1400", "not a date" };
static const int V_YMD[][3] = { {2015,2,3}, {1999,1,1}, {2016,2,29} };
static struct { unsigned name; unsigned text; } O_hdr[6];
static unsigned O_nhdr, O_date, O_ndate, O_uid, O_uidmax, O_seq, O_seqmax, O_len;
static msg_view_t O_view;
static dstr_t O_msg; static size_t O_hlen;
static char fold1(char c){ return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool has(const char *t, size_t n, const char *w, size_t m){
    for(size_t i = 0; i + m <= n; i++){
        size_t j = 0;
        while(j < m && fold1(t[i+j]) == fold1(w[j])) j++;
        if(j == m) return true;
    }
    return false;
}
static bool hass(const char *t, const char *w){ return has(t, strlen(t), w, strlen(w)); }
static void add(const char *s, bool upper){
    for(; *s; s++) O_msg.data[O_msg.len++] = upper && *s >= 'a' && *s <= 'z' ? *s - 32 : *s;
}
static bool lt(const int *a, const int *b){ return a[0] != b[0] ? a[0] < b[0] : a[1] != b[1] ? a[1] < b[1] : a[2] < b[2]; }
static bool eq3(const int *a, const int *b){ return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static bool o_hdr(const char *name, const char *want){
    for(unsigned i = 0; i < O_nhdr; i++)
        if(strlen(V_NAME[O_hdr[i].name]) == strlen(name) && hass(V_NAME[O_hdr[i].name], name) && hass(V_TEXT[O_hdr[i].text], want)) return true;
    return false;
}
static ie_dstr_t *mk(derr_t *e, const char *s){ dstr_t d; DSTR_WRAP(d, (char*)(uintptr_t)s, strlen(s), true); return ie_dstr_new(e, &d, KEEP_RAW); }
static ie_seq_set_t *mkset(derr_t *e, unsigned val, unsigned max, bool *in){
    ie_seq_set_t *s = NULL;
    unsigned n = 1 + sm_u8() % 3;
    *in = false;
    for(unsigned i = 0; i < n; i++){
        unsigned a = sm_u8() % 12, b = sm_u8() % 12;
        unsigned x = a ? a : max, y = b ? b : max;
        if((x <= val && val <= y) || (y <= val && val <= x)) *in = true;
        ie_seq_set_t *t = ie_seq_set_new(e, a, b);
        s = s ? ie_seq_set_append(e, s, t) : t;
    }
    return s;
}
static ie_search_key_t *mkkey(derr_t *e, unsigned depth, bool *want){
    unsigned type = sm_u8() % IE_SEARCH_MODSEQ;
    if(depth == 0 && (type == IE_SEARCH_NOT || type == IE_SEARCH_OR || type == IE_SEARCH_AND || type == IE_SEARCH_GROUP)) type = IE_SEARCH_ALL;
    msg_flags_t f = O_view.flags;
    *want = false;
    bool a, b;
    const char *w, *name = "Subject";
    imap_time_t d; int ymd[3];
    const int intd[3] = { O_view.internaldate.year, O_view.internaldate.month, O_view.internaldate.day };
    bool dated = O_ndate && O_date < 3;
    const int *md = V_YMD[O_date % 3];
    switch((ie_search_key_type_t)type){
        case IE_SEARCH_ALL: case IE_SEARCH_OLD: *want = true; break;
        case IE_SEARCH_NEW: case IE_SEARCH_RECENT: break;
        case IE_SEARCH_ANSWERED: *want = f.answered; break;
        case IE_SEARCH_DELETED: *want = f.deleted; break;
        case IE_SEARCH_FLAGGED: *want = f.flagged; break;
        case IE_SEARCH_SEEN: *want = f.seen; break;
        case IE_SEARCH_DRAFT: *want = f.draft; break;
        case IE_SEARCH_UNANSWERED: *want = !f.answered; break;
        case IE_SEARCH_UNDELETED: *want = !f.deleted; break;
        case IE_SEARCH_UNFLAGGED: *want = !f.flagged; break;
        case IE_SEARCH_UNSEEN: *want = !f.seen; break;
        case IE_SEARCH_UNDRAFT: *want = !f.draft; break;
        case IE_SEARCH_TO: case IE_SEARCH_FROM: case IE_SEARCH_CC: case IE_SEARCH_BCC: case IE_SEARCH_SUBJECT:
            w = V_WANT[sm_u8() % 7];
            if(type == IE_SEARCH_TO) name = "To"; else if(type == IE_SEARCH_FROM) name = "From"; else if(type == IE_SEARCH_CC) name = "Cc"; else if(type == IE_SEARCH_BCC) name = "Bcc";
            *want = o_hdr(name, w);
            return ie_search_dstr(e, type, mk(e, w));
        case IE_SEARCH_HEADER:
            name = V_NAME[sm_u8() % 6]; w = V_WANT[sm_u8() % 7];
            *want = o_hdr(name, w);
            return ie_search_header(e, type, mk(e, name), mk(e, w));
        case IE_SEARCH_BODY: w = V_WANT[sm_u8() % 7]; *want = has(O_msg.data + O_hlen, O_msg.len - O_hlen, w, strlen(w)); return ie_search_dstr(e, type, mk(e, w));
        case IE_SEARCH_TEXT:
            // sometimes a text that straddles headers and body
            if(sm_bool()){
                size_t from = O_hlen - sm_u8() % (O_hlen < 6 ? O_hlen + 1 : 6), n = sm_u8() % 9;
                if(n > O_msg.len - from) n = O_msg.len - from;
                dstr_t x; DSTR_WRAP(x, O_msg.data + from, n, false);
                *want = true;
                return ie_search_dstr(e, type, ie_dstr_new(e, &x, KEEP_RAW));
            }
            w = V_WANT[sm_u8() % 7]; *want = has(O_msg.data, O_msg.len, w, strlen(w)); return ie_search_dstr(e, type, mk(e, w));
        case IE_SEARCH_KEYWORD: return ie_search_dstr(e, type, mk(e, "k"));
        case IE_SEARCH_UNKEYWORD: *want = true; return ie_search_dstr(e, type, mk(e, "k"));
        case IE_SEARCH_BEFORE: case IE_SEARCH_ON: case IE_SEARCH_SINCE: case IE_SEARCH_SENTBEFORE: case IE_SEARCH_SENTON: case IE_SEARCH_SENTSINCE:
            d = (imap_time_t){ .year = 2015 + (sm_u8() % 3) - 1, .month = 2 + (sm_u8() % 3) - 1, .day = 3 + (sm_u8() % 3) - 1, .hour = sm_u8() % 24 };
            ymd[0] = d.year; ymd[1] = d.month; ymd[2] = d.day;
            if(type == IE_SEARCH_BEFORE) *want = lt(intd, ymd);
            else if(type == IE_SEARCH_ON) *want = eq3(intd, ymd);
            else if(type == IE_SEARCH_SINCE) *want = !lt(intd, ymd);
            else if(type == IE_SEARCH_SENTBEFORE) *want = dated && lt(md, ymd);
            else if(type == IE_SEARCH_SENTON) *want = dated && eq3(md, ymd);
            else *want = dated && !lt(md, ymd);
            return ie_search_date(e, type, d);
        case IE_SEARCH_LARGER: case IE_SEARCH_SMALLER: {
            unsigned n = sm_u8();
            *want = type == IE_SEARCH_LARGER ? O_view.length > n : O_view.length < n;
            return ie_search_num(e, type, n);
        }
        case IE_SEARCH_UID: { ie_seq_set_t *s = mkset(e, O_view.uid_dn, O_uidmax, want); return ie_search_seq_set(e, type, s); }
        case IE_SEARCH_SEQ_SET: { ie_seq_set_t *s = mkset(e, O_seq, O_seqmax, want); return ie_search_seq_set(e, type, s); }
        case IE_SEARCH_NOT: { ie_search_key_t *k = mkkey(e, depth-1, &a); *want = !a; return ie_search_not(e, k); }
        case IE_SEARCH_GROUP: { ie_search_key_t *k = mkkey(e, depth-1, want); return ie_search_group(e, k); }
        case IE_SEARCH_OR: case IE_SEARCH_AND: {
            ie_search_key_t *k1 = mkkey(e, depth-1, &a), *k2 = mkkey(e, depth-1, &b);
            *want = type == IE_SEARCH_OR ? a || b : a && b;
            return ie_search_pair(e, type, k1, k2);
        }
        case IE_SEARCH_MODSEQ: default: break;
    }
    return ie_search_0(e, type);
}
static derr_t n_get_hdrs(void *data, const imf_hdrs_t **out){ *out = ((imf_t*)data)->hdrs; return E_OK; }
static derr_t n_get_imf(void *data, const imf_t **out){ *out = data; return E_OK; }
SM_HARNESS(s_search){
    static char buf[4096]; DSTR_WRAP(O_msg, buf, 0, false); O_msg.size = sizeof(buf);
    O_nhdr = sm_u8() % 5; O_ndate = sm_bool(); O_date = sm_u8() % 4;
    for(unsigned i = 0; i < O_nhdr; i++){
        O_hdr[i].name = sm_u8() % 6; O_hdr[i].text = sm_u8() % 6;
        add(V_NAME[O_hdr[i].name], sm_bool()); add(": ", false); add(V_TEXT[O_hdr[i].text], sm_bool()); add("\r\n", false);
        if(i == 0 && O_ndate){ add("Date: ", sm_bool()); add(V_DATE[O_date], false); add("\r\n", false); }
    }
    if(O_nhdr == 0) O_ndate = 0;
    if(O_nhdr == 0) add("Z: z\r\n", false);
    add("\r\n", false);
    O_hlen = O_msg.len;
    unsigned nb = sm_u8() % 3;
    for(unsigned i = 0; i < nb; i++){ add(V_TEXT[sm_u8() % 6], sm_bool()); add("\r\n", false); }
    O_view = (msg_view_t){ .uid_dn = 1 + sm_u8() % 10, .length = sm_u8(),
        .internaldate = { .year = 2015 + (sm_u8() % 3) - 1, .month = 2 + (sm_u8() % 3) - 1, .day = 3 + (sm_u8() % 3) - 1, .hour = sm_u8() % 24 } };
    unsigned fl = sm_u8();
    O_view.flags = (msg_flags_t){ .answered = fl & 1, .flagged = fl & 2, .seen = fl & 4, .draft = fl & 8, .deleted = fl & 16 };
    O_uidmax = O_view.uid_dn + sm_u8() % 3;
    O_seq = 1 + sm_u8() % 10; O_seqmax = O_seq + sm_u8() % 3;
    derr_t e = E_OK;
    bool want;
    ie_search_key_t *key = mkkey(&e, 3, &want);
    imf_t *imf = NULL;
    derr_t e2 = imf_parse(&O_msg, NULL, NULL, NULL, &imf);
    SM_ASSERT(e.type == E_NONE && e2.type == E_NONE && imf, "setup");
    bool out = !want;
    e = search_key_eval(key, &O_view, O_seq, O_seqmax, O_uidmax, n_get_hdrs, imf, n_get_imf, imf, &out);
    SM_ASSERT(e.type == E_NONE, "no error");
    SM_ASSERT(out == want, "the key matches exactly the messages that the RFC says");
    imf_free(imf); ie_search_key_free(key);
    // the iterator
    bool in;
    e = E_OK;
    unsigned min = 1 + sm_u8() % 4, max = min + sm_u8() % 9;
    ie_seq_set_t *set = mkset(&e, 5, max, &in);
    ie_seq_set_trav_t t;
    unsigned i = ie_seq_set_iter(&t, set, min, max);
    for(ie_seq_set_t *p = set; p; p = p->next){
        unsigned a = p->n1 ? p->n1 : max, b = p->n2 ? p->n2 : max;
        if(a > b){ unsigned x = a; a = b; b = x; }
        for(unsigned v = a; v <= b; v++) if(v >= min && v <= max){
            SM_ASSERT(i == v, "the iterator gives each element's numbers in bounds");
            i = ie_seq_set_next(&t);
        }
    }
    SM_ASSERT(i == 0, "and nothing else");
    ie_seq_set_free(set);
}
#endif
