/* records of the mailbox log and names of message files: libimaildir/log.c,
   msg.c, name.c.

   Formatting, splitting and number parsing are used by contract.  The text
   that was written is known as a sequence of separators, numbers (any number
   of digits) and other parts, each at its place; splitting it follows C06,
   reading a number back gives the number (E02).  For text that was not
   written by this code, where the next separator is and what number a part
   is are arbitrary functions of the text. */
#include "sm.h"
#ifdef SM_CBMC
SM_DEFINE_ERRORS
#endif
#ifdef SM_PROOF
#include "libimaildir/libimaildir.h"
static bool gh_flags(const dstr_t *flags, size_t i, const msg_flags_t *f);
static void gh_flags_step(const dstr_t *flags, size_t i);
static bool gh_oom;
static void *sm_malloc(size_t n){
    if(gh_oom) return NULL;
    void *p = malloc(n);
    SM_ASSUME(p != NULL);
    return p;
}
#define malloc sm_malloc
#define parse_date l_parse_date
#include "libimaildir/log.c"
#undef parse_date
#include "libimaildir/msg.c"
#include "libimaildir/name.c"
#undef malloc

void dstr_free(dstr_t *d){ *d = (dstr_t){0}; }

/* ---- the text */
static char *gh_buf; static size_t gh_cap;     // where it is
static bool gh_written;                        // it was written here
static struct { size_t pos; char ch; } gh_sep[20]; static size_t gh_nsep;
typedef struct { size_t pos, len; uintmax_t u; intmax_t i; bool sign; } num_t;
static num_t gh_num[12]; static size_t gh_nnum;
static struct { size_t pos, len; const char *data; char except; } gh_reg[2]; static size_t gh_nreg;   // other parts, without the char `except`
static bool gh_wfail;                          // writing failed
uint64_t __CPROVER_uninterpreted_region(uint64_t at, uint8_t c);
uint64_t __CPROVER_uninterpreted_find(uint64_t at, uint8_t c);
static size_t gh_findat;
// the first c at or after a; b if there is none before b
static size_t find(size_t a, size_t b, char c){
    if(!gh_written){
        size_t p = __CPROVER_uninterpreted_find(a, (uint8_t)c);
        if(p < a || p >= b) return b;
        SM_ASSUME(gh_buf[p] == c);
        return p;
    }
    size_t best = b;
    for(size_t k = 0; k < gh_nsep; k++) if(gh_sep[k].ch == c && gh_sep[k].pos >= a && gh_sep[k].pos < best) best = gh_sep[k].pos;
    for(size_t k = 0; k < gh_nreg; k++) if(gh_reg[k].except != c){
        size_t p = __CPROVER_uninterpreted_region(a, (uint8_t)c);
        if(p >= a && p >= gh_reg[k].pos && p < gh_reg[k].pos + gh_reg[k].len && p < best) best = p;
    }
    return best;
}
/* ---- splitting, by contract (C06) */
static size_t off(dstr_t d){ return d.data ? (size_t)(d.data - gh_buf) : 0; }
static dstr_t part(size_t a, size_t b){ return (dstr_t){ .data = gh_buf + a, .len = b - a, .size = b - a, .fixed_size = true }; }
// words of d; at most nouts; false if there are more and that is not allowed
static bool words(dstr_t d, char c, dstr_t *w, size_t nouts, size_t *n, bool soft){
    size_t a = off(d), end = a + d.len;
    *n = 0;
    for(size_t k = 0; k < nouts; k++){
        size_t b = find(a, end, c);
        if(soft && k == nouts - 1) b = end;
        w[k] = part(a, b);
        *n = k + 1;
        if(b == end) return true;
        a = b + 1;
    }
    return false;
}
static derr_t do_split2(const dstr_t text, const dstr_t pattern, size_t *len, dstr_t **outs, size_t nouts, bool soft){
    SM_ASSERT(pattern.len == 1, "split at one char");
    SM_ASSERT(nouts <= 8, "contract of split");
    dstr_t w[8]; size_t n;
    bool ok = words(text, pattern.data[0], w, nouts, &n, soft);
    if(len) *len = ok ? n : 0;
    for(size_t k = 0; k < nouts; k++) if(outs[k]){
        // (on failure the outputs are the first words)
        if(k < n) *outs[k] = w[k]; else *outs[k] = (dstr_t){0};
    }
    if(!ok) return (derr_t){ .type = E_FIXEDSIZE }; return E_OK;
}
derr_t _dstr_split2(const dstr_t text, const dstr_t pattern, size_t *len, dstr_t **outs, size_t nouts){ return do_split2(text, pattern, len, outs, nouts, false); }
void _dstr_split2_soft(const dstr_t text, const dstr_t pattern, size_t *len, dstr_t **outs, size_t nouts){ do_split2(text, pattern, len, outs, nouts, true); }
static derr_t split_list(const dstr_t *text, const dstr_t *pattern, LIST(dstr_t) *out, bool soft){
    SM_ASSERT(pattern->len == 1 && out->fixed_size && out->size <= 8 * sizeof(dstr_t), "contract of split");
    dstr_t w[8]; size_t n;
    bool ok = words(*text, pattern->data[0], w, out->size / sizeof(dstr_t), &n, soft);
    for(size_t k = 0; k < n; k++) out->data[k] = w[k];
    out->len = n;
    if(!ok) return (derr_t){ .type = E_FIXEDSIZE }; return E_OK;
}
derr_t dstr_split(const dstr_t *text, const dstr_t *pattern, LIST(dstr_t) *out){ return split_list(text, pattern, out, false); }
derr_t dstr_split_soft(const dstr_t *text, const dstr_t *pattern, LIST(dstr_t) *out){ return split_list(text, pattern, out, true); }
int dstr_cmp(const dstr_t *a, const dstr_t *b){
    SM_ASSERT(b->len == 1, "compared with one char");
    if(a->len != 1) return a->len ? 1 : -1;
    return a->data[0] - b->data[0];
}
/* ---- numbers, by contract (E02) */
_Bool __CPROVER_uninterpreted_isnum(uint64_t pos, uint64_t len, uint8_t type);
uint64_t __CPROVER_uninterpreted_numval(uint64_t pos, uint64_t len, uint8_t type);
enum { N_U, N_U64, N_SIZE, N_I };
// does the part read as a number of that type; and which
static bool number(dstr_t d, uint8_t type, uint64_t *out){
    *out = 0;
    size_t pos = off(d);
    if(d.len == 0) return false;
    if(gh_written){
        for(size_t k = 0; k < gh_nnum; k++) if(gh_num[k].pos == pos && gh_num[k].len == d.len){
            if(type == N_I){
                if(gh_num[k].sign){ if(gh_num[k].i < INT_MIN || gh_num[k].i > INT_MAX) return false; *out = (uint64_t)gh_num[k].i; return true; }
                return false;
            }
            if(gh_num[k].sign || (type == N_U && gh_num[k].u > UINT_MAX)) return false;
            *out = gh_num[k].u;
            return true;
        }
    }
    *out = __CPROVER_uninterpreted_numval(pos, d.len, type);
    if(type == N_U) *out = (uint32_t)*out;
    if(type == N_I) *out = (uint64_t)(int64_t)(int32_t)*out;
    return __CPROVER_uninterpreted_isnum(pos, d.len, type);
}
#define TO(fn, T, ty) derr_t fn(const dstr_t *in, T *out, int base){ \
    SM_ASSERT(base == 10, "numbers are decimal"); \
    uint64_t v; bool ok = number(*in, ty, &v); \
    *out = ok ? (T)v : 0; \
    if(!ok) return (derr_t){ .type = E_PARAM }; return E_OK; \
}
TO(dstr_tou, unsigned int, N_U)
TO(dstr_tou64, uint64_t, N_U64)
TO(dstr_tosize, size_t, N_SIZE)
TO(dstr_toi, int, N_I)

/* ---- writing, by contract.  It may fail at any time */
static derr_t write_fail(void){ gh_wfail = true; return (derr_t){ .type = sm_bool() ? E_NOMEM : E_FIXEDSIZE }; }
static bool is_sep(char c){ return c == ':' || c == '.' || c == ',' || c == '|' || c == '\n'; }
static void wr_char(dstr_t *out, char c){
    SM_ASSUME(out->len < gh_cap);
    gh_buf[out->len] = c;
    if(is_sep(c)){
        SM_ASSERT(gh_nsep < 20, "contract of fmt: as many separators");
        gh_sep[gh_nsep].pos = out->len; gh_sep[gh_nsep++].ch = c;
    }
    out->len++;
}
static void wr_num(dstr_t *out, bool sign, uintmax_t u, intmax_t i){
    size_t len = sm_u8();
    SM_ASSUME(len >= 1 && len <= 20 && len <= gh_cap - out->len);
    SM_ASSERT(gh_nnum < 12, "contract of fmt: as many numbers");
    gh_num[gh_nnum++] = (num_t){ .pos = out->len, .len = len, .u = u, .i = i, .sign = sign };
    out->len += len;
}
static void wr_region(dstr_t *out, const char *data, size_t len, char except){
    SM_ASSUME(len <= gh_cap - out->len);
    SM_ASSERT(gh_nreg < 2, "contract of fmt: as many parts");
    gh_reg[gh_nreg].pos = out->len; gh_reg[gh_nreg].len = len; gh_reg[gh_nreg].data = data; gh_reg[gh_nreg++].except = except;
    out->len += len;
}
static bool target(const dstr_t *out){ return out->data == gh_buf && out->size == gh_cap; }
derr_t _fmt(writer_i *iface, const char *fstr, const fmt_i **args, size_t nargs){
    SM_ASSERT(iface->w == &_writer_dstr, "written to the string");
    dstr_t *out = ((_writer_dstr_t*)iface)->out;
    SM_ASSERT(target(out) && !gh_wfail, "written to the string; nothing after a failure");
    size_t k = 0;
    for(size_t i = 0; fstr[i]; i++){
        if(fstr[i] != '%'){ wr_char(out, fstr[i]); continue; }
        i++;
        SM_ASSERT(fstr[i] == 'x' && k < nargs, "one argument for each mark");
        const fmt_i *a = args[k++];
        if(a->fmt == _fmt_uint) wr_num(out, false, ((const _fmt_uint_t*)a)->u, 0);
        else if(a->fmt == _fmt_int) wr_num(out, true, 0, ((const _fmt_int_t*)a)->i);
        else{
            SM_ASSERT(a->fmt == _fmt_dstr, "numbers and strings");
            dstr_t d = ((const _fmt_dstr_t*)a)->d;
            if(d.len == 1 && !gh_nreg) wr_char(out, d.data[0]);
            else wr_region(out, d.data, d.len, ':');
        }
    }
    SM_ASSERT(k == nargs, "one mark for each argument");
    if(sm_bool()) return write_fail();
    return E_OK;
}
derr_t dstr_append(dstr_t *out, const dstr_t *d){
    SM_ASSERT(target(out) && !gh_wfail, "written to the string; nothing after a failure");
    SM_ASSERT(d->len == 1, "one char");
    wr_char(out, d->data[0]);
    if(sm_bool()) return write_fail();
    return E_OK;
}
static dstr_t text_setup(bool written){
    gh_written = written; gh_nsep = gh_nnum = gh_nreg = 0; gh_wfail = false; gh_oom = false;
    gh_cap = sm_len(0);
    gh_buf = sm_buf(gh_cap);
    return (dstr_t){ .data = gh_buf, .len = 0, .size = gh_cap, .fixed_size = true };
}

/* ---- flags: HAS(l, p): letter l is among the flags before p.  FB: the first char that is no flag */
_Bool __CPROVER_uninterpreted_has(uint8_t l, uint64_t p);
#define HAS(l, p) __CPROVER_uninterpreted_has(l, p)
static size_t gh_fb;
static char low(char c){ return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool is_flag(char c){ char l = low(c); return l == 'a' || l == 'f' || l == 's' || l == 'd' || l == 'x'; }
static const char LET[5] = "afsdx";
static void has_def(size_t p){ for(int k = 0; k < 5; k++) SM_ASSUME(HAS(LET[k], p + 1) == (HAS(LET[k], p) || low(gh_buf[p]) == LET[k])); }
static bool gh_flags(const dstr_t *flags, size_t i, const msg_flags_t *f){
    size_t p = off(*flags);
    for(int k = 0; k < 5; k++) SM_ASSUME(!HAS(LET[k], p));
    p += i;
    return p <= gh_fb && f->answered == HAS('a', p) && f->flagged == HAS('f', p) && f->seen == HAS('s', p) && f->draft == HAS('d', p) && f->deleted == HAS('x', p);
}
static void gh_flags_step(const dstr_t *flags, size_t i){
    size_t p = off(*flags) + i;
    SM_ASSUME(is_flag(gh_buf[p]) == (p != gh_fb));
    has_def(p);
}
static void flags_setup(size_t a, size_t b){
    gh_fb = sm_u64();
    SM_ASSUME(gh_fb >= a && gh_fb <= b);
    for(int k = 0; k < 5; k++) SM_ASSUME(!HAS(LET[k], a));
}

/* ---- what is written reads back */
static unsigned gh_mflags;
static msg_flags_t any_flags(void){ return (msg_flags_t){ .answered = sm_bool(), .flagged = sm_bool(), .seen = sm_bool(), .draft = sm_bool(), .deleted = sm_bool() }; }
static bool same_flags(msg_flags_t a, msg_flags_t b){ return a.answered == b.answered && a.flagged == b.flagged && a.seen == b.seen && a.draft == b.draft && a.deleted == b.deleted; }
static imap_time_t any_date(void){
    return (imap_time_t){ (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32(), (int)sm_u32() };
}
static bool same_date(imap_time_t a, imap_time_t b){
    return a.year == b.year && a.month == b.month && a.day == b.day && a.hour == b.hour && a.min == b.min && a.sec == b.sec && a.z_hour == b.z_hour && a.z_min == b.z_min;
}
SM_HARNESS(p_message){
    dstr_t out = text_setup(true);
    msg_t m = { .uid_dn = sm_u32(), .state = (msg_state_e)sm_range(0, 4), .internaldate = any_date(), .flags = any_flags(), .mod = { .modseq = sm_u64() } };
    derr_t e = marshal_message(&m, &out);
    if(e.type){
        SM_ASSERT(gh_wfail || (m.state != MSG_UNFILLED && m.state != MSG_FILLED && m.state != MSG_NOT4ME), "every live message can be written");
        SM_COVER("not written");
        return;
    }
    SM_ASSERT(!gh_wfail, "a failure to write is passed on");
    SM_ASSERT(m.state == MSG_UNFILLED || m.state == MSG_FILLED || m.state == MSG_NOT4ME, "an expunged message is not written as a live one");
    // what the flags are: chars between the fourth and the fifth colon
    SM_ASSERT(gh_nsep == 12, "five colons and seven points");
    size_t a = gh_sep[3].pos + 1, b = gh_sep[4].pos;
    SM_ASSERT(b - a <= 5, "at most five flags");
    flags_setup(a, b);
    for(size_t k = 0; k < 5; k++) if(a + k < b){ has_def(a + k); SM_ASSUME(is_flag(gh_buf[a + k]) == (a + k != gh_fb)); }
    SM_ASSERT(out.len <= 300, "a record fits a line");
    msg_key_t key = { sm_u32(), sm_u32() };
    msg_t *r; msg_expunge_t *x;
    gh_oom = sm_bool();
    e = parse_value(out, key, &r, &x);
    SM_ASSERT((e.type != E_NONE) == gh_oom, "what was written reads back, unless there is no memory");
    SM_ASSERT(x == NULL, "a message reads back as a message");
    if(gh_oom){ SM_ASSERT(r == NULL, "nothing on failure"); SM_COVER("no memory"); return; }
    SM_ASSERT(r != NULL && r->key.uid_up == key.uid_up && r->key.uid_local == key.uid_local, "under its key");
    SM_ASSERT(r->uid_dn == m.uid_dn, "uid_dn reads back");
    SM_ASSERT(r->mod.modseq == m.mod.modseq && r->mod.type == MOD_TYPE_MESSAGE, "modseq reads back");
    SM_ASSERT(r->state == m.state, "state reads back");
    SM_ASSERT(same_flags(r->flags, m.flags), "flags read back");
    SM_ASSERT(same_date(r->internaldate, m.internaldate), "date reads back");
    SM_ASSERT(r->filename.data == NULL && r->open_fds == 0, "no file yet");
    SM_COVER("message");
}
SM_HARNESS(p_expunge){
    dstr_t out = text_setup(true);
    msg_expunge_t m = { .uid_dn = sm_u32(), .state = (msg_expunge_state_e)sm_range(0, 2), .mod = { .modseq = sm_u64() } };
    derr_t e = marshal_expunge(&m, &out);
    if(e.type){
        SM_ASSERT(gh_wfail || (m.state != MSG_EXPUNGE_UNPUSHED && m.state != MSG_EXPUNGE_PUSHED), "every expunge can be written");
        SM_COVER("not written");
        return;
    }
    SM_ASSERT(!gh_wfail, "a failure to write is passed on");
    SM_ASSERT(out.len <= 300, "a record fits a line");
    msg_key_t key = { sm_u32(), sm_u32() };
    msg_t *r; msg_expunge_t *x;
    gh_oom = sm_bool();
    e = parse_value(out, key, &r, &x);
    SM_ASSERT((e.type != E_NONE) == gh_oom, "what was written reads back, unless there is no memory");
    SM_ASSERT(r == NULL, "an expunge reads back as an expunge");
    if(gh_oom){ SM_ASSERT(x == NULL, "nothing on failure"); return; }
    SM_ASSERT(x != NULL && x->key.uid_up == key.uid_up && x->key.uid_local == key.uid_local, "under its key");
    SM_ASSERT(x->uid_dn == m.uid_dn && x->mod.modseq == m.mod.modseq && x->mod.type == MOD_TYPE_EXPUNGE && x->state == m.state, "everything reads back");
    SM_COVER("expunge");
}
SM_HARNESS(p_key){
    dstr_t out = text_setup(true);
    log_key_t k = { .type = (log_key_type_e)sm_range(0, 3), .arg = { .msg_key = { sm_u32(), sm_u32() } } };
    derr_t e = log_key_marshal(&k, &out);
    if(e.type){ SM_ASSERT(gh_wfail, "every key can be written"); return; }
    SM_ASSERT(!gh_wfail, "a failure to write is passed on");
    SM_ASSERT(out.len <= 50, "a key fits a line");
    for(size_t i = 0; i < gh_nsep; i++) SM_ASSERT(gh_sep[i].ch == '.', "a key does not contain what ends it");
    log_key_t r;
    e = log_key_unmarshal(&out, &r);
    SM_ASSERT(e.type == E_NONE && r.type == k.type, "a key reads back");
    if(k.type == LOG_KEY_MSG){
        SM_ASSERT(r.arg.msg_key.uid_up == k.arg.msg_key.uid_up && r.arg.msg_key.uid_local == k.arg.msg_key.uid_local, "a message key reads back");
        SM_COVER("message key");
    }
    SM_COVER("key");
}
SM_HARNESS(p_uidvlds){
    dstr_t out = text_setup(true);
    unsigned a = sm_u32(), b = sm_u32(), x, y;
    derr_t e = marshal_uidvlds(a, b, &out);
    if(e.type){ SM_ASSERT(gh_wfail, "can be written"); return; }
    SM_ASSERT(!gh_wfail, "a failure to write is passed on");
    e = parse_uidvlds(out, &x, &y);
    SM_ASSERT(e.type == E_NONE && x == a && y == b, "UID validities read back");
    SM_COVER("read");
}

/* ---- whatever is read */
static dstr_t any_text(void){
    dstr_t d = text_setup(false);
    d.len = gh_cap;
    return d;
}
SM_HARNESS(p_value_any){
    dstr_t in = any_text();
    // what the format says
    dstr_t v[2], w[6] = {{0}}; size_t nv, n = 0;
    words(in, ':', v, 2, &nv, true);
    bool ok = v[0].len == 1 && v[0].data[0] == '1' && nv == 2;
    if(nv == 2) words(v[1], ':', w, 6, &n, true);
    uint64_t uid = 0, ms = 0, dt[8] = {0};
    ok = ok && (n == 3 || n == 5) && number(w[0], N_U, &uid) && number(w[1], N_U64, &ms) && w[2].len == 1;
    char st = ok ? w[2].data[0] : 0;
    bool live = st == 'u' || st == 'f' || st == 'n';
    ok = ok && (n == 5 ? live : st == 'e' || st == 'x');
    if(n >= 4) flags_setup(off(w[3]), off(w[3]) + w[3].len);
    if(ok && n == 5){
        dstr_t d[8]; size_t nd;
        bool fits = words(w[4], '.', d, 8, &nd, false);
        ok = gh_fb == off(w[3]) + w[3].len && fits && nd == 8;
        for(size_t k = 0; k < 8; k++) ok = ok && number(d[k], N_I, &dt[k]);
    }
    gh_oom = sm_bool();
    msg_key_t key = { sm_u32(), sm_u32() };
    msg_t *r; msg_expunge_t *x;
    derr_t e = parse_value(in, key, &r, &x);
    SM_ASSERT((e.type == E_NONE) == (ok && !gh_oom), "a record is accepted exactly if it is of the format");
    if(e.type){ SM_ASSERT(!r && !x, "nothing is returned for what is refused"); SM_COVER("refused"); return; }
    SM_ASSERT((r != NULL) != (x != NULL) && (r != NULL) == live, "either a message or an expunge, by its state");
    if(r){
        SM_ASSERT(r->key.uid_up == key.uid_up && r->key.uid_local == key.uid_local && r->uid_dn == (unsigned)uid && r->mod.modseq == ms, "the numbers of the record");
        SM_ASSERT(r->state == (st == 'u' ? MSG_UNFILLED : st == 'f' ? MSG_FILLED : MSG_NOT4ME), "the state of the record");
        size_t p = off(w[3]) + w[3].len;
        SM_ASSERT(same_flags(r->flags, (msg_flags_t){ .answered = HAS('a', p), .flagged = HAS('f', p), .seen = HAS('s', p), .draft = HAS('d', p), .deleted = HAS('x', p) }), "the flags of the record");
        SM_ASSERT(same_date(r->internaldate, (imap_time_t){ (int)dt[0], (int)dt[1], (int)dt[2], (int)dt[3], (int)dt[4], (int)dt[5], (int)dt[6], (int)dt[7] }), "the date of the record");
        SM_COVER("message");
        if(w[3].len > 5) SM_COVER("many flags");
    }else{
        SM_ASSERT(x->key.uid_up == key.uid_up && x->key.uid_local == key.uid_local && x->uid_dn == (unsigned)uid && x->mod.modseq == ms, "the numbers of the record");
        SM_ASSERT(x->state == (st == 'x' ? MSG_EXPUNGE_PUSHED : MSG_EXPUNGE_UNPUSHED), "the state of the record");
        SM_COVER("expunge");
    }
}
SM_HARNESS(p_key_any){
    dstr_t in = any_text();
    char c = in.len ? in.data[0] : 0;
    bool ok = in.len == 1 && (c == 'v' || c == 'h' || c == 'd');
    uint64_t a = 0, b = 0;
    if(c == 'm'){
        dstr_t w[3]; size_t n;
        ok = words(in, '.', w, 3, &n, false) && n == 3 && number(w[1], N_U, &a) && number(w[2], N_U, &b);
    }
    log_key_t r;
    derr_t e = log_key_unmarshal(&in, &r);
    SM_ASSERT((e.type == E_NONE) == ok, "a key is accepted exactly if it is of the format");
    if(e.type){ SM_COVER("refused"); return; }
    SM_ASSERT(r.type == (c == 'v' ? LOG_KEY_UIDVLDS : c == 'h' ? LOG_KEY_HIMODSEQUP : c == 'd' ? LOG_KEY_MODSEQDN : LOG_KEY_MSG), "the kind of the key");
    if(c == 'm'){ SM_ASSERT(r.arg.msg_key.uid_up == (unsigned)a && r.arg.msg_key.uid_local == (unsigned)b, "the numbers of the key"); SM_COVER("message key"); }
}
SM_HARNESS(p_uidvlds_any){
    dstr_t in = any_text();
    dstr_t w[3]; size_t n; uint64_t a = 0, b = 0;
    words(in, ':', w, 3, &n, true);
    bool ok = n == 2 && number(w[0], N_U, &a) && number(w[1], N_U, &b);
    unsigned x, y;
    derr_t e = parse_uidvlds(in, &x, &y);
    SM_ASSERT((e.type == E_NONE) == ok, "accepted exactly if it is two numbers");
    if(ok){ SM_ASSERT(x == (unsigned)a && y == (unsigned)b, "the numbers"); SM_COVER("read"); }
}

/* ---- file names */
static dstr_t gh_hostbuf, gh_infobuf; static dstr_t gh_hostin;
static dstr_t gh_gothost, gh_gotinfo; static bool gh_copyfail;
derr_t dstr_recode(const dstr_t *in, dstr_t *out, const LIST(dstr_t) *search, const LIST(dstr_t) *replace, bool append){
    SM_ASSERT(in->data == gh_hostin.data && in->len == gh_hostin.len && target(out) && append, "the host is appended");
    SM_ASSERT(search->len == 2 && replace->len == 2, "contract of recode");
    bool slash = false, colon = false;
    for(size_t k = 0; k < 2; k++){
        SM_ASSERT(search->data[k].len == 1 && replace->data[k].len == 3, "contract of recode");
        if(search->data[k].data[0] == '/') slash = true;
        if(search->data[k].data[0] == ':') colon = true;
        for(size_t j = 0; j < 3; j++) SM_ASSERT(replace->data[k].data[j] >= '0' && replace->data[k].data[j] <= '9', "replaced by digits");
    }
    SM_ASSERT(slash && colon, "a host in a file name has no slash and no colon");
    if(sm_bool()) return write_fail();
    // every char may grow to three
    size_t len = sm_u64();
    SM_ASSUME(len >= in->len && len / 3 <= in->len);
    wr_region(out, in->data, len, ':');
    return E_OK;
}
derr_t dstr_copy(const dstr_t *in, dstr_t *out){
    if(sm_bool()){ gh_copyfail = true; return (derr_t){ .type = E_NOMEM }; }
    if(out == &gh_hostbuf) gh_gothost = *in;
    else{ SM_ASSERT(out == &gh_infobuf, "copied to the outputs"); gh_gotinfo = *in; }
    out->len = in->len;
    return E_OK;
}
SM_HARNESS(p_name){
    dstr_t out = text_setup(true);
    gh_hostin = sm_dstr_in(sm_len(0));
    dstr_t info = sm_dstr_in(sm_len(0));
    bool have_info = sm_bool();
    uint64_t epoch = sm_u64(); msg_key_t key = { sm_u32(), sm_u32() }; size_t len = sm_u64();
    derr_t e = maildir_name_write(&out, epoch, key, len, &gh_hostin, have_info ? &info : NULL);
    if(e.type){ SM_ASSERT(gh_wfail, "every name can be written"); return; }
    SM_ASSERT(!gh_wfail, "a failure to write is passed on");
    // exactly one of the UIDs is known, and the time is of this century
    SM_ASSUME(!key.uid_up != !key.uid_local && out.len >= 16);
    // (the version number of this format)
    for(size_t k = 0; k < gh_nsep; k++) SM_ASSERT(gh_sep[k].ch != '/', "a name is no path");
    gh_copyfail = false; gh_gothost = gh_gotinfo = (dstr_t){0};
    gh_hostbuf = (dstr_t){ .len = 7 }; gh_infobuf = (dstr_t){ .len = 7 };
    uint64_t e2; msg_key_t k2; size_t l2;
    e = maildir_name_parse(&out, &e2, &k2, &l2, &gh_hostbuf, &gh_infobuf);
    SM_ASSERT((e.type != E_NONE) == gh_copyfail, "what was written reads back");
    if(e.type) return;
    SM_ASSERT(e2 == epoch && l2 == len && k2.uid_up == key.uid_up && k2.uid_local == key.uid_local, "time, UIDs and length read back");
    SM_ASSERT(gh_gothost.len == gh_reg[0].len && (!gh_gothost.len || off(gh_gothost) == gh_reg[0].pos) && gh_reg[0].data == gh_hostin.data, "the host reads back");
    if(have_info && info.len){
        SM_ASSERT(gh_gotinfo.len == info.len && off(gh_gotinfo) == gh_reg[1].pos && gh_reg[1].data == info.data, "the info reads back");
        SM_COVER("info");
    }else SM_ASSERT(gh_infobuf.len == 0, "no info");
    SM_COVER("read");
}
SM_HARNESS(p_name_any){
    dstr_t in = any_text();
    bool null = sm_bool();
    dstr_t a[2], b[3], f[5]; size_t na, nb = 0, nf = 0;
    uint64_t ver = 0, ep = 0, up = 0, local = 0, l = 0;
    bool ok = in.len >= 16 && words(in, ':', a, 2, &na, false);
    if(ok) words(a[0], '.', b, 3, &nb, true);
    ok = ok && nb == 3;
    if(ok) words(b[1], ',', f, 5, &nf, true);
    ok = ok && nf == 4 && number(f[0], N_U, &ver) && ver == 1 && number(b[0], N_U64, &ep) && number(f[1], N_U, &up) && number(f[2], N_U, &local) && !up != !local && number(f[3], N_SIZE, &l);
    gh_copyfail = false; gh_gothost = gh_gotinfo = (dstr_t){0};
    gh_hostbuf = (dstr_t){ .len = 7 }; gh_infobuf = (dstr_t){ .len = 7 };
    uint64_t e2; msg_key_t k2; size_t l2;
    derr_t e = null ? maildir_name_parse(&in, NULL, NULL, NULL, NULL, NULL) : maildir_name_parse(&in, &e2, &k2, &l2, &gh_hostbuf, &gh_infobuf);
    SM_ASSERT((e.type == E_NONE) == (ok && !gh_copyfail), "a name is accepted exactly if it is of the format");
    if(e.type){ SM_COVER("refused"); return; }
    if(null){ SM_COVER("validated"); return; }
    SM_ASSERT(e2 == ep && l2 == l && k2.uid_up == (unsigned)up && k2.uid_local == (unsigned)local, "the numbers of the name");
    SM_ASSERT(gh_gothost.data == b[2].data && gh_gothost.len == b[2].len, "the host of the name");
    if(na == 2) SM_ASSERT(gh_gotinfo.data == a[1].data && gh_gotinfo.len == a[1].len, "the info of the name");
    else SM_ASSERT(gh_infobuf.len == 0, "no info");
    SM_COVER("accepted");
}
#endif
#ifndef SM_CBMC
#include "libimaildir/libimaildir.h"
#include "libimaildir/log.h"
#include <stdio.h>
static int64_t any_i(void){ unsigned m = sm_u8() % 4; return m == 0 ? (int)sm_u32() : m == 1 ? (int)sm_u8() - 128 : m == 2 ? INT_MIN : 30; }
static uint64_t any_u(void){ unsigned m = sm_u8() % 4; return m == 0 ? sm_u64() : m == 1 ? sm_u8() : m == 2 ? UINT64_MAX : 0; }
// an oracle of its own: the format, by hand
static bool open_case;
static bool num_ok(const char *s, size_t n, bool sign, long double lo, long double hi, long double *v){
    size_t i = 0; bool neg = false; *v = 0;
    if(n && (s[0] == '+' || (s[0] == '-' && sign))){ neg = s[0] == '-'; i = 1; }
    if(i == n) return false;
    for(; i < n; i++){ if(s[i] < '0' || s[i] > '9') return false; *v = *v * 10 + (s[i] - '0'); if(*v > 1e25L) return false; }
    if(neg && *v == 0) open_case = true;   // (E02 leaves -0 open)
    if(neg) *v = -*v;
    return *v >= lo && *v <= hi;
}
static size_t cut(const char *s, size_t n, char c, const char **w, size_t *wn, size_t max, bool soft){
    size_t k = 0, a = 0;
    for(size_t i = 0;; i++) if(i == n || (s[i] == c && !(soft && k == max - 1))){
        if(k == max) return max + 1;
        w[k] = s + a; wn[k++] = i - a; a = i + 1;
        if(i == n) return k;
    }
}
SM_HARNESS(s_logrec){
    DSTR_VAR(out, 2048);
    open_case = false;
    unsigned what = sm_u8() % 5;
    msg_key_t key = { sm_bool() ? sm_u32() : 0, sm_bool() ? sm_u32() : 0 };
    msg_t m = {0}; msg_expunge_t x = {0}; derr_t e;
    m.uid_dn = (unsigned)any_u(); m.mod.modseq = any_u(); m.state = (msg_state_e)(const int[]){MSG_UNFILLED, MSG_FILLED, MSG_NOT4ME}[sm_u8() % 3];
    m.internaldate = (imap_time_t){ (int)any_i(), (int)any_i(), (int)any_i(), (int)any_i(), (int)any_i(), (int)any_i(), (int)any_i(), (int)any_i() };
    m.flags = (msg_flags_t){ .answered = sm_bool(), .flagged = sm_bool(), .seen = sm_bool(), .draft = sm_bool(), .deleted = sm_bool() };
    x.uid_dn = m.uid_dn; x.mod.modseq = m.mod.modseq; x.state = sm_bool() ? MSG_EXPUNGE_PUSHED : MSG_EXPUNGE_UNPUSHED;
    log_key_t k = { .type = (log_key_type_e)(sm_u8() % 4), .arg = { .msg_key = key } };
    DSTR_VAR(host, 64);
    for(size_t n = sm_u8() % 12; n; n--) host.data[host.len++] = "ab./:,057"[sm_u8() % 9];
    uint64_t epoch = 1000000000 + sm_u32(); size_t len = any_u();
    bool info = sm_bool();
    if(what == 0) e = marshal_message(&m, &out); else if(what == 1) e = marshal_expunge(&x, &out);
    else if(what == 2) e = log_key_marshal(&k, &out); else if(what == 3) e = marshal_uidvlds(key.uid_up, key.uid_local, &out);
    else e = maildir_name_write(&out, epoch, key, len, &host, info ? &DSTR_LIT("2,S") : NULL);
    SM_ASSERT(e.type == E_NONE, "can be written");
    bool mutated = sm_bool();
    if(mutated) for(size_t n = 1 + sm_u8() % 3; n; n--){
        size_t p = sm_range(0, out.len - 1); char c = "1:.,x0-+AaS|9\0mvhdeufn"[sm_u8() % 22];
        unsigned op = sm_u8() % 3;
        if(op == 0) out.data[p] = c;
        else if(op == 1 && out.len > 1){ memmove(out.data + p, out.data + p + 1, out.len - p - 1); out.len--; }
        else { memmove(out.data + p + 1, out.data + p, out.len - p); out.data[p] = c; out.len++; }
    }
    const char *w[9]; size_t wn[9]; long double u, ms, v, dt[8]; bool ok = true;
    // (exactly as long as it is)
    char *copy = malloc(out.len); memcpy(copy, out.data, out.len);
    dstr_t in = { .data = copy, .len = out.len, .size = out.len, .fixed_size = true };
    if(what < 2){
        size_t n = cut(in.data, in.len, ':', w, wn, 7, true);
        ok = (n == 4 || n == 6) && wn[0] == 1 && w[0][0] == '1' && num_ok(w[1], wn[1], false, 0, UINT_MAX, &u) && num_ok(w[2], wn[2], false, 0, UINT64_MAX, &ms) && wn[3] == 1;
        char st = ok ? w[3][0] : 0; bool live = st == 'u' || st == 'f' || st == 'n';
        ok = ok && (n == 6 ? live : st == 'e' || st == 'x');
        msg_flags_t f = {0};
        if(ok && n == 6){
            for(size_t i = 0; i < wn[4]; i++) switch(w[4][i] | 32){ case 'a': f.answered = 1; break; case 'f': f.flagged = 1; break; case 's': f.seen = 1; break; case 'd': f.draft = 1; break; case 'x': f.deleted = 1; break; default: ok = false; }
            for(size_t i = 0; i < wn[4]; i++) if(!((w[4][i] >= 'A' && w[4][i] <= 'Z') || (w[4][i] >= 'a' && w[4][i] <= 'z'))) ok = false;
            const char *d[9]; size_t dn[9];
            if(cut(w[5], wn[5], '.', d, dn, 8, false) != 8) ok = false;
            for(size_t i = 0; ok && i < 8; i++) ok = num_ok(d[i], dn[i], true, INT_MIN, INT_MAX, &dt[i]);
        }
        if(open_case){ free(copy); return; }
        msg_t *r; msg_expunge_t *y;
        e = parse_value(in, key, &r, &y);
        SM_ASSERT((e.type == E_NONE) == ok, "a record is accepted exactly if it is of the format");
        DROP_VAR(&e);
        if(ok && live){
            SM_ASSERT(r && !y && r->uid_dn == (unsigned)u && r->mod.modseq == (uint64_t)ms && r->state == (st == 'u' ? MSG_UNFILLED : st == 'f' ? MSG_FILLED : MSG_NOT4ME), "the record's numbers and state");
            SM_ASSERT(r->key.uid_up == key.uid_up && r->key.uid_local == key.uid_local, "key");
            SM_ASSERT(r->flags.answered == f.answered && r->flags.flagged == f.flagged && r->flags.seen == f.seen && r->flags.draft == f.draft && r->flags.deleted == f.deleted, "the record's flags");
            imap_time_t t = r->internaldate; int g[8] = { t.year, t.month, t.day, t.hour, t.min, t.sec, t.z_hour, t.z_min };
            for(int i = 0; i < 8; i++) SM_ASSERT(g[i] == (int)dt[i], "the record's date");
            if(!mutated) SM_ASSERT(what == 0 && r->uid_dn == m.uid_dn && r->mod.modseq == m.mod.modseq && r->state == m.state && !memcmp(&r->internaldate, &m.internaldate, sizeof(m.internaldate)), "reads back");
            msg_free(&r);
        }else if(ok){
            SM_ASSERT(!r && y && y->uid_dn == (unsigned)u && y->mod.modseq == (uint64_t)ms && y->state == (st == 'x' ? MSG_EXPUNGE_PUSHED : MSG_EXPUNGE_UNPUSHED), "the record's numbers and state");
            if(!mutated) SM_ASSERT(what == 1 && y->uid_dn == x.uid_dn && y->mod.modseq == x.mod.modseq && y->state == x.state, "reads back");
            msg_expunge_free(&y);
        }else SM_ASSERT(!r && !y, "nothing is returned for what is refused");
        if(!mutated) SM_ASSERT(ok, "reads back");
    }else if(what == 2){
        char c = in.len ? in.data[0] : 0; ok = in.len == 1 && (c == 'v' || c == 'h' || c == 'd');
        if(c == 'm') ok = cut(in.data, in.len, '.', w, wn, 3, false) == 3 && num_ok(w[1], wn[1], false, 0, UINT_MAX, &u) && num_ok(w[2], wn[2], false, 0, UINT_MAX, &v);
        log_key_t r; e = log_key_unmarshal(&in, &r);
        SM_ASSERT((e.type == E_NONE) == ok, "a key is accepted exactly if it is of the format");
        DROP_VAR(&e);
        if(ok && c == 'm') SM_ASSERT(r.type == LOG_KEY_MSG && r.arg.msg_key.uid_up == (unsigned)u && r.arg.msg_key.uid_local == (unsigned)v, "the numbers of the key");
        if(!mutated) SM_ASSERT(ok && r.type == k.type && (k.type != LOG_KEY_MSG || (r.arg.msg_key.uid_up == key.uid_up && r.arg.msg_key.uid_local == key.uid_local)), "reads back");
    }else if(what == 3){
        ok = cut(in.data, in.len, ':', w, wn, 3, true) == 2 && num_ok(w[0], wn[0], false, 0, UINT_MAX, &u) && num_ok(w[1], wn[1], false, 0, UINT_MAX, &v);
        unsigned a, b; e = parse_uidvlds(in, &a, &b);
        SM_ASSERT((e.type == E_NONE) == ok && (!ok || (a == (unsigned)u && b == (unsigned)v)), "two numbers");
        DROP_VAR(&e);
        if(!mutated) SM_ASSERT(ok && a == key.uid_up && b == key.uid_local, "reads back");
    }else{
        const char *a[3], *b[4], *f[6]; size_t an[3], bn[4], fn[6]; long double ver, ep, l; size_t na = 0;
        ok = in.len >= 16 && (na = cut(in.data, in.len, ':', a, an, 2, false)) <= 2 && cut(a[0], an[0], '.', b, bn, 3, true) == 3 && cut(b[1], bn[1], ',', f, fn, 5, true) == 4;
        ok = ok && num_ok(f[0], fn[0], false, 0, UINT_MAX, &ver) && ver == 1 && num_ok(b[0], bn[0], false, 0, UINT64_MAX, &ep) && num_ok(f[1], fn[1], false, 0, UINT_MAX, &u)
            && num_ok(f[2], fn[2], false, 0, UINT_MAX, &v) && (u != 0) != (v != 0) && num_ok(f[3], fn[3], false, 0, SIZE_MAX, &l);
        uint64_t ep2; msg_key_t k2; size_t l2; DSTR_VAR(h2, 512); DSTR_VAR(i2, 512);
        e = maildir_name_parse(&in, &ep2, &k2, &l2, &h2, &i2);
        SM_ASSERT((e.type == E_NONE) == ok, "a name is accepted exactly if it is of the format");
        DROP_VAR(&e);
        if(ok){
            SM_ASSERT(ep2 == (uint64_t)ep && k2.uid_up == (unsigned)u && k2.uid_local == (unsigned)v && l2 == (size_t)l, "the numbers of the name");
            SM_ASSERT(h2.len == bn[2] && !memcmp(h2.data, b[2], bn[2]), "the host of the name");
            SM_ASSERT(na == 2 ? i2.len == an[1] && !memcmp(i2.data, a[1], an[1]) : i2.len == 0, "the info of the name");
        }
        e = maildir_name_parse(&in, NULL, NULL, NULL, NULL, NULL);
        SM_ASSERT((e.type == E_NONE) == ok, "validation alone");
        DROP_VAR(&e);
        if(!mutated && !key.uid_up != !key.uid_local){
            SM_ASSERT(ok && ep2 == epoch && k2.uid_up == key.uid_up && k2.uid_local == key.uid_local && l2 == len && (i2.len > 0) == info, "reads back");
            for(size_t i = 0; i < h2.len; i++) SM_ASSERT(h2.data[i] != '/' && h2.data[i] != ':', "no slash or colon in the host");
        }
    }
    free(copy);
}
#endif
