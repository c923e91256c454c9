/* the mailbox log on disk: libimaildir/log_file.c.

   Files, the hashmap, the trees and the formats of keys and values (M01) are
   used by contract.  A file is a sequence of lines, any number of them; one
   key, the witness, is followed exactly. */
#include "sm.h"
#ifdef SM_CBMC
SM_DEFINE_ERRORS
#endif
#ifdef SM_PROOF
#include <stdio.h>
#include "libimaildir/libimaildir.h"
static bool gh_relines(FILE *f, hashmap_t *h);
static void sm_hv_relines(void);
static size_t gh_lines_left(void);
static hash_elem_t *sm_hv_elem(void);
static bool gh_rewrite(FILE *f, hash_elem_t *elem, uint64_t lines);
static void sm_hv_rewrite(void);
static size_t gh_elems_left(void);
static bool gh_empty(hash_elem_t *elem);
static void sm_hv_empty(void);
static bool gh_trunc(FILE *f, FILE *f2, long i);
static void sm_hv_trunc(void);
static char *l_fgets(char *s, int n, FILE *f);
static int l_ferror(FILE *f);
static int l_feof(FILE *f);
static int l_fclose(FILE *f);
static size_t l_strnlen(const char *s, size_t n);
static bool gh_oom;
static void *sm_malloc(size_t n){
    if(gh_oom) return NULL;
    void *p = malloc(n);
    SM_ASSUME(p != NULL);
    return p;
}
#define fgets l_fgets
#undef ferror
#define ferror l_ferror
#undef feof
#define feof l_feof
#define fclose l_fclose
#define strnlen l_strnlen
#define malloc sm_malloc
#define gh_lines(f, log, v, h) gh_lines_(f, &(log)->f, v, h)
typedef struct { uint64_t lines; unsigned int vup, vdn; uint64_t hi; } seen_t;
static bool gh_lines_(FILE *f, void *logf, long valid_len, uint64_t himodseq_dn);
// (log is a struct defined in the file itself)
#define sm_hv_lines(log, v, h) sm_hv_lines_(&(log)->lines, &(log)->updates, &(log)->uidvld_up, &(log)->uidvld_dn, &(log)->himodseq_up, v, h)
static void sm_hv_lines_(uint64_t *lines, uint64_t *updates, unsigned *vup, unsigned *vdn, uint64_t *hi, long *valid_len, uint64_t *himodseq_dn);
#include "libimaildir/log_file.c"
#undef malloc

void *dmalloc(derr_t *e, size_t n){
    void *p = sm_malloc(n);
    if(!p){ e->type = E_NOMEM; return NULL; }
    return p;
}
void dstr_free(dstr_t *d){ *d = (dstr_t){0}; }
#define FAIL(c) do { if(sm_bool()) return (derr_t){ .type = c }; } while(0)

/* ---- files */
static FILE gh_flog, gh_frd, gh_ftmp;        // the handles: for appending, for reading, for the new file
static bool gh_olog, gh_ord, gh_otmp;        // open
static bool gh_synced;                       // what was written last is on disk
static bool gh_renamed, gh_closedlog, gh_tmpmade;
static bool gh_complete(void);
static const string_builder_t gh_dir = {0};
static bool is_tmp(const string_builder_t *sb){
    SM_ASSERT(sb->prev == &gh_dir && !sb->next, "in our directory");
    const char *s = sb->arg.args.a.cptr;
    bool tmp = !strcmp(s, ".cache.tmp");
    SM_ASSERT(tmp || !strcmp(s, ".cache"), "one of our files");
    return tmp;
}
derr_type_t _sb_write_str(const string_builder_t *sb, writer_i *out){ (void)sb; (void)out; return E_NONE; }
string_builder_t sb_append(const string_builder_t *prev, string_builder_t sb){ sb.prev = prev; return sb; }
derr_t touch_path(const string_builder_t *sb){ SM_ASSERT(!is_tmp(sb), "the log exists"); FAIL(E_FS); return E_OK; }
derr_t dfopen_path(const string_builder_t *sb, const char *mode, FILE **out){
    bool tmp = is_tmp(sb);
    SM_ASSERT(mode[1] == 0 && (mode[0] == 'r' || mode[0] == 'w' || mode[0] == 'a'), "mode");
    if(mode[0] == 'w') SM_ASSERT(tmp, "the log itself is never overwritten");
    else SM_ASSERT(!tmp, "the log is read and appended to");
    FAIL(E_OPEN);
    if(mode[0] == 'r'){ SM_ASSERT(!gh_ord, "opened once"); gh_ord = true; *out = &gh_frd; }
    else if(mode[0] == 'w'){ SM_ASSERT(!gh_otmp, "opened once"); gh_otmp = true; gh_synced = false; gh_tmpmade = true; *out = &gh_ftmp; }
    else { SM_ASSERT(!gh_olog, "opened once"); gh_olog = true; *out = &gh_flog; }
    return E_OK;
}
static int l_fclose(FILE *f){
    if(f == &gh_flog){ SM_ASSERT(gh_olog, "an open file"); gh_olog = false; gh_closedlog = true; }
    else if(f == &gh_frd){ SM_ASSERT(gh_ord, "an open file"); gh_ord = false; }
    else { SM_ASSERT(f == &gh_ftmp && gh_otmp, "an open file"); gh_otmp = false; }
    return sm_bool() ? -1 : 0;
}
derr_t dffsync(FILE *f){
    SM_ASSERT(f == &gh_ftmp ? gh_otmp : f == &gh_flog && gh_olog, "an open file");
    FAIL(E_OS);
    gh_synced = true;
    return E_OK;
}
derr_t drename_atomic_path(const string_builder_t *src, const string_builder_t *dst){
    SM_ASSERT(is_tmp(src) && !is_tmp(dst), "the new file replaces the log");
    SM_ASSERT(gh_tmpmade && !gh_otmp && gh_synced, "after the new file is on disk");
    SM_ASSERT(!gh_olog, "while nothing is open for appending");
    SM_ASSERT(gh_complete(), "and complete");
    FAIL(E_FS);
    gh_renamed = true;
    return E_OK;
}
/* ---- reading lines */
static size_t gh_left;                       // lines left
static char *gh_bufp; static size_t gh_len;  // the line
static bool gh_eof, gh_ferr;
static size_t gh_keylen; static size_t gh_nf;    // where the first '|' is, if there is one
static bool gh_isw, gh_forget;               // it is the witness's; it is a value not kept
static uint64_t gh_id;                       // counts lines
static size_t gh_lines_left(void){ return gh_left; }
static bool complete(void){ return gh_len > 0 && gh_bufp[gh_len - 1] == '\n'; }
static void new_line(void);
static char *l_fgets(char *s, int n, FILE *f){
    SM_ASSERT(f == &gh_frd && gh_ord && n == 1024, "an open file, a buffer");
    SM_ASSERT(__CPROVER_w_ok(s, (size_t)n), "room for the line");
    gh_bufp = s;
    gh_ferr = sm_bool();
    gh_eof = sm_bool();
    if(gh_ferr || gh_left == 0) return NULL;
    gh_left--; gh_id++;
    gh_len = sm_range(0, 1023);
    SM_ASSUME(s[gh_len] == 0);
    gh_isw = sm_bool(); gh_forget = sm_bool();
    gh_nf = sm_bool() ? 2 : 1;
    if(gh_left) gh_eof = false;
    gh_keylen = sm_range(0, 1023);
    if(gh_nf == 2) SM_ASSUME(gh_len > 1 && gh_keylen < gh_len - 1);
    new_line();
    return s;
}
static int l_ferror(FILE *f){ SM_ASSERT(f == &gh_frd && gh_ord, "an open file"); return gh_ferr; }
static int l_feof(FILE *f){ SM_ASSERT(f == &gh_frd && gh_ord, "an open file"); return gh_eof; }
static size_t l_strnlen(const char *s, size_t n){ SM_ASSERT(s == gh_bufp && n >= 1024, "the line"); return gh_len; }
void _dstr_split2_soft(const dstr_t text, const dstr_t pattern, size_t *len, dstr_t **outs, size_t nouts){
    SM_ASSERT(text.data == gh_bufp && text.len == gh_len - 1 && complete(), "the whole line without its end");
    SM_ASSERT(pattern.len == 1 && pattern.data[0] == '|' && nouts == 2 && len, "key and value");
    *len = gh_nf;
    if(gh_nf == 2){
        *outs[0] = (dstr_t){ .data = gh_bufp, .len = gh_keylen, .size = gh_keylen, .fixed_size = true };
        *outs[1] = (dstr_t){ .data = gh_bufp + gh_keylen + 1, .len = gh_len - 2 - gh_keylen, .size = gh_len - 2 - gh_keylen, .fixed_size = true };
    }else{
        *outs[0] = text; *outs[1] = (dstr_t){0};
    }
}
static bool is_key(dstr_t d){ return gh_nf == 2 && d.data == gh_bufp && d.len == gh_keylen; }
static bool is_val(dstr_t d){ return gh_nf == 2 && d.data == gh_bufp + gh_keylen + 1 && d.len == gh_len - 2 - gh_keylen; }
bool dstr_eq(const dstr_t a, const dstr_t b){
    SM_ASSERT(is_val(a) && b.len == 7 && !memcmp(b.data, "1:0:0:x", 7), "the value is compared with the one not kept");
    return gh_forget;
}
/* ---- the map.  An element made from line k has key.size == val.size == k, and key.len == 1 if it is the witness's */
static bool gh_map; static map_str_str_t *gh_wit; static size_t gh_others;   // the witness's element; how many others
static uint64_t gh_want;                     // the line with the witness's value, if it has one
static map_str_str_t *gh_new;                // not in the map
static map_str_str_t *other(void){
    map_str_str_t *m = malloc(sizeof(*m));
    SM_ASSUME(m != NULL);
    *m = (map_str_str_t){ .key = { .size = sm_u64() }, .val = { .len = 0 } };
    m->val.size = m->key.size;
    return m;
}
derr_t hashmap_init(hashmap_t *h){ SM_ASSERT(!gh_map, "once"); FAIL(E_NOMEM); gh_map = true; *h = (hashmap_t){ .num_buckets = 7 }; return E_OK; }
static bool gh_mapfreed;
void hashmap_free(hashmap_t *h){ SM_ASSERT(!gh_wit && !gh_others, "the map is empty"); SM_ASSERT((h->num_buckets == 7) == gh_map, "the map"); gh_mapfreed = true; *h = (hashmap_t){0}; }
derr_t map_str_str_new(const dstr_t key, const dstr_t val, map_str_str_t **out){
    SM_ASSERT(is_key(key) && is_val(val), "the line's key and value");
    SM_ASSERT(!gh_new, "none is lost");
    FAIL(E_NOMEM);
    map_str_str_t *m = malloc(sizeof(*m));
    SM_ASSUME(m != NULL);
    *m = (map_str_str_t){ .key = { .size = gh_id, .len = gh_isw }, .val = { .size = gh_id } };
    gh_new = *out = m;
    return E_OK;
}
void map_str_str_free(map_str_str_t **old){
    map_str_str_t *m = *old;
    if(!m) return;
    SM_ASSERT(m != gh_wit, "what is in the map stays");
    if(m == gh_new) gh_new = NULL;
    free(m);
    *old = NULL;
}
hash_elem_t *hashmap_sets(hashmap_t *h, const dstr_t *key, hash_elem_t *elem){
    map_str_str_t *m = CONTAINER_OF(elem, map_str_str_t, elem);
    SM_ASSERT(h->num_buckets == 7 && gh_map && m == gh_new && key == &m->key, "a new element under its key");
    gh_new = NULL;
    if(m->key.len){
        map_str_str_t *old = gh_wit;
        gh_wit = m;
        return old ? &old->elem : NULL;
    }
    if(gh_others && sm_bool()) return &other()->elem;
    SM_ASSUME(gh_others < SM_HUGE);
    gh_others++;
    return NULL;
}
hash_elem_t *hashmap_dels(hashmap_t *h, const dstr_t *key){
    SM_ASSERT(h->num_buckets == 7 && gh_map && is_key(*key), "the line's key");
    if(gh_isw){
        map_str_str_t *old = gh_wit;
        gh_wit = NULL;
        return old ? &old->elem : NULL;
    }
    if(gh_others && sm_bool()){ gh_others--; return &other()->elem; }
    return NULL;
}
static hash_elem_t *gh_cur;
hash_elem_t *hashmap_pop_next(hashmap_trav_t *trav){
    (void)trav;
    map_str_str_t *m = NULL;
    if(gh_wit && (!gh_others || sm_bool())){ m = gh_wit; gh_wit = NULL; }
    else if(gh_others){ gh_others--; m = other(); }
    gh_cur = m ? &m->elem : NULL;
    return gh_cur;
}
hash_elem_t *hashmap_pop_iter(hashmap_trav_t *trav, hashmap_t *h){
    *trav = (hashmap_trav_t){ .hashmap = h };
    return hashmap_pop_next(trav);
}
static void sm_line_read(void);
static bool gh_incomplete;
static void new_line(void){
    if(complete() && gh_nf == 2 && gh_isw) gh_want = gh_forget ? 0 : gh_id;
    if(!complete()) gh_incomplete = true;
    sm_line_read();
}
static bool wit_ok(void){ return gh_want <= gh_id && (gh_wit != NULL) == (gh_want != 0) && (!gh_wit || (gh_wit->key.len == 1 && gh_wit->key.size == gh_want && gh_wit->val.size == gh_want)); }
static map_str_str_t *any_wit(void){
    if(sm_bool()) return NULL;
    map_str_str_t *m = other();
    m->key.len = 1;
    return m;
}
static bool gh_relines(FILE *f, hashmap_t *h){
    return f == &gh_frd && gh_ord && gh_map && h->num_buckets == 7 && !gh_new && gh_id < SM_HUGE && !gh_incomplete && wit_ok();
}
static void sm_hv_relines(void){
    SM_MOD(gh_left) SM_MOD(gh_id) SM_MOD(gh_want) SM_MOD(gh_others) SM_MODPTR(gh_wit, any_wit()) SM_MODPTR(gh_new, NULL)
    SM_MOD(gh_len) SM_MOD(gh_keylen) SM_MOD(gh_nf) SM_MODB(gh_isw) SM_MODB(gh_forget) SM_MODB(gh_eof) SM_MODB(gh_ferr)
    SM_MODPTR(gh_bufp, NULL) SM_MODB(gh_incomplete)
    // (the file has fewer lines than that)
    SM_ASSUME(gh_id < SM_HUGE && gh_left < SM_HUGE - gh_id);
}
/* ---- writing lines */
static unsigned gh_st; static dstr_t gh_key;                     // in a line
static uint64_t gh_nout, gh_wout; static uint64_t gh_wid;        // lines written; of the witness; which
static bool gh_bad;                                              // writing failed
static size_t gh_elems_left(void){ return gh_others + (gh_wit ? 1 : 0); }
static hash_elem_t *gh_hv;
static hash_elem_t *sm_hv_elem(void){ gh_hv = &other()->elem; return gh_hv; }
static bool is_cur(hash_elem_t *elem){ return elem != NULL && elem == gh_cur; }
// the witness's element is in the map, or is the one at hand, or has been written
static bool gh_rewrite(FILE *f, hash_elem_t *elem, uint64_t lines){
    map_str_str_t *m = CONTAINER_OF(elem, map_str_str_t, elem);
    bool w = m && m->key.len != 0;
    return f == &gh_ftmp && gh_otmp && !gh_synced && !gh_bad && gh_st == 0 && is_cur(elem) && lines == gh_nout && m->key.size == m->val.size && m->key.len <= 1
        && (!gh_wit || (gh_wit->key.len == 1 && gh_wit->key.size == gh_want && gh_wit->val.size == gh_want)) && (!w || m->key.size == gh_want)
        && (gh_wit ? 1u : 0u) + w + gh_wout == (gh_want != 0) && (!gh_wout || gh_wid == gh_want);
}
static void sm_hv_rewrite(void){
    SM_MOD(gh_others) SM_MODPTR(gh_wit, any_wit()) SM_MODPTR(gh_cur, gh_hv) SM_MOD(gh_nout) SM_MOD(gh_wout) SM_MOD(gh_wid) SM_MOD(gh_key) SM_MOD(gh_st) SM_MODB(gh_bad) SM_MODB(gh_synced)
    SM_MODPTR(gh_new, NULL)
    SM_ASSUME(gh_others < SM_HUGE);
    if(sm_bool()) CONTAINER_OF(gh_hv, map_str_str_t, elem)->key.len = 1;
}
static bool gh_empty(hash_elem_t *elem){ return is_cur(elem) && elem != (gh_wit ? &gh_wit->elem : NULL); }
static void sm_hv_empty(void){
    SM_MOD(gh_others) SM_MODPTR(gh_wit, any_wit()) SM_MODPTR(gh_cur, gh_hv) SM_MODPTR(gh_new, NULL)
    SM_ASSUME(gh_others < SM_HUGE);
}
static void put_part(char type, uintmax_t u, const dstr_t *d, const void *p);
static void put_file(char c, const dstr_t *d){
    SM_ASSERT(gh_otmp && !gh_bad, "an open file; nothing after a failure");
    gh_synced = false;
    if(gh_st == 0){ SM_ASSERT(d != NULL, "a line begins with a key"); gh_key = *d; gh_st = 1; }
    else if(gh_st == 1){ SM_ASSERT(!d && c == '|', "key|value"); gh_st = 2; }
    else if(gh_st == 2){ SM_ASSERT(d && d->size == gh_key.size, "the key's value"); gh_st = 3; }
    else { SM_ASSERT(!d && c == '\n', "end of line"); gh_st = 0; gh_nout++; if(gh_key.len){ gh_wout++; gh_wid = gh_key.size; } }
}
derr_t _fmt(writer_i *iface, const char *fstr, const fmt_i **args, size_t nargs){
    bool file = iface->w == &_writer_file;
    if(file) SM_ASSERT(((_writer_file_t*)iface)->out == &gh_ftmp, "lines are written to the new file");
    else SM_ASSERT(iface->w == &_writer_dstr, "a file or a string");
    size_t k = 0;
    for(size_t i = 0; fstr[i]; i++){
        if(fstr[i] != '%'){ if(file) put_file(fstr[i], NULL); else put_part(fstr[i], 0, NULL, ((_writer_dstr_t*)iface)->out); continue; }
        i++;
        SM_ASSERT(fstr[i] == 'x' && k < nargs, "one argument for each mark");
        const fmt_i *a = args[k++];
        if(a->fmt == _fmt_dstr && file) put_file(0, &((const _fmt_dstr_t*)a)->d);
        else { SM_ASSERT(a->fmt == _fmt_uint && !file, "numbers and strings"); put_part('#', ((const _fmt_uint_t*)a)->u, NULL, ((_writer_dstr_t*)iface)->out); }
    }
    SM_ASSERT(k == nargs, "one mark for each argument");
    if(sm_bool()){ gh_bad = true; return (derr_t){ .type = E_OS }; }
    return E_OK;
}
static bool gh_compacting; static size_t gh_size; static long gh_valid; static size_t gh_copied;
static bool gh_complete(void){
    if(gh_compacting) return gh_st == 0 && !gh_bad && !gh_wit && !gh_others && gh_wout == (gh_want != 0) && (!gh_wout || gh_wid == gh_want);
    return gh_copied == (size_t)gh_valid;
}
static void init(void){
    gh_olog = gh_ord = gh_otmp = gh_synced = gh_renamed = gh_closedlog = gh_tmpmade = gh_bad = gh_map = gh_mapfreed = gh_oom = gh_incomplete = false;
    gh_wit = gh_new = NULL; gh_others = 0; gh_want = 0; gh_id = 0; gh_st = 0; gh_nout = gh_wout = gh_wid = 0; gh_cur = NULL;
    gh_left = sm_len(0);
    SM_ASSUME(gh_left < SM_HUGE);
}
#if P_UNIT == 1
SM_HARNESS(p_compact){
    init();
    gh_compacting = true; gh_olog = true;
    log_t log = { .dirpath = &gh_dir, .f = &gh_flog, .lines = sm_u64(), .updates = sm_u64(), .uidvld_up = sm_u32(), .uidvld_dn = sm_u32(), .himodseq_up = sm_u64() }, was = log;
    derr_t e = maybe_compact(&log);
    SM_ASSERT(log.uidvld_up == was.uidvld_up && log.uidvld_dn == was.uidvld_dn && log.himodseq_up == was.himodseq_up && log.dirpath == &gh_dir, "what is remembered stays");
    SM_ASSERT(!gh_ord && !gh_otmp && (log.f ? log.f == &gh_flog && gh_olog : !gh_olog), "no handle is lost or used after it is closed");
    if(!gh_closedlog){
        SM_ASSERT(e.type == E_NONE && !gh_renamed && log.f && log.lines == was.lines && log.updates == was.updates, "nothing to do");
        SM_COVER("not yet");
        return;
    }
    SM_ASSERT(gh_mapfreed && !gh_wit && !gh_others && !gh_new, "everything is freed");
    if(e.type){ if(gh_renamed) SM_COVER("reopening failed"); else SM_COVER("the log is as it was"); return; }
    SM_ASSERT(gh_renamed && log.f, "the new log is in place and open");
    SM_ASSERT(log.lines == gh_nout && log.updates == 0, "its lines are counted");
    // (and gh_complete was true when it was put in place)
    if(gh_want) SM_COVER("with the witness"); else SM_COVER("without it");
}
#endif
#if P_UNIT != 3
static void put_part(char type, uintmax_t u, const dstr_t *d, const void *p){ SM_ASSERT(0, "nothing is appended here"); }
#endif
#if P_UNIT == 2
/* ---- reading all keys.  The witness is a message key */
static msg_key_t gh_K;
static jsw_atree_t gh_msgs, gh_exps, gh_mods;
static msg_t *gh_m; static msg_expunge_t *gh_x; static bool gh_wmod;     // the witness's entries
static msg_t *gh_wm; static msg_expunge_t *gh_wx;                        // what it should be
static log_key_t gh_lk;                                                  // the key of this line
static msg_mod_t *gh_er; static bool gh_ermod;                           // erased, in this line; its modseq too
static msg_t *gh_pm; static msg_expunge_t *gh_px;                        // of this line, not freed
static uint64_t gh_n, gh_hi, gh_dmax; static unsigned gh_vup, gh_vdn; static long gh_sum;
static bool is_wit(msg_key_t k){ return k.uid_up == gh_K.uid_up && k.uid_local == gh_K.uid_local; }
static bool lk_wit(void){ return is_wit(gh_lk.arg.msg_key); }
derr_t log_key_unmarshal(const dstr_t *key, log_key_t *lk){
    SM_ASSERT(is_key(*key), "the line's key");
    *lk = (log_key_t){0};
    FAIL(E_VALUE);
    lk->type = (log_key_type_e)sm_range(0, 3);
    lk->arg.msg_key = (msg_key_t){ sm_u32(), sm_u32() };
    gh_lk = *lk;
    gh_er = NULL; gh_ermod = false; gh_pm = NULL; gh_px = NULL;
    return E_OK;
}
derr_t parse_uidvlds(const dstr_t in, unsigned int *up, unsigned int *dn){
    SM_ASSERT(is_val(in) && gh_lk.type == LOG_KEY_UIDVLDS, "the line's value");
    *up = *dn = 0;
    FAIL(E_PARAM);
    *up = gh_vup = sm_u32(); *dn = gh_vdn = sm_u32();
    return E_OK;
}
derr_t dstr_tou64(const dstr_t *in, uint64_t *out, int base){
    SM_ASSERT(is_val(*in) && base == 10 && (gh_lk.type == LOG_KEY_HIMODSEQUP || gh_lk.type == LOG_KEY_MODSEQDN), "the line's value");
    *out = 0;
    FAIL(E_PARAM);
    *out = sm_u64();
    if(gh_lk.type == LOG_KEY_HIMODSEQUP) gh_hi = *out; else gh_dmax = MAX(gh_dmax, *out);
    return E_OK;
}
static msg_t *new_msg(msg_key_t k){
    msg_t *m = malloc(sizeof(*m));
    SM_ASSUME(m != NULL);
    *m = (msg_t){ .key = k, .uid_dn = sm_u32(), .state = (msg_state_e)sm_range(0, 2), .mod = { .modseq = sm_u64(), .type = MOD_TYPE_MESSAGE } };
    return m;
}
static msg_expunge_t *new_exp(msg_key_t k){
    msg_expunge_t *x = malloc(sizeof(*x));
    SM_ASSUME(x != NULL);
    *x = (msg_expunge_t){ .key = k, .uid_dn = sm_u32(), .state = (msg_expunge_state_e)sm_range(0, 1), .mod = { .modseq = sm_u64(), .type = MOD_TYPE_EXPUNGE } };
    return x;
}
derr_t parse_value(const dstr_t in, msg_key_t key, msg_t **msg, msg_expunge_t **expunge){
    SM_ASSERT(is_val(in) && gh_lk.type == LOG_KEY_MSG && key.uid_up == gh_lk.arg.msg_key.uid_up && key.uid_local == gh_lk.arg.msg_key.uid_local, "the line's key and value");
    SM_ASSERT(!lk_wit() || (!gh_m && !gh_x), "what came before under that key is gone");
    *msg = NULL; *expunge = NULL;
    FAIL(E_PARAM);
    if(sm_bool()) *msg = gh_pm = new_msg(key); else *expunge = gh_px = new_exp(key);
    if(lk_wit()){ gh_wm = gh_pm; gh_wx = gh_px && !(gh_px->uid_dn == 0 && gh_px->mod.modseq == 0) ? gh_px : NULL; }
    return E_OK;
}
jsw_anode_t *jsw_aerase(jsw_atree_t *tree, const void *key){
    if(tree == &gh_mods){
        if(gh_er && *(const uint64_t*)key == gh_er->modseq) gh_ermod = true;
        return NULL;
    }
    msg_key_t k = *(const msg_key_t*)key;
    SM_ASSERT(k.uid_up == gh_lk.arg.msg_key.uid_up && k.uid_local == gh_lk.arg.msg_key.uid_local, "the line's key");
    SM_ASSERT(!gh_er && !gh_pm && !gh_px, "erased before the new value is made");
    if(tree == &gh_msgs){
        msg_t *m = lk_wit() ? gh_m : sm_bool() ? new_msg(k) : NULL;
        if(lk_wit()) gh_m = NULL;
        if(m) gh_er = &m->mod;
        return m ? &m->node : NULL;
    }
    SM_ASSERT(tree == &gh_exps, "one of our trees");
    msg_expunge_t *x = lk_wit() ? gh_x : sm_bool() ? new_exp(k) : NULL;
    if(lk_wit()) gh_x = NULL;
    if(x) gh_er = &x->mod;
    return x ? &x->node : NULL;
}
void msg_free(msg_t **msg){
    msg_t *m = *msg;
    if(!m) return;
    SM_ASSERT(m != gh_m, "what is in the tree stays");
    SM_ASSERT(gh_er != &m->mod || m->mod.modseq == 0 || gh_ermod, "no modseq of a freed message is left");
    if(gh_er == &m->mod && lk_wit()) gh_wmod = false;
    if(m == gh_pm) gh_pm = NULL;
    free(m); *msg = NULL;
}
void msg_expunge_free(msg_expunge_t **expunge){
    msg_expunge_t *x = *expunge;
    if(!x) return;
    SM_ASSERT(x != gh_x, "what is in the tree stays");
    SM_ASSERT(gh_er != &x->mod || x->mod.modseq == 0 || gh_ermod, "no modseq of a freed expunge is left");
    if(gh_er == &x->mod && lk_wit()) gh_wmod = false;
    if(x == gh_px) gh_px = NULL;
    free(x); *expunge = NULL;
}
void jsw_ainsert(jsw_atree_t *tree, jsw_anode_t *node){
    if(tree == &gh_msgs){
        msg_t *m = CONTAINER_OF(node, msg_t, node);
        SM_ASSERT(m == gh_pm, "the line's message");
        if(lk_wit()) gh_m = m;
    }else if(tree == &gh_exps){
        msg_expunge_t *x = CONTAINER_OF(node, msg_expunge_t, node);
        SM_ASSERT(x == gh_px, "the line's expunge");
        if(lk_wit()) gh_x = x;
    }else{
        SM_ASSERT(tree == &gh_mods, "one of our trees");
        msg_mod_t *mod = CONTAINER_OF(node, msg_mod_t, node);
        SM_ASSERT((gh_pm && mod == &gh_pm->mod) || (gh_px && mod == &gh_px->mod), "the line's modseq");
        SM_ASSERT(mod->modseq != 0, "zero is no modseq");
        if(lk_wit()) gh_wmod = true;
    }
}
static msg_mod_t gh_last; static bool gh_haslast;
jsw_anode_t *jsw_atlast(jsw_atrav_t *trav, jsw_atree_t *tree){
    (void)trav;
    SM_ASSERT(tree == &gh_mods, "the modseqs");
    gh_haslast = gh_wmod || sm_bool();
    if(!gh_haslast) return NULL;
    gh_last.modseq = sm_u64();
    if(gh_wmod) SM_ASSUME(gh_last.modseq >= (gh_m ? gh_m->mod.modseq : gh_x->mod.modseq));
    return &gh_last.node;
}
static uint64_t wmodseq(void){ return gh_m ? gh_m->mod.modseq : gh_x ? gh_x->mod.modseq : 0; }
static bool wit2(void){
    return gh_m == gh_wm && gh_x == gh_wx && (!gh_m || (!gh_x && is_wit(gh_m->key))) && (!gh_x || is_wit(gh_x->key))
        && gh_wmod == (wmodseq() != 0) && (!gh_m || (gh_m->mod.modseq != 0) == (gh_m->state == MSG_FILLED));
}
static log_t *gh_log;
static bool gh_lines_(FILE *f, void *logf, long valid_len, uint64_t himodseq_dn){
    return f == &gh_frd && gh_ord && valid_len == gh_sum && valid_len >= 0 && valid_len <= (long)gh_id * 1024 && gh_id < SM_HUGE && !gh_incomplete && himodseq_dn == MAX(1, gh_dmax) && wit2()
        && gh_log->lines == gh_n && gh_log->uidvld_up == gh_vup && gh_log->uidvld_dn == gh_vdn && gh_log->himodseq_up == gh_hi;
}
static void sm_hv_lines_(uint64_t *lines, uint64_t *updates, unsigned *vup, unsigned *vdn, uint64_t *hi, long *valid_len, uint64_t *himodseq_dn){
    SM_MOD(gh_left) SM_MOD(gh_id) SM_MOD(gh_want) SM_MOD(gh_len) SM_MOD(gh_keylen) SM_MOD(gh_nf) SM_MODB(gh_isw) SM_MODB(gh_forget) SM_MODB(gh_eof) SM_MODB(gh_ferr)
    SM_MODPTR(gh_bufp, NULL) SM_MODB(gh_incomplete)
    SM_MODPTR(gh_m, (sm_bool() ? new_msg(gh_K) : NULL)) SM_MODPTR(gh_x, (gh_m || sm_bool() ? NULL : new_exp(gh_K))) SM_MODPTR(gh_wm, gh_m) SM_MODPTR(gh_wx, gh_x) SM_MODB(gh_wmod)
    SM_MOD(gh_lk) SM_MODPTR(gh_er, NULL) SM_MODB(gh_ermod) SM_MODPTR(gh_pm, NULL) SM_MODPTR(gh_px, NULL)
    SM_MOD(gh_n) SM_MOD(gh_hi) SM_MOD(gh_dmax) SM_MOD(gh_vup) SM_MOD(gh_vdn) SM_MOD(gh_sum)
    SM_ASSUME(gh_id < SM_HUGE && gh_left < SM_HUGE - gh_id);
    *lines = sm_u64(); *updates = sm_u64(); *vup = sm_u32(); *vdn = sm_u32(); *hi = sm_u64(); *valid_len = (long)sm_u64(); *himodseq_dn = sm_u64();
}
static void sm_line_read(void){ if(complete()){ gh_sum += (long)gh_len; gh_n++; } }
SM_HARNESS(p_read){
    init();
    gh_K = (msg_key_t){ sm_u32(), sm_u32() };
    gh_m = gh_wm = NULL; gh_x = gh_wx = NULL; gh_wmod = false; gh_er = NULL; gh_pm = NULL; gh_px = NULL;
    gh_n = gh_hi = gh_dmax = 0; gh_vup = gh_vdn = 0; gh_sum = 0;
    gh_ord = true;
    log_t log = { .dirpath = &gh_dir };
    gh_log = &log;
    uint64_t hi; long valid; bool trunc;
    derr_t e = read_all_keys(&log, &gh_frd, &gh_msgs, &gh_exps, &gh_mods, &hi, &valid, &trunc);
    SM_ASSERT(gh_ord && !gh_olog && !gh_otmp && !gh_renamed, "reading changes nothing");
    if(e.type){ SM_COVER("refused"); return; }
    SM_ASSERT(wit2(), "the key has exactly the last value under it");
    SM_ASSERT(log.uidvld_up == gh_vup && log.uidvld_dn == gh_vdn && log.himodseq_up == gh_hi, "the last values are remembered");
    SM_ASSERT(hi == MAX(MAX(1, gh_dmax), gh_haslast ? gh_last.modseq : 0), "highest modseq");
    SM_ASSERT(hi >= wmodseq(), "no lower than that of any message");
    SM_ASSERT(log.lines == gh_n && valid == gh_sum, "the complete lines are counted");
    SM_ASSERT(trunc == gh_incomplete && gh_left == 0, "an incomplete last line, and nothing else, is to be cut off");
    if(gh_m) SM_COVER("a message"); if(gh_x) SM_COVER("an expunge"); if(!gh_m && !gh_x) SM_COVER("nothing");
    if(trunc) SM_COVER("cut off");
}
#else
static bool gh_lines_(FILE *f, void *logf, long valid_len, uint64_t himodseq_dn){ return true; }
static void sm_hv_lines_(uint64_t *lines, uint64_t *updates, unsigned *vup, unsigned *vdn, uint64_t *hi, long *valid_len, uint64_t *himodseq_dn){ }
static void sm_line_read(void){}
#endif
#if P_UNIT == 3
/* ---- appending */
static unsigned gh_p;                // parts of the line
static struct { char type; uintmax_t u; const void *p; log_key_t lk; } gh_part[8];
static bool gh_pfail; static dstr_t *gh_out;
static void put(char type, uintmax_t u, const void *p, log_key_t lk, dstr_t *out){
    SM_ASSERT(gh_p < 8 && !gh_pfail, "nothing after a failure");
    if(!gh_p) gh_out = out;
    SM_ASSERT(gh_out == out && out->size == 1024 && out->fixed_size, "one line");
    gh_part[gh_p].type = type; gh_part[gh_p].u = u; gh_part[gh_p].p = p; gh_part[gh_p++].lk = lk;
    out->len = gh_p;
}
static void put_part(char type, uintmax_t u, const dstr_t *d, const void *p){ put(type, u, NULL, (log_key_t){0}, (dstr_t*)p); }
#define PFAIL do { if(sm_bool()){ gh_pfail = true; return (derr_t){ .type = E_FIXEDSIZE }; } } while(0)
derr_t log_key_marshal(log_key_t *lk, dstr_t *out){ put('K', 0, NULL, *lk, out); PFAIL; return E_OK; }
derr_t marshal_message(const msg_t *msg, dstr_t *out){ put('M', 0, msg, (log_key_t){0}, out); PFAIL; return E_OK; }
derr_t marshal_expunge(const msg_expunge_t *x, dstr_t *out){ put('X', 0, x, (log_key_t){0}, out); PFAIL; return E_OK; }
derr_t dstr_append(dstr_t *out, const dstr_t *d){ SM_ASSERT(d->len == 1, "one char"); put(d->data[0], 0, NULL, (log_key_t){0}, out); PFAIL; return E_OK; }
static unsigned gh_nwritten; static bool gh_wfail, gh_compacted, gh_cfail;
derr_t dstr_fwrite(FILE *f, const dstr_t *buf){
    SM_ASSERT(f == &gh_flog && gh_olog && buf == gh_out && buf->len == gh_p, "the line is written to the log");
    SM_ASSERT(!gh_pfail && !gh_bad && !gh_nwritten, "once, if it is complete");
    gh_synced = false;
    gh_nwritten++;
    if(sm_bool()){ gh_wfail = true; return (derr_t){ .type = E_OS }; }
    return E_OK;
}
static log_t *gh_log; static log_t gh_was;
derr_t c_maybe_compact(log_t *log){
    SM_ASSERT(log == gh_log && gh_nwritten == 1 && gh_synced && !gh_wfail && !gh_compacted, "once, after the line is on disk");
    SM_ASSERT(log->lines == gh_was.lines + 1 && log->updates == gh_was.updates + 1, "the line is counted");
    gh_compacted = true;
    gh_cfail = sm_bool();
    if(gh_cfail){ log->f = NULL; return (derr_t){ .type = E_OS }; }
    return E_OK;
}
static bool is_line(log_key_type_e type, const char *rest){
    size_t n = strlen(rest);
    if(gh_p != n + 1 || gh_part[0].type != 'K' || gh_part[0].lk.type != type) return false;
    for(size_t i = 0; i < n; i++) if(gh_part[i + 1].type != rest[i]) return false;
    return true;
}
static bool key_is(msg_key_t k){ return gh_part[0].lk.arg.msg_key.uid_up == k.uid_up && gh_part[0].lk.arg.msg_key.uid_local == k.uid_local; }
SM_HARNESS(p_append){
    init();
    gh_olog = true; gh_p = 0; gh_pfail = gh_wfail = gh_compacted = gh_cfail = false; gh_nwritten = 0; gh_out = NULL;
    log_t log = { .dirpath = &gh_dir, .f = &gh_flog, .lines = sm_u64(), .updates = sm_u64(), .uidvld_up = sm_u32(), .uidvld_dn = sm_u32(), .himodseq_up = sm_u64() };
    gh_was = log; gh_log = &log;
    unsigned a = sm_u32(), b = sm_u32(); uint64_t u = sm_u64(); unsigned what = sm_u8() % 5;
    msg_t m = { .key = { sm_u32(), sm_u32() } }; msg_expunge_t x = { .key = { sm_u32(), sm_u32() } };
    derr_t e = what == 0 ? set_uidvlds(&log.iface, a, b) : what == 1 ? set_himodseq_up(&log.iface, u) : what == 2 ? set_explicit_modseq_dn(&log.iface, u) : what == 3 ? update_msg(&log.iface, &m) : update_expunge(&log.iface, &x);
    if(gh_nwritten){
        if(what == 0) SM_ASSERT(is_line(LOG_KEY_UIDVLDS, "|#:#\n") && gh_part[2].u == a && gh_part[4].u == b, "the UID validities");
        if(what == 1) SM_ASSERT(is_line(LOG_KEY_HIMODSEQUP, "|#\n") && gh_part[2].u == u, "the highest modseq from above");
        if(what == 2) SM_ASSERT(is_line(LOG_KEY_MODSEQDN, "|#\n") && gh_part[2].u == u, "the modseq given out");
        if(what == 3) SM_ASSERT(is_line(LOG_KEY_MSG, "|M\n") && key_is(m.key) && gh_part[2].p == &m, "the message under its key");
        if(what == 4) SM_ASSERT(is_line(LOG_KEY_MSG, "|X\n") && key_is(x.key) && gh_part[2].p == &x, "the expunge under its key");
    }
    if(e.type == E_NONE) SM_ASSERT(gh_nwritten == 1 && gh_synced && gh_compacted && !gh_wfail && !gh_cfail, "success means the line is on disk");
    if(gh_compacted && !gh_cfail) SM_ASSERT(e.type == E_NONE, "and it succeeds then");
    SM_ASSERT(log.uidvld_up == (what == 0 ? a : gh_was.uidvld_up) && log.uidvld_dn == (what == 0 ? b : gh_was.uidvld_dn) && log.himodseq_up == (what == 1 ? u : gh_was.himodseq_up), "what is remembered");
    SM_ASSERT(get_uidvld_up(&log.iface) == log.uidvld_up && get_uidvld_dn(&log.iface) == log.uidvld_dn && get_himodseq_up(&log.iface) == log.himodseq_up, "can be asked");
    if(e.type == E_NONE) SM_COVER("written"); else SM_COVER("failed");
}
#endif
#if P_UNIT == 4
/* ---- opening */
uint8_t __CPROVER_uninterpreted_fb(uint64_t pos);
static size_t gh_pos; static bool gh_want_trunc, gh_read;
static jsw_atree_t gh_msgs, gh_exps, gh_mods; static uint64_t gh_hi;
static log_t *gh_log;
derr_t c_read_all_keys(log_t *log, FILE *f, jsw_atree_t *msgs, jsw_atree_t *expunged, jsw_atree_t *mods, uint64_t *himodseq_dn, long *valid_len, bool *want_trunc){
    SM_ASSERT(f == &gh_frd && gh_ord && !gh_read && msgs == &gh_msgs && expunged == &gh_exps && mods == &gh_mods && himodseq_dn == &gh_hi, "the caller's trees");
    SM_ASSERT(log->lines == 0 && log->updates == 0 && log->uidvld_up == 0 && log->uidvld_dn == 0 && log->himodseq_up == 0 && log->dirpath == &gh_dir && !log->f, "nothing is known yet");
    gh_read = true;
    gh_log = log;
    *himodseq_dn = sm_u64(); *valid_len = 0; *want_trunc = false;
    FAIL(E_PARAM);
    *valid_len = gh_valid = (long)sm_len(0);
    *want_trunc = gh_want_trunc = sm_bool();
    gh_size = sm_len(0);
    SM_ASSUME(gh_size >= (size_t)gh_valid);
    gh_pos = gh_size;
    return E_OK;
}
derr_t dfseek(FILE *f, long offset, int whence){
    SM_ASSERT(f == &gh_frd && gh_ord && offset == 0 && whence == SEEK_SET, "to the beginning");
    FAIL(E_OS);
    gh_pos = 0;
    return E_OK;
}
derr_t dfgetc(FILE *f, int *c){
    SM_ASSERT(f == &gh_frd && gh_ord, "an open file");
    FAIL(E_OS);
    *c = gh_pos < gh_size ? __CPROVER_uninterpreted_fb(gh_pos++) : EOF;
    return E_OK;
}
derr_t dfputc(FILE *f, int c){
    SM_ASSERT(f == &gh_ftmp && gh_otmp && c == __CPROVER_uninterpreted_fb(gh_copied), "the same byte");
    gh_synced = false;
    FAIL(E_OS);
    gh_copied++;
    return E_OK;
}
static bool gh_trunc(FILE *f, FILE *f2, long i){ return f == &gh_frd && f2 == &gh_ftmp && gh_ord && gh_otmp && gh_pos == (size_t)i && gh_copied == (size_t)i; }
static void sm_hv_trunc(void){ SM_MOD(gh_pos) SM_MOD(gh_copied) SM_MODB(gh_synced) }
SM_HARNESS(p_open){
    init();
    gh_compacting = false; gh_pos = gh_copied = 0; gh_valid = 0; gh_want_trunc = gh_read = false; gh_oom = sm_bool();
    maildir_log_i *iface;
    uint64_t hi;
    derr_t e = imaildir_log_open(&gh_dir, &gh_msgs, &gh_exps, &gh_mods, &gh_hi, &iface);
    SM_ASSERT(!gh_ord && !gh_otmp, "no handle is lost");
    SM_ASSERT(!gh_renamed || gh_want_trunc, "the log is replaced only to cut off an incomplete line");
    if(e.type){ SM_ASSERT(!iface && !gh_olog, "nothing is open on failure"); if(gh_renamed) SM_COVER("reopening failed"); else SM_COVER("failed"); return; }
    SM_ASSERT(gh_read && gh_renamed == gh_want_trunc && !gh_oom, "read, and an incomplete line cut off");
    SM_ASSERT(iface == &gh_log->iface && gh_log->f == &gh_flog && gh_olog, "open for appending");
    SM_ASSERT(iface->get_uidvld_up == get_uidvld_up && iface->get_uidvld_dn == get_uidvld_dn && iface->set_uidvlds == set_uidvlds && iface->get_himodseq_up == get_himodseq_up
        && iface->set_himodseq_up == set_himodseq_up && iface->set_explicit_modseq_dn == set_explicit_modseq_dn && iface->update_msg == update_msg && iface->update_expunge == update_expunge && iface->close == iface_close, "each operation is itself");
    if(gh_want_trunc) SM_COVER("cut off"); else SM_COVER("open");
    iface->close(iface);
    SM_ASSERT(!gh_olog, "closed");
}
#endif
#if P_UNIT != 4
static bool gh_trunc(FILE *f, FILE *f2, long i){ return true; }
static void sm_hv_trunc(void){}
#endif
#endif
#ifndef SM_CBMC
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "libimaildir/libimaildir.h"
#include "libimaildir/log.h"
/* the same, on real files in a scratch directory beside this program; fsync and rename are recorded and made to fail */
static char gh_root[600], gh_file[700], gh_tmpfile[700];
static ino_t gh_fino; static off_t gh_fsize = -1; static unsigned gh_failat, gh_nsync;
static bool gh_failed;
int fsync(int fd){
    struct stat st;
    if(gh_failat && ++gh_nsync == gh_failat){ gh_failed = true; errno = EIO; return -1; }
    if(!fstat(fd, &st)){ gh_fino = st.st_ino; gh_fsize = st.st_size; }
    return 0;
}
int fdatasync(int fd){ return fsync(fd); }
int rename(const char *a, const char *b){
    struct stat st;
    SM_ASSERT(!stat(a, &st), "the new file exists");
    SM_ASSERT(gh_fino == st.st_ino && gh_fsize == st.st_size, "the new log is on disk before it is put in place");
    if(gh_failat && ++gh_nsync == gh_failat){ gh_failed = true; errno = EIO; return -1; }
    int r = renameat(AT_FDCWD, a, AT_FDCWD, b);
    return r;
}
static void setup_root(void){
    if(gh_root[0]) return;
    char exe[400]; ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
    SM_ASSERT(n > 0, "own path"); exe[n] = 0;
    *strrchr(exe, '/') = 0;
    snprintf(gh_root, sizeof(gh_root), "%s/logdir-%d", exe, (int)getpid());
    mkdir(gh_root, 0700);
    snprintf(gh_file, sizeof(gh_file), "%s/.cache", gh_root);
    snprintf(gh_tmpfile, sizeof(gh_tmpfile), "%s/.cache.tmp", gh_root);
}
#define NK 6
typedef struct { int kind; unsigned uid_dn; uint64_t modseq; int state; msg_flags_t flags; imap_time_t date; } ent_t;
typedef struct { ent_t e[NK]; unsigned vup, vdn; uint64_t hi, dmax; } model_t;
static uint64_t gh_lcg;
static unsigned rnd(void){ gh_lcg = gh_lcg * 6364136223846793005u + 1442695040888963407u; return (unsigned)(gh_lcg >> 40); }
static unsigned pick(void){ return rnd() & 255; }
static msg_key_t keyof(unsigned k){ return k < NK / 2 ? (msg_key_t){ .uid_up = k + 1 } : (msg_key_t){ .uid_local = k + 1 }; }
static msg_t gh_msg; static msg_expunge_t gh_exp;
// a random operation: 0 uidvlds, 1 hi, 2 modseq_dn, 3 msg, 4 expunge; applied to the model
static unsigned random_op(model_t *m, uint64_t *seq, unsigned *a, unsigned *b, uint64_t *u){
    unsigned what = pick() % 8; if(what > 4) what = what == 5 ? 3 : what == 6 ? 4 : 3;
    *a = 1 + pick() % 200; *b = 1 + pick() % 200; *u = *seq += 1 + pick() % 3;
    if(what == 0){ m->vup = *a; m->vdn = *b; }
    if(what == 1) m->hi = *u;
    if(what == 2) m->dmax = *u;
    if(what > 2){
        unsigned k = pick() % NK, f = pick();
        ent_t *e = &m->e[k];
        *e = (ent_t){ .uid_dn = *a, .modseq = *u };
        if(what == 3){
            e->kind = 1;
            e->state = (const int[]){ MSG_FILLED, MSG_FILLED, MSG_UNFILLED, MSG_NOT4ME }[(f >> 5) & 3];
            if(e->state != MSG_FILLED) e->uid_dn = 0, e->modseq = 0;
            e->flags = (msg_flags_t){ .answered = f & 1, .flagged = (f >> 1) & 1, .seen = (f >> 2) & 1, .draft = (f >> 3) & 1, .deleted = (f >> 4) & 1 };
            e->date = (imap_time_t){ 2000 + (int)*a, 1 + (int)*b % 12, 3, 4, 5, 6, -7, 30 };
            gh_msg = (msg_t){ .key = keyof(k), .uid_dn = e->uid_dn, .state = (msg_state_e)e->state, .flags = e->flags, .internaldate = e->date, .mod = { .modseq = e->modseq } };
        }else{
            e->kind = 2; e->state = (f & 1) ? MSG_EXPUNGE_PUSHED : MSG_EXPUNGE_UNPUSHED;
            if(f & 2) e->uid_dn = 0, e->modseq = 0, e->state = MSG_EXPUNGE_PUSHED;
            gh_exp = (msg_expunge_t){ .key = keyof(k), .uid_dn = e->uid_dn, .state = (msg_expunge_state_e)e->state, .mod = { .modseq = e->modseq } };
            if(f & 2) e->kind = 0;
        }
    }
    return what;
}
static void line_of(unsigned what, unsigned a, unsigned b, uint64_t u, dstr_t *out){
    log_key_t lk = { .type = what == 0 ? LOG_KEY_UIDVLDS : what == 1 ? LOG_KEY_HIMODSEQUP : what == 2 ? LOG_KEY_MODSEQDN : LOG_KEY_MSG };
    lk.arg.msg_key = what == 3 ? gh_msg.key : gh_exp.key;
    derr_t e = log_key_marshal(&lk, out); DROP_VAR(&e);
    if(what == 0) e = FMT(out, "|%x:%x\n", FU(a), FU(b));
    else if(what < 3) e = FMT(out, "|%x\n", FU(u));
    else { e = FMT(out, "|"); DROP_VAR(&e); if(what == 3) e = marshal_message(&gh_msg, out); else e = marshal_expunge(&gh_exp, out); DROP_VAR(&e); e = FMT(out, "\n"); }
    DROP_VAR(&e);
}
static bool matches(const model_t *m, jsw_atree_t *msgs, jsw_atree_t *exps, jsw_atree_t *mods, uint64_t hi_dn, maildir_log_i *log){
    size_t nm = 0, nx = 0, nmod = 0; uint64_t hi = MAX(1, m->dmax); bool ok = true;
    for(unsigned k = 0; k < NK; k++){
        msg_key_t key = keyof(k); const ent_t *e = &m->e[k];
        jsw_anode_t *n1 = jsw_afind(msgs, &key, NULL), *n2 = jsw_afind(exps, &key, NULL);
        ok = ok && (n1 != NULL) == (e->kind == 1) && (n2 != NULL) == (e->kind == 2);
        if(!ok) return false;
        if(e->kind == 1){
            msg_t *g = CONTAINER_OF(n1, msg_t, node);
            ok = g->uid_dn == e->uid_dn && g->mod.modseq == e->modseq && (int)g->state == e->state && !memcmp(&g->internaldate, &e->date, sizeof(e->date))
                && g->flags.answered == e->flags.answered && g->flags.flagged == e->flags.flagged && g->flags.seen == e->flags.seen && g->flags.draft == e->flags.draft && g->flags.deleted == e->flags.deleted;
            nm++;
        }else if(e->kind == 2){
            msg_expunge_t *g = CONTAINER_OF(n2, msg_expunge_t, node);
            ok = g->uid_dn == e->uid_dn && g->mod.modseq == e->modseq && (int)g->state == e->state;
            nx++;
        }
        if(!ok) return false;
        if(e->kind && e->modseq){ nmod++; if(!jsw_afind(mods, &e->modseq, NULL)) return false; hi = MAX(hi, e->modseq); }
    }
    return msgs->size == nm && exps->size == nx && mods->size == nmod && hi_dn == hi && log->get_uidvld_up(log) == m->vup && log->get_uidvld_dn(log) == m->vdn && log->get_himodseq_up(log) == m->hi;
}
static void free_trees(jsw_atree_t *msgs, jsw_atree_t *exps, jsw_atree_t *mods){
    jsw_anode_t *n;
    while(jsw_apop(mods));
    while((n = jsw_apop(msgs))){ msg_t *m = CONTAINER_OF(n, msg_t, node); msg_free(&m); }
    while((n = jsw_apop(exps))){ msg_expunge_t *x = CONTAINER_OF(n, msg_expunge_t, node); msg_expunge_free(&x); }
}
static bool open_and_match(const model_t *m, const model_t *alt, maildir_log_i **out, bool may_fail){
    jsw_atree_t msgs, exps, mods; uint64_t hi_dn;
    jsw_ainit(&msgs, jsw_cmp_msg_key, msg_jsw_get_msg_key);
    jsw_ainit(&exps, jsw_cmp_msg_key, expunge_jsw_get_msg_key);
    jsw_ainit(&mods, jsw_cmp_ulong, msg_mod_jsw_get_modseq);
    static string_builder_t dir; dir = SBS(gh_root);
    derr_t e = imaildir_log_open(&dir, &msgs, &exps, &mods, &hi_dn, out);
    bool ok = !e.type;
    if(!may_fail || !gh_failed) SM_ASSERT(ok, "a log that was written can be opened");
    if(ok) SM_ASSERT(matches(m, &msgs, &exps, &mods, hi_dn, *out) || (alt && matches(alt, &msgs, &exps, &mods, hi_dn, *out)), "the log says what was logged last");
    DROP_VAR(&e);
    free_trees(&msgs, &exps, &mods);
    return ok;
}
SM_HARNESS(s_logfile){
    setup_root();
    unlink(gh_file); unlink(gh_tmpfile);
    gh_failat = gh_nsync = 0; gh_failed = false;
    model_t m = {0}, before;
    uint64_t seq = 1, u; unsigned a, b;
    gh_lcg = (uint64_t)sm_u32() * 0x9e3779b97f4a7c15u; rnd(); rnd();
    unsigned big = pick() % 3; size_t n = big == 2 ? 995 + pick() % 10 : pick() % 12;
    dstr_t content = {0}; derr_t e = dstr_new(&content, 4096); DROP_VAR(&e);
    for(size_t i = 0; i < n; i++){
        unsigned what = random_op(&m, &seq, &a, &b, &u);
        line_of(what, a, b, u, &content);
    }
    bool cutoff = pick() % 2;
    if(cutoff){
        // a line that was not completely written when the machine stopped
        model_t junk = m; dstr_t l = {0};
        unsigned what = random_op(&junk, &seq, &a, &b, &u);
        e = dstr_new(&l, 512); DROP_VAR(&e);
        line_of(what, a, b, u, &l);
        l.len = 1 + pick() % (l.len - 1);
        // (it may also have been a block of zeros)
        if(pick() % 8 == 0) memset(l.data, 0, l.len);
        e = dstr_append(&content, &l); DROP_VAR(&e);
        dstr_free(&l);
    }
    FILE *f = fopen(gh_file, "w"); SM_ASSERT(f != NULL, "scratch file");
    fwrite(content.data, 1, content.len, f); fclose(f);
    dstr_free(&content);
    gh_failat = pick() % 12; if(gh_failat > 6) gh_failat = 0;
    maildir_log_i *log = NULL;
    bool ok = open_and_match(&m, NULL, &log, true);
    if(!ok) SM_ASSERT(log == NULL, "no log on failure");
    bool alt = false;
    if(ok){
        for(unsigned i = pick() % 8; i && !alt; i--){
            before = m;
            unsigned what = random_op(&m, &seq, &a, &b, &u);
            e = what == 0 ? log->set_uidvlds(log, a, b) : what == 1 ? log->set_himodseq_up(log, u) : what == 2 ? log->set_explicit_modseq_dn(log, u) : what == 3 ? log->update_msg(log, &gh_msg) : log->update_expunge(log, &gh_exp);
            SM_ASSERT((e.type != E_NONE) == gh_failed, "it succeeds unless the disk fails");
            if(e.type == E_NONE){
                struct stat st;
                SM_ASSERT(!stat(gh_file, &st) && gh_fino == st.st_ino && gh_fsize == st.st_size, "what was logged is on disk");
            }else alt = true;
            DROP_VAR(&e);
        }
        log->close(log);
    }
    gh_failat = 0; gh_failed = false;
    SM_ASSERT(open_and_match(&m, alt ? &before : NULL, &log, false), "opens again");
    log->close(log);
    unlink(gh_file); unlink(gh_tmpfile);
}
#endif
