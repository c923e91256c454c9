SEEDS=[
dict(id="c01-subrev", prop="C01", needs="a view whose start lies behind its end",
 breaks="the view has a length just below 2^64 instead of being empty",
 edits=[("libdstr/common.c","    size_t eo = MIN(in.len, end);\n\n    // don't let eo < so\n    eo = MAX(so, eo);","    size_t eo = MIN(in.len, end);\n\n    // don't let so > eo\n    so = MIN(so, in.len);")],
 demo=r"""
#include "libdstr/libdstr.h"
int main(void){
    dstr_t v = dstr_sub2(DSTR_LIT("abcdef"), 4, 2);
    return v.len != 0;
}
""", cc=["_build/libdstr/libdstr.a"]),
dict(id="c06-partial", prop="C06", needs="several patterns of which more than one begins at the end of what has been read so far",
 breaks="the length reported is that of the last such beginning rather than the longest, so a match that spans two pieces is missed",
 edits=[("libdstr/common.c","                    max_partial = MAX(max_partial, j);","                    if(j > 0) max_partial = j;")],
 demo=r"""
#include "libdstr/libdstr.h"
int main(void){
    LIST_PRESET(dstr_t, pats, DSTR_LIT("ab\r\n"), DSTR_LIT("\r\n"));
    size_t w, p;
    if(dstr_find(&DSTR_LIT("xxab\r"), &pats, &w, &p)) return 1;
    return p != 3;
}
""", cc=["_build/libdstr/libdstr.a"]),
dict(id="c06-tail", prop="C06", needs="a soft split with exactly as many separators as there is room for words",
 breaks="the last word loses the rest of the text when that rest is an empty word",
 edits=[("libdstr/common.c","        // check if the list is full\n        if(len == nouts){\n            if(soft){","        // check if the list is full\n        if(len == nouts){\n            if(soft && new.len == 0) break;\n            if(soft){")],
 demo=r"""
#include "libdstr/libdstr.h"
int main(void){
    dstr_t a, b; size_t n;
    dstr_split2_soft(DSTR_LIT("x:y:"), DSTR_LIT(":"), &n, &a, &b);
    return !(n == 2 && dstr_eq(b, DSTR_LIT("y:")));
}
""", cc=["_build/libdstr/libdstr.a"]),
dict(id="i03-straddle", prop="I03", needs="SEARCH TEXT for a text that begins in the headers and ends in the body",
 breaks="such a text is not found",
 edits=[("libimaildir/search.c","                size_t start = hdrs_end - MIN(hdrs_end, tgt.len);","                size_t start = hdrs_end - MIN(hdrs_end, tgt.len / 2);")],
 demo=r"""
#include "libimaildir/libimaildir.h"
static dstr_t M; static imf_hdrs_t H; static imf_t I;
static derr_t gh(void *d, const imf_hdrs_t **o){ (void)d; *o = &H; return E_OK; }
static derr_t gi(void *d, const imf_t **o){ (void)d; *o = &I; return E_OK; }
int main(void){
    M = DSTR_LIT("Subject: abc\r\n\r\nhello");
    H = (imf_hdrs_t){ .bytes = { &M, 0, 16 } };
    I = (imf_t){ .bytes = { &M, 0, M.len }, .hdrs = &H, .body = { &M, 16, M.len - 16 } };
    ie_dstr_t t = {0}; t.dstr = DSTR_LIT("bc\r\n\r\nh");
    ie_search_key_t k = { .type = IE_SEARCH_TEXT, .param = { .dstr = &t } };
    msg_view_t v = {0}; bool out = false;
    derr_t e = search_key_eval(&k, &v, 1, 1, 1, gh, NULL, gi, NULL, &out);
    return e.type || !out;
}
""", cc=["libimaildir/search.c","_build/libimap/libimap.a","_build/libdstr/libdstr.a"]),
dict(id="i03-clamp", prop="I03", needs="a message set of at least two ranges of which a later one goes beyond the mailbox",
 breaks="numbers beyond the end of the mailbox are produced from every range but the first",
 edits=[("libimap/expression.c","            if(trav->max) trav->imax = MIN(trav->imax, trav->max);\n            return trav->i;","            if(trav->max) trav->imax = MAX(trav->i, trav->imax);\n            return trav->i;")],
 demo=r"""
#include "libimaildir/libimaildir.h"
int main(void){
    ie_seq_set_t b = { .n1 = 3, .n2 = 9 }, a = { .n1 = 1, .n2 = 1, .next = &b };
    ie_seq_set_trav_t t; unsigned n = 0, last = 0;
    for(unsigned i = ie_seq_set_iter(&t, &a, 1, 5); i; i = ie_seq_set_next(&t)){ n++; last = i; if(n > 20) break; }
    return !(n == 4 && last == 5);
}
""", cc=["_build/libimap/libimap.a","_build/libdstr/libdstr.a"]),
dict(id="i03-seen", prop="I03", needs="a date search whose month matches but whose day is later in an earlier year",
 breaks="a message of a later year but an earlier month counts as before the date",
 edits=[]),
]
SEEDS=[s for s in SEEDS if s["edits"]]
