PRE=r"""
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "libimaildir/libimaildir.h"
static jsw_atree_t M, X, D; static uint64_t hi; static maildir_log_i *L;
static string_builder_t dir;
static int opn(void){
    jsw_ainit(&M, jsw_cmp_msg_key, msg_jsw_get_msg_key);
    jsw_ainit(&X, jsw_cmp_msg_key, expunge_jsw_get_msg_key);
    jsw_ainit(&D, jsw_cmp_ulong, msg_mod_jsw_get_modseq);
    dir = SBS(".");
    return imaildir_log_open(&dir, &M, &X, &D, &hi, &L).type != E_NONE;
}
static void text(const char *s){ FILE *f = fopen(".cache", "w"); fputs(s, f); fclose(f); }
"""
CC=["_build/libimaildir/libimaildir.a","_build/libimap/libimap.a","_build/libdstr/libdstr.a"]
SEEDS=[
dict(id="m02-sync", prop="M02", needs="power lost shortly after a log of over a thousand lines was compacted",
 breaks="the compacted log is renamed over the old one before its contents are on disk, so the whole log can be lost",
 edits=[("libimaildir/log_file.c","    PROP_GO(&e, dffsync(f), cu);\n    fclose(f);\n    f = NULL;\n\n    // rename the new file","    if(fflush(f)) ORIG_GO(&e, E_OS, \"fflush\", cu);\n    fclose(f);\n    f = NULL;\n\n    // rename the new file")],
 demo=PRE+r"""
static ino_t ino = 0; static int bad = 0, renames = 0;
int fsync(int fd){ struct stat s; if(!fstat(fd, &s)) ino = s.st_ino; return 0; }
int rename(const char *a, const char *b){ struct stat s; renames++; if(stat(a, &s) || s.st_ino != ino) bad = 1; return renameat(AT_FDCWD, a, AT_FDCWD, b); }
int main(void){
    FILE *f = fopen(".cache", "w");
    for(int i = 0; i < 1100; i++) fprintf(f, "h|%d\n", i);
    fclose(f);
    if(opn()) return 2;
    if(L->set_himodseq_up(L, 5000).type) return 3;
    L->close(L);
    return bad || !renames;
}
""", cc=CC),
dict(id="m02-trunc", prop="M02", needs="a log whose last line was not completely written",
 breaks="the incomplete line is not cut off, so the next line is appended to it and both are lost",
 edits=[("libimaildir/log_file.c","        // len cannot exceed MAX_LINE_LEN, so this is safe\n        *valid_len += (long)len;\n",""),
        ("libimaildir/log_file.c","            *want_trunc = true;\n            break;\n        }\n","            *want_trunc = true;\n            *valid_len = ftell(f);\n            break;\n        }\n")],
 demo=PRE+r"""
int main(void){
    text("h|5\nv|1:2\nh|60");
    if(opn() || L->get_himodseq_up(L) != 5) return 2;
    if(L->set_uidvlds(L, 3, 4).type) return 3;
    L->close(L);
    if(opn()) return 1;
    return !(L->get_uidvld_up(L) == 3 && L->get_himodseq_up(L) == 5);
}
""", cc=CC),
dict(id="m02-dangling", prop="M02", needs="an expunge that was logged twice for the same message",
 breaks="the modseq of the first, freed one stays in the tree of modseqs",
 edits=[("libimaildir/log_file.c","        jsw_aerase(mods, &expunge->mod.modseq);\n","        if(expunge->state == MSG_EXPUNGE_PUSHED) jsw_aerase(mods, &expunge->mod.modseq);\n")],
 demo=PRE+r"""
int main(void){
    text("m.5.0|1:3:7:e\nm.5.0|1:3:9:x\n");
    if(opn()) return 2;
    return D.size != 1;
}
""", cc=CC),
]
