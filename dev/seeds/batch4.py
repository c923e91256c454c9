SEEDS=[
dict(id="m01-tz", prop="M01", needs="a message whose date has a time zone with minutes",
 breaks="the hours of the time zone are read from the field of its minutes",
 edits=[("libimaildir/log.c","dstr_toi(&fields.data[6], &intdate->z_hour, 10)","dstr_toi(&fields.data[7], &intdate->z_hour, 10)")],
 demo=r"""
#include "libimaildir/libimaildir.h"
#include "libimaildir/log.h"
int main(void){
    msg_t m = { .uid_dn = 5, .state = MSG_FILLED, .internaldate = { 2020, 2, 29, 23, 59, 60, -5, 30 }, .mod = { .modseq = 7 } };
    DSTR_VAR(buf, 512); msg_key_t k = { 3, 0 }; msg_t *r; msg_expunge_t *x;
    if(marshal_message(&m, &buf).type || parse_value(buf, k, &r, &x).type) return 2;
    return !(r && r->internaldate.z_hour == -5 && r->internaldate.z_min == 30);
}
""", cc=["_build/libimaildir/libimaildir.a","_build/libimap/libimap.a","_build/libdstr/libdstr.a"]),
dict(id="m01-modseq", prop="M01", needs="a modification sequence beyond 32 bits",
 breaks="the upper half of the modseq of a message is lost in the log",
 edits=[("libimaildir/log.c","FU(msg->uid_dn), FU(msg->mod.modseq)) );","FU(msg->uid_dn), FU((unsigned int)msg->mod.modseq)) );")],
 demo=r"""
#include "libimaildir/libimaildir.h"
#include "libimaildir/log.h"
int main(void){
    msg_t m = { .uid_dn = 5, .state = MSG_FILLED, .mod = { .modseq = 5000000000 } };
    DSTR_VAR(buf, 512); msg_key_t k = { 3, 0 }; msg_t *r; msg_expunge_t *x;
    if(marshal_message(&m, &buf).type || parse_value(buf, k, &r, &x).type) return 2;
    return !(r && r->mod.modseq == 5000000000);
}
""", cc=["_build/libimaildir/libimaildir.a","_build/libimap/libimap.a","_build/libdstr/libdstr.a"]),
dict(id="m01-two", prop="M01", needs="a message file name that names both UIDs",
 breaks="such a name is accepted, so a file belongs to a message that cannot exist",
 edits=[("libimaildir/name.c","if((uid_up && uid_local) || (!uid_up && !uid_local)){","if(!uid_up && !uid_local){")],
 demo=r"""
#include "libimaildir/libimaildir.h"
int main(void){
    msg_key_t k = {0};
    derr_t e = maildir_name_parse(&DSTR_LIT("0123456789.1,3,4,10.host"), NULL, &k, NULL, NULL, NULL);
    return e.type == E_NONE;
}
""", cc=["_build/libimaildir/libimaildir.a","_build/libimap/libimap.a","_build/libdstr/libdstr.a"]),
]
