SEEDS=[
dict(id="c02-zed", prop="C02", needs="a case-insensitive comparison in which the letter Z occurs in different cases",
 breaks="'z' and 'Z' count as different characters in every case-insensitive comparison and search",
 edits=[("libdstr/common.c","    if(c >= 'a' && c <= 'z') return (char)(c - 32);\n    return c;\n}","    if(c >= 'a' && c < 'z') return (char)(c - 32);\n    return c;\n}")],
 demo=r'''
#include "libdstr/libdstr.h"
int main(void){ return !dstr_ieq(DSTR_LIT("Zone"), DSTR_LIT("zone")); }
''', cc=["_build/libdstr/libdstr.a"]),
dict(id="c04-used", prop="C04", needs="erasing a sensitive buffer that had once been longer than it is now",
 breaks="only the used part is erased; what was there before stays in memory",
 edits=[("libdstr/common.c","    size_t size = ds->size;\n    char *data = ds->data;","    size_t size = ds->len;\n    char *data = ds->data;")],
 demo=r'''
#include "libdstr/libdstr.h"
int main(void){
    DSTR_VAR(d, 64);
    memcpy(d.data, "secret password", 15); d.len = 15;
    d.len = 3;
    dstr_zeroize(&d);
    for(size_t i = 0; i < 64; i++) if(d.data[i] && i < 15) return 1;
    return 0;
}
''', cc=["_build/libdstr/libdstr.a"]),
dict(id="e05-hexg", prop="E05", needs="hex text that contains a G",
 breaks="G is taken for a digit of value 16 that spills into its neighbour instead of being refused",
 edits=[("libdstr/common.c","(hex->data[i] >= 'A' && hex->data[i] <= 'F')","(hex->data[i] >= 'A' && hex->data[i] <= 'G')")],
 demo=r'''
#include "libdstr/libdstr.h"
int main(void){
    DSTR_VAR(out, 16);
    derr_t e = hex2bin(&DSTR_LIT("0G"), &out);
    return e.type == E_NONE;
}
''', cc=["_build/libdstr/libdstr.a"]),
dict(id="x01-stale", prop="X01", needs="a decrypter that opened a message to us and is started again for a message that is not",
 breaks="a recipient match is remembered from the message before, so a message to others is not reported as such, and the old session key is used for it",
 edits=[("libcrypto/crypto.c","    dc->version_found = false;\n    dc->key_found = false;","    dc->version_found = false;")],
 demo=r'''
#include "libcrypto/libcrypto.h"
#include <openssl/pem.h>
#include <openssl/rsa.h>
static keypair_t *gen(void){
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, NULL); EVP_PKEY *p = NULL;
    EVP_PKEY_keygen_init(c); EVP_PKEY_CTX_set_rsa_keygen_bits(c, 1024); EVP_PKEY_keygen(c, &p);
    DSTR_VAR(pem, 8192); BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_PrivateKey(b, p, NULL, NULL, 0, NULL, NULL);
    pem.len = (size_t)BIO_read(b, pem.data, (int)pem.size);
    keypair_t *k; derr_t e = keypair_from_private_pem(&k, pem); if(e.type) exit(97);
    return k;
}
static dstr_t seal(keypair_t *k){
    encrypter_t ec = {0}; link_t l = {0}; keypair_t *c; dstr_t out; DSTR_VAR(t, 8); dstr_append_quiet(&t, &DSTR_LIT("hello"));
    dstr_new_quiet(&out, 4096); link_init(&l); keypair_copy(k, &c); link_list_append(&l, &c->link);
    derr_t e = encrypter_new(&ec); if(e.type) exit(97);
    e = encrypter_start(&ec, &l, &out); if(e.type) exit(97);
    e = encrypter_update(&ec, &t, &out); if(e.type) exit(97);
    e = encrypter_finish(&ec, &out); if(e.type) exit(97);
    return out;
}
int main(void){
    keypair_t *us = gen(), *other = gen();
    dstr_t a = seal(us), b = seal(other), plain; dstr_new_quiet(&plain, 64);
    decrypter_t dc = {0}; derr_t e = decrypter_new(&dc); if(e.type) return 97;
    e = decrypter_start(&dc, us, NULL, NULL); if(e.type) return 97;
    e = decrypter_update(&dc, &a, &plain); if(e.type) return 97;
    e = decrypter_finish(&dc, &plain); if(e.type) return 97;
    e = decrypter_start(&dc, us, NULL, NULL); if(e.type) return 97;
    e = decrypter_update(&dc, &b, &plain);
    return e.type != E_NOT4ME;
}
''', cc=["_build/libcrypto/libcrypto.a","_build/libdstr/libdstr.a","-lssl","-lcrypto"]),
dict(id="x01-short", prop="X01", needs="a recipient line whose fingerprint is shorter than ours, for instance empty",
 breaks="a fingerprint counts as ours if it is any beginning of ours",
 edits=[("libcrypto/cmp.c","provided->len == secret->len","provided->len <= secret->len")],
 demo=r'''
#include "libcrypto/libcrypto.h"
int main(void){
    return dstr_eq_consttime(&DSTR_LIT("abc"), &DSTR_LIT("abcdef")) || dstr_eq_consttime(&DSTR_LIT(""), &DSTR_LIT("abcdef"));
}
''', cc=["_build/libcrypto/libcrypto.a","_build/libdstr/libdstr.a","-lssl","-lcrypto"]),
]
