/* driver for the native (replay / search) builds */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <setjmp.h>
jmp_buf sm_jmp;
static const uint8_t *in; static size_t inlen, inpos;
static void *tracked[4096]; static size_t ntracked;
uint8_t sm_u8(void){ return inpos < inlen ? in[inpos++] : 0; }
uint16_t sm_u16(void){ uint16_t a = sm_u8(); return (uint16_t)(a | ((uint16_t)sm_u8() << 8)); }
uint32_t sm_u32(void){ uint32_t a = sm_u16(); return a | ((uint32_t)sm_u16() << 16); }
uint64_t sm_u64(void){ uint64_t a = sm_u32(); return a | ((uint64_t)sm_u32() << 32); }
void *sm_track(void *p){ if(ntracked < 4096) tracked[ntracked++] = p; return p; }
void sm_assert_fail(const char *msg, const char *file, int line){
    fprintf(stderr, "SM_ASSERT FAILED: %s (%s:%d)\n", msg, file, line);
    fflush(stderr);
    abort();
}
void SM_ENTRY(void);
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t len);
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t len){
    in = data; inlen = len; inpos = 0; ntracked = 0;
    if(!setjmp(sm_jmp)) SM_ENTRY();
    for(size_t i = 0; i < ntracked; i++) free(tracked[i]);
    return 0;
}
#ifdef SM_REPLAY_MAIN
int main(int argc, char **argv){
    for(int a = 1; a < argc; a++){
        FILE *f = fopen(argv[a], "rb");
        if(!f) return 2;
        static uint8_t buf[1 << 20];
        size_t n = fread(buf, 1, sizeof(buf), f);
        fclose(f);
        uint8_t *copy = malloc(n ? n : 1);
        memcpy(copy, buf, n);
        LLVMFuzzerTestOneInput(copy, n);
        free(copy);
    }
    return 0;
}
#endif
