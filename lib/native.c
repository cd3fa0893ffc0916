/* libFuzzer entry: the input bytes are the tape of harness inputs */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <setjmp.h>
const uint8_t *vz_data; size_t vz_size; jmp_buf vz_jmp;
void vz_test(void);
static void *tracked[4096]; static int ntracked;
void vz_track(void *p) { if (ntracked < 4096) tracked[ntracked++] = p; }
void vz_untrack(void *p) { int i; for (i = ntracked; i-- > 0;) if (tracked[i] == p) { tracked[i] = tracked[--ntracked]; return; } }
void *vz_malloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) longjmp(vz_jmp, 2);
    /* n == 0: a one byte block, as in the CBMC build */ vz_track(p); return p; }
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    vz_data = data; vz_size = size; ntracked = 0;
    if (!setjmp(vz_jmp)) vz_test();
    while (ntracked) free(tracked[--ntracked]);
    return 0;
}
