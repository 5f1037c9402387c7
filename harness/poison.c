/* Heap and stack contents seen by the next call. */
#include <malloc.h>
#include <stddef.h>

__attribute__((noinline)) static void stack(int byte) {
    volatile unsigned char a[192 * 1024];
    for (size_t i = 0; i < sizeof(a); i++) a[i] = (unsigned char)byte;
}
/* byte < 0: back to normal */
void vf_poison(int byte) {
    if (byte < 0) { mallopt(M_PERTURB, 0); return; }
    mallopt(M_PERTURB, (byte ^ 0xff) ? (byte ^ 0xff) : 0);
    stack(byte);
}
