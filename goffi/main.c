/* Feeds recorded inputs to the C interface from C, each in memory of exactly its size. */
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "difffuzz.h"

static volatile long current;

static void died(int sig) {
    /* The process ends anyway. */
    fprintf(stderr, "\nsignal %d in case %ld\n", sig, current);
    _Exit(8);
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "rb");
    long max = argc > 2 ? atol(argv[2]) : 1L << 40;
    unsigned char h[5];
    long n = 0, failed = 0, accepted = 0;
    if (!f) return 3;
    signal(SIGSEGV, died);
    signal(SIGBUS, died);
    signal(SIGABRT, died);
    signal(SIGILL, died);
    while (n < max && fread(h, 1, 5, f) == 5) {
        uint32_t len = h[1] | h[2] << 8 | h[3] << 16 | (uint32_t)h[4] << 24;
        unsigned char *b = malloc(len), *copy = malloc(len + 1);
        if (fread(b, 1, len, f) != len) return 3;
        memcpy(copy, b, len);
        current = n;
        size_t v = len == 0 && !b ? h[0] : cbor_from_slice(b, len);
        if (v != h[0] || memcmp(b, copy, len)) {
            failed++;
            printf("FAIL %ld verdict %zu instead of %d, %u bytes:", n, v, h[0], len);
            for (uint32_t i = 0; i < len && i < 300; i++) printf("%02x", copy[i]);
            printf("\n");
        }
        accepted += v == 0;
        free(b);
        free(copy);
        n++;
    }
    printf("DONE inputs=%ld calls=%ld accepted=%ld failed=%ld\n", n, n, accepted, failed);
    return 0;
}
