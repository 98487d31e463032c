/* Native counterpart of the harness intrinsics: replays one input vector. */
#define _GNU_SOURCE
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static uint64_t in[256];
static unsigned n, k;
static uint64_t obs = 0xcbf29ce484222325ull;
void vxn_push(uint64_t v) { if (n < 256) in[n++] = v; }
uint64_t vx_sym(uint32_t w, uint64_t d) {
    uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
    uint64_t v = k < n ? in[k] : d;
    k++;
    return v & m;
}
void vx_assume(uint64_t c) { if (!c) { fflush(stdout); printf("ASSUME\n"); fflush(stdout); _exit(77); } }
uint64_t vx_pin(uint64_t v) { return v; }
void vx_observe(uint64_t v) { uint64_t x = (obs ^ v) * 0x100000001b3ull; obs = (x << 17) | (x >> 47); }
void vx_cover(uint64_t i) { (void)i; }
uint64_t vx_live(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
void vxn_done(void) { printf("OBS %llu\n", (unsigned long long)obs); fflush(stdout); _exit(0); }
