/* Native side of the harness primitives: replays the values in the file named by
 * SYM_INPUTS (one unsigned decimal per line, in creation order). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t *v; static size_t n, k; static int loaded;
static uint64_t args[64];
static void load(void) {
    if (loaded) return;
    loaded = 1;
    const char *p = getenv("SYM_INPUTS");
    if (p) {
        FILE *f = fopen(p, "r");
        unsigned long long x; size_t cap = 0;
        while (f && fscanf(f, "%llu", &x) == 1) {
            if (n == cap) { cap = cap ? 2 * cap : 64; v = realloc(v, cap * sizeof *v); }
            v[n++] = x;
        }
        if (f) fclose(f);
    }
    const char *a = getenv("SYM_ARGS");
    if (a) {
        char *s = strdup(a), *t = strtok(s, ",");
        for (int i = 0; t && i < 64; i++) { args[i] = strtoull(t, 0, 10); t = strtok(0, ","); }
        free(s);
    }
}
static uint64_t nextv(void) { load(); return k < n ? v[k++] : 0; }
void sym_bytes(uint8_t *p, size_t m) { for (size_t i = 0; i < m; i++) p[i] = (uint8_t)nextv(); }
uint8_t sym_u8(void) { return (uint8_t)nextv(); }
uint16_t sym_u16(void) { return (uint16_t)nextv(); }
uint32_t sym_u32(void) { return (uint32_t)nextv(); }
uint64_t sym_u64(void) { return nextv(); }
uint64_t sym_choice(uint64_t m) { (void)m; return nextv(); }
uint64_t sym_arg(uint64_t i) { load(); return args[i & 63]; }
uint64_t sym_concrete(uint64_t x) { return x; }
void sym_assume(_Bool b) { if (!b) { fprintf(stderr, "SYM: assumption not met\n"); fflush(0); _Exit(78); } }
void sym_assert(_Bool b, uint64_t id) {
    if (!b) { fprintf(stderr, "SYM: assertion %llu failed\n", (unsigned long long)id); fflush(0); _Exit(77); }
}
void sym_assert_eq(const uint8_t *a, const uint8_t *b, size_t n, uint64_t id) { sym_assert(memcmp(a, b, n) == 0, id); }
void sym_reach(uint64_t id) { printf("REACH %llu\n", (unsigned long long)id); }
void sym_out(uint64_t x) { printf("OUT %llu\n", (unsigned long long)x); }
uint64_t sym_live(void) { return 0; }

/* Before the harness starts: restrict the CPU features the standard library reports
 * (SYM_SIMD 0: none, 1: up to SSE4.2).  SYM_CACHE is the distance from sym_init to
 * std's feature cache, whose first word holds the low feature bits. */
void sym_init(void) {
    load();
    const char *l = getenv("SYM_SIMD"), *c = getenv("SYM_CACHE");
    if (!l || !c) return;
    uint64_t *p = (uint64_t *)((char *)&sym_init + strtoll(c, 0, 10));
    uint64_t keep = 1ull << 63 | (l[0] == '1' ? 0x3fff & ~(uint64_t)(1u << 12) : 0);
    if (l[0] == '0' || l[0] == '1')
        for (int i = 0; i < 3; i++) p[i] = i ? 1ull << 63 : keep;
}
