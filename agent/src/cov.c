/* What coverage-guided search needs to know of a run: edges and how far apart compared values were (as libFuzzer's value
 * profile), and the values compared. Not instrumented itself. */
#include <stddef.h>
#include <stdint.h>
#define memcpy __builtin_memcpy
void *memset(void *, int, size_t);

#define BITS 20
/* the counters of all instrumented code, as the linker laid them out */
extern uint8_t __start___sancov_cntrs[] __attribute__((visibility("hidden")));
extern uint8_t __stop___sancov_cntrs[] __attribute__((visibility("hidden")));
static uint8_t seen[1u << BITS];
static uint32_t fresh;
struct pair { uint64_t a, b; uint8_t n; };
static struct pair last[64]; /* per place of a comparison, roughly */

static inline void hit(uint64_t x) {
    x *= 0x9E3779B97F4A7C15ull;
    uint8_t *p = &seen[x >> (64 - BITS)];
    fresh += !*p;
    *p = 1;
}

/* A condition of several parts may have become one without branches: how many parts in a row held counts as well. */
static unsigned row;

static inline void cmp(uint64_t pc, uint64_t a, uint64_t b, unsigned n) {
    unsigned d = __builtin_popcountll(a ^ b);
    hit((pc * 8 + row) * 256 + d);
    if (!d) {
        row += row < 7;
        return;
    }
    unsigned z = __builtin_clzll(a > b ? a - b : b - a);
    hit((pc * 8 + row) * 256 + 128 + z);
    row = 0;
    struct pair *p = &last[(pc * 0x9E3779B97F4A7C15ull) >> 58];
    p->a = a, p->b = b, p->n = n;
}

uint32_t agent_cov(uint8_t *pairs, uint32_t *count);
/* independent of where the program was loaded */
#define PC ((uint64_t)__builtin_return_address(0) - (uint64_t)agent_cov)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 2); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 4); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 8); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 2); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 4); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 8); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) {
    /* cases[0]: how many, cases[1]: bits; only the nearest tells something */
    uint64_t best = ~0ull, w = 0;
    for (uint64_t i = 0; i < cases[0]; i++) {
        uint64_t d = v > cases[2 + i] ? v - cases[2 + i] : cases[2 + i] - v;
        if (d < best)
            best = d, w = cases[2 + i];
    }
    if (cases[0] && best)
        cmp(PC, v, w, (unsigned)(cases[1] / 8));
}

/* comparisons of memory (the linker sends them here): the first word that differs */
extern int __real_memcmp(const void *, const void *, size_t);
extern int __real_bcmp(const void *, const void *, size_t);
static inline void mem(uint64_t pc, const uint8_t *a, const uint8_t *b, size_t n) {
    for (size_t i = 0; i < n && i < 64; i += 4) {
        uint32_t x = 0, y = 0;
        unsigned k = n - i < 4 ? n - i : 4;
        memcpy(&x, a + i, k), memcpy(&y, b + i, k);
        cmp(pc + (i << 32), x, y, k);
        if (x != y)
            return;
    }
}
int __wrap_memcmp(const void *a, const void *b, size_t n) { mem(PC, a, b, n); return __real_memcmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { mem(PC, a, b, n); return __real_bcmp(a, b, n); }

void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) { (void)start, (void)stop; }
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { (void)a, (void)b; }

static uint8_t bucket(uint8_t n) { return n < 4 ? n : n < 8 ? 4 : n < 16 ? 5 : n < 32 ? 6 : n < 128 ? 7 : 8; }

/* How much was new since the last call; the last values that were compared and differed (17 bytes each), if any was new. */
uint32_t agent_cov(uint8_t *pairs, uint32_t *count) {
    uint8_t *c = __start___sancov_cntrs;
    size_t n = __stop___sancov_cntrs - c;
    for (size_t i = 0; i < n; i++) {
        uint64_t w;
        if (i % 8 == 0 && i + 8 <= n && (memcpy(&w, c + i, 8), !w)) {
            i += 7;
            continue;
        }
        if (c[i])
            hit(((uint64_t)1 << 63) + i * 16 + bucket(c[i]));
    }
    memset(c, 0, n);
    uint32_t r = fresh, k = 0;
    if (r)
        for (unsigned i = 0; i < 64; i++)
            if (last[i].n) {
                memcpy(pairs + 17 * k, &last[i].a, 8);
                memcpy(pairs + 17 * k + 8, &last[i].b, 8);
                pairs[17 * k++ + 16] = last[i].n;
            }
    memset(last, 0, sizeof last);
    row = 0;
    *count = k;
    fresh = 0;
    return r;
}
