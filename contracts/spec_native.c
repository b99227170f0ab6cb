/* Native meaning of the contract language: values come from a recorded counterexample or from a random generator; the
   contracts then run against the real, natively compiled code.
     prog HARNESS CASE replay FILE
     prog HARNESS CASE fuzz SEED SECONDS PREFIX [ITER]   -- random inputs; with ITER only that iteration
   exit 0: nothing failed; 10: a check failed (printed); other: crashed (printed by the sanitizer). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include "spec.h"

extern void native_init(void) __attribute__((weak));

static jmp_buf env;
static int replay, cas, quiet_fail, verbose;
static const char *prefix = "";
static uint64_t rs;
static long iter, seed;
static struct { char name[64]; uint64_t v; } nds[4096];
static int nnd;
static struct { char arr[32]; int off; unsigned idx; uint64_t v; } arrs[65536];
static int narr;
static struct { char name[64]; int n; } occ[512];
static int nocc;
static long checks, runs, discarded;
static void *to_free[4096];
static int nfree;

uint64_t spec_rnd(void)
{
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return rs * 0x2545F4914F6CDD1Dull;
}

static void *keep(void *p)
{
    if (nfree < 4096)
        to_free[nfree++] = p;
    return p;
}

void *spec_alloc(size_t n)
{
    return keep(calloc(n ? n : 1, 1));
}

static uint64_t get(const char *name, int bits)
{
    int i, k = 0;
    for (i = 0; i < nocc; i++)
        if (!strcmp(occ[i].name, name))
            break;
    if (i == nocc && nocc < 512)
        strncpy(occ[nocc].name, name, 63), occ[nocc++].n = 0;
    if (i < 512)
        k = occ[i].n++;
    if (replay)
    {
        char full[80];
        snprintf(full, sizeof full, "%s#%d", name, k);
        for (i = 0; i < nnd; i++)
            if (!strcmp(nds[i].name, full))
                return nds[i].v;
        return 0;
    }
    uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
    switch (spec_rnd() % 8)
    {
    case 0: v = spec_rnd() % 4; break;
    case 1: v = 0 - spec_rnd() % 4; break;
    case 2: v = 1ull << (spec_rnd() % 64); break;
    case 3: v = (1ull << (spec_rnd() % 64)) - 1; break;
    case 4: case 5: v = spec_rnd() % 300; break;
    default: v = spec_rnd() >> (spec_rnd() % 64);
    }
    return v & m;
}

uint8_t  nd_u8(const char *n)   { return get(n, 8); }
uint16_t nd_u16(const char *n)  { return get(n, 16); }
uint32_t nd_u32(const char *n)  { return get(n, 32); }
uint64_t nd_u64(const char *n)  { return get(n, 64); }
bool     nd_bool(const char *n) { return get(n, 1); }
int nd_range(const char *n, int lo, int hi)
{
    uint64_t v = get(n, 32);
    if (replay)
    {
        spec_assume((int)v >= lo && (int)v <= hi);
        return (int)v;
    }
    if (lo > hi)
        spec_assume(false);
    return lo + (int)((spec_rnd() & 3 ? spec_rnd() >> 7 : v) % ((uint64_t)(hi - (int64_t)lo) + 1));
}
int spec_dim(const char *n, int lo, int hi)
{
    if (replay)
        return nd_range(n, lo, hi);
    int top = spec_rnd() % 4 ? 12 : 140;
    return nd_range(n, lo, hi < lo + top ? hi : lo + top);
}
int spec_case(void) { return cas; }
int spec_symbolic(void) { return 0; }
int spec_replay(void) { return replay; }
int spec_concrete(uint32_t x) { return 0; }
int spec_proof(void) { return 0; }
void spec_assume(bool c) { if (!c) { discarded++; longjmp(env, 1); } }
void spec_fact(bool c) { }
void spec_check(bool c, const char *label)
{
    checks++;
    if (c || strncmp(label, prefix, strlen(prefix)))
        return;
    printf("CHECK-FAILED %s\nITERATION %ld\n", label, iter);
    fflush(stdout);
    _exit(10);
}
static const char *covs[64];
static int ncov;
void spec_cover(const char *l)
{
    for (int i = 0; i < ncov; i++)
        if (!strcmp(covs[i], l))
            return;
    if (ncov < 64)
        covs[ncov++] = l;
}
void spec_scale(int s) { }
static int apply(const char *name, void *p, unsigned n, unsigned stride)
{
    int r = 0;
    for (int i = 0; i < narr; i++)
        if (!strcmp(arrs[i].arr, name) && arrs[i].idx < n)
            memcpy((char*)p + (size_t)arrs[i].idx * stride + (arrs[i].off >> 8), &arrs[i].v, arrs[i].off & 255), r++;
    return r;
}
void *spec_array(const char *name, unsigned n, unsigned stride, const char *fields)
{
    char *p = calloc(n ? n : 1, stride);
    if (!replay)
        for (size_t i = 0; i < (size_t)n * stride; i++)
            p[i] = spec_rnd() % 3 ? spec_rnd() : spec_rnd() % 3;
    apply(name, p, n, stride);
    return p;
}
void *spec_block(const char *name, unsigned size) { return calloc(size, 1); }
void spec_on_touch(void *arr, bool (*pred)(void *, unsigned)) { }
#include <malloc.h>
void *spec_snapshot(void *p)
{
    if (!p)
        return 0;
    size_t n = malloc_usable_size(p);
    void *q = malloc(n);
    memcpy(q, p, n);
    return keep(q);
}
uint32_t spec_uf1(const char *n, uint32_t x) { return 0; }
void spec_havoc_array(void *a) { }
void spec_ghost_step(void (*f)(void)) { }
void spec_loop_inv(bool (*f)(void)) { }

extern void run_harness(const char *name);      /* generated */

static void on_abort(int s)
{
    char b[64];
    int n = snprintf(b, sizeof b, "CRASHED signal %d\nITERATION %ld\n", s, iter);
    if (write(1, b, n)) {}
    _exit(11);
}
void __asan_set_death_callback(void (*f)(void)) __attribute__((weak));
static void on_death(void)
{
    char b[64];
    int n = snprintf(b, sizeof b, "CRASHED memory error\nITERATION %ld\n", iter);
    if (write(1, b, n)) {}
}
const char *__asan_default_options(void) { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=12:handle_abort=0:detect_stack_use_after_return=0"; }

int main(int argc, char **argv)
{
    cas = atoi(argv[2]);
    signal(SIGABRT, on_abort);
    signal(SIGALRM, on_abort);
    if (__asan_set_death_callback)
        __asan_set_death_callback(on_death);
    if (native_init)
        native_init();
    if (!strcmp(argv[3], "replay"))
    {
        replay = 1;
        alarm(60);
        if (argc > 5)
            prefix = argv[5];
        FILE *f = fopen(argv[4], "r");
        char l[256], a[64], b[64];
        unsigned long long v;
        unsigned idx, o, s;
        while (fgets(l, sizeof l, f))
        {
            if (sscanf(l, "nd %63s %llu", a, &v) == 2 && nnd < 4096)
                strcpy(nds[nnd].name, a), nds[nnd++].v = v;
            else if (sscanf(l, "arr %31s %u %u.%u %llu", b, &idx, &o, &s, &v) == 5 && narr < 65536)
                strcpy(arrs[narr].arr, b), arrs[narr].idx = idx, arrs[narr].off = o << 8 | s, arrs[narr++].v = v;
        }
        fclose(f);
        if (!setjmp(env))
            run_harness(argv[1]);
        else
        {
            printf("ASSUMPTION-FAILED\n");
            return 3;
        }
        printf("REPLAY-PASSED checks=%ld\n", checks);
        return 0;
    }
    seed = atol(argv[4]);
    double secs = atof(argv[5]);
    if (argc > 6)
        prefix = argv[6];
    long only = argc > 7 ? atol(argv[7]) : -1;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (iter = only >= 0 ? only : 0; ; iter++)
    {
        if (only < 0 && !(iter & 15))
        {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs)
                break;
        }
        rs = (seed * 0x9E3779B97F4A7C15ull) ^ ((iter + 1) * 0xD1342543DE82EF95ull) ^ ((uint64_t)cas << 40);
        if (!rs)
            rs = 1;
        for (int i = 0; i < 4; i++)
            spec_rnd();
        nocc = 0;
        alarm(20);
        if (!setjmp(env))
        {
            run_harness(argv[1]);
            runs++;
        }
        for (int i = 0; i < nfree; i++)
            free(to_free[i]);
        nfree = 0;
        if (only >= 0)
            break;
    }
    for (int i = 0; i < ncov; i++)
        printf("COVER %s\n", covs[i]);
    printf("FUZZ-PASSED runs=%ld discarded=%ld checks=%ld\n", runs, discarded, checks);
    return 0;
}
