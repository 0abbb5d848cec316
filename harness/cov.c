// Runtime for the branch- and comparison-instrumented build, and the crash handler.
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>

#define NMAP 65536
#define NCMP 192
static uint32_t n_guards;
static __thread uint8_t hits[NMAP];
static __thread uint32_t touched[NMAP];
static __thread uint32_t n_touched;
static __thread uint8_t vp[NMAP];
static __thread uint32_t vtouched[NMAP];
static __thread uint32_t n_vtouched;
static __thread uint64_t cmp_a[NCMP], cmp_b[NCMP];
static __thread uint32_t n_cmp;
static __thread uint64_t steps, limit;
static __thread int active;
static __thread sigjmp_buf out;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *s, uint32_t *e) { if (s == e || *s) return; for (; s < e; s++) *s = ++n_guards; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!active) return;
  uint32_t i = *g & (NMAP - 1);
  uint8_t h = hits[i];
  if (h == 0) touched[n_touched++] = i;
  if (h != 255) hits[i] = h + 1;
  if (++steps > limit) { active = 0; siglongjmp(out, 1); }
}
static inline void feat(uint64_t pc, uint64_t a, uint64_t b, int bits) {
  if (!active) return;
  if (a != b && n_cmp < NCMP) { cmp_a[n_cmp] = a; cmp_b[n_cmp] = b; n_cmp++; }
  uint64_t x = a ^ b, d = a > b ? a - b : b - a;
  uint32_t f = x == 0 ? 0 : 1 + __builtin_popcountll(x);
  uint32_t g = d == 0 ? 0 : 65 + (63 - __builtin_clzll(d));
  uint64_t h = (pc * 0x9e3779b97f4a7c15u) >> 20;
  uint32_t i = (h + f * 131) & (NMAP - 1), j = (h + g * 257 + 7) & (NMAP - 1);
  if (!vp[i]) { vp[i] = 1; vtouched[n_vtouched++] = i; }
  if (!vp[j]) { vp[j] = 1; vtouched[n_vtouched++] = j; }
}
#define PC ((uint64_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { feat(PC, a, b, 8); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { feat(PC, a, b, 16); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { feat(PC, a, b, 32); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { feat(PC, a, b, 64); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { feat(PC, a, b, 8); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { feat(PC, a, b, 16); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { feat(PC, a, b, 32); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { feat(PC, a, b, 64); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { for (uint64_t i = 0; i < c[0] && i < 16; i++) feat(PC + i, v, c[2 + i], 64); }
void __sanitizer_cov_trace_div4(uint32_t v) { feat(PC, v, 0, 32); }
void __sanitizer_cov_trace_div8(uint64_t v) { feat(PC, v, 0, 64); }
void __sanitizer_cov_trace_gep(uintptr_t v) { }

// Run f(p) under observation; returns the number of steps, or -1 if the limit was exceeded.
int64_t cov_run(void (*f)(void *), void *p, uint64_t lim) {
  for (uint32_t i = 0; i < n_touched; i++) hits[touched[i]] = 0;
  for (uint32_t i = 0; i < n_vtouched; i++) vp[vtouched[i]] = 0;
  n_touched = n_vtouched = n_cmp = 0;
  steps = 0; limit = lim;
  if (sigsetjmp(out, 0)) return -1;
  active = 1;
  f(p);
  active = 0;
  return (int64_t)steps;
}
// Merge the last run into the accumulated sets; returns 2 for a new branch feature, 1 for a new comparison feature.
int cov_merge(uint8_t *acc, uint8_t *vacc) {
  int r = 0;
  for (uint32_t k = 0; k < n_touched; k++) {
    uint32_t i = touched[k]; uint8_t h = hits[i];
    uint8_t b = h == 1 ? 1 : h == 2 ? 2 : h == 3 ? 4 : h < 8 ? 8 : h < 16 ? 16 : h < 32 ? 32 : h < 128 ? 64 : 128;
    if (!(acc[i] & b)) { acc[i] |= b; r |= 2; }
  }
  for (uint32_t k = 0; k < n_vtouched; k++) { uint32_t i = vtouched[k]; if (!vacc[i]) { vacc[i] = 1; r |= 1; } }
  return r;
}
uint32_t cov_cmps(uint64_t *a, uint64_t *b) { memcpy(a, cmp_a, n_cmp * 8); memcpy(b, cmp_b, n_cmp * 8); return n_cmp; }
uint32_t cov_branches(const uint8_t *acc) { uint32_t n = 0; for (int i = 0; i < NMAP; i++) n += acc[i] != 0; return n; }
uint32_t cov_guards(void) { return n_guards; }

static void (*crash_cb)(int);
static void on_sig(int s) { signal(s, SIG_DFL); crash_cb(s); }
void vp_install(void (*cb)(int)) {
  crash_cb = cb;
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE};
  for (int i = 0; i < 4; i++) sigaction(sigs[i], &sa, 0);
}
void vp_altstack(void *mem, size_t size) {
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_size = size; ss.ss_sp = mem;
  sigaltstack(&ss, 0);
}
int vp_cpu_clock(void) { clockid_t c; return pthread_getcpuclockid(pthread_self(), &c) ? -1 : (int)c; }
int64_t vp_cpu_ns(int c) { struct timespec t; return clock_gettime((clockid_t)c, &t) ? -1 : t.tv_sec * 1000000000ll + t.tv_nsec; }
