/* One harness, three readings.
 *  - under CBMC (__CPROVER__) vh_int() is a fresh symbolic value: the harness is a proof for all values
 *  - natively it is a choice: enumerated exhaustively (depth first), drawn at random, or replayed from a file
 * VH_CHECK states a clause of the contract; a failing clause ends the run. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef __CPROVER__
long long nondet_ll(void);
static long long vh_in[512];
static int vh_n;
static long long vh_int(const char *name, long long lo, long long hi) {
  long long v = nondet_ll();
  __CPROVER_assume(v >= lo && v <= hi);
  vh_in[vh_n++] = v;
  return v;
}
#define vh_bits vh_int
#define VH_CHECK(c, msg) __CPROVER_assert(c, msg)
#define VH_ASSUME(c) __CPROVER_assume(c)
#define VH_COVER(msg) __CPROVER_assert(0, "COVER " msg)
#define VH_NOTE(...)
#define VH_MAIN(f)
#else
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <fcntl.h>
#include <setjmp.h>
#include <time.h>
#include <stdint.h>

struct vh_rec { char name[24]; long long v, lo, hi; };
struct vh_shm { int n; int failed; char msg[400]; long long runs, checks, ended; struct vh_rec r[8192]; };
static struct vh_shm *vh_s;
static int vh_mode;               /* 0 exhaustive, 1 random, 2 replay */
static long long vh_script[8192]; /* choices to follow */
static int vh_nscript;
static uint64_t vh_rng;
static jmp_buf vh_jmp;
static uint64_t vh_next(void) {
  vh_rng += 0x9E3779B97F4A7C15ull;
  uint64_t z = vh_rng;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static long long vh_int(const char *name, long long lo, long long hi) {
  long long v;
  int i = vh_s->n;
  if (hi < lo) { longjmp(vh_jmp, 2); }
  if (i < vh_nscript) {
    v = vh_script[i];
    if (v < lo || v > hi) longjmp(vh_jmp, 2);
  } else if (vh_mode == 0 || vh_mode == 2) {
    v = lo;
  } else {
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1, r = vh_next();
    switch (r % 8) {
    case 0: v = lo + (long long)((r >> 8) % (span && span < 3 ? span : 3)); break;
    case 1: v = hi - (long long)((r >> 8) % (span && span < 3 ? span : 3)); break;
    case 2: { uint64_t s2 = span && span < 17 ? span : 17; v = lo + (long long)((r >> 8) % s2); break; }
    case 3: { int b = (int)((r >> 8) % 63); long long w = (1ll << b) + (long long)((r >> 16) % 3) - 1; if ((r >> 20) & 1) w = -w; v = w < lo || w > hi ? lo + (long long)(span ? vh_next() % span : vh_next()) : w; break; }
    default: v = lo + (long long)(span ? vh_next() % span : vh_next());
    }
    if (v < lo || v > hi) v = lo;
  }
  if (i < 8192) {
    strncpy(vh_s->r[i].name, name, 23);
    vh_s->r[i].v = v; vh_s->r[i].lo = lo; vh_s->r[i].hi = hi;
  }
  vh_s->n = i + 1;
  return v;
}
/* full-width value, used where enumeration makes no sense */
static inline long long vh_bits(const char *name, long long lo, long long hi) {
  if (vh_mode == 0 && vh_s->n >= vh_nscript) {
    int sm = vh_mode; long long v;
    int keep = vh_s->n;
    vh_mode = 1; v = vh_int(name, lo, hi); vh_mode = sm;
    vh_s->r[keep].lo = vh_s->r[keep].hi = v;      /* one draw per visit, not enumerated */
    return v;
  }
  return vh_int(name, lo, hi);
}
static void vh_fail(const char *msg) {
  vh_s->failed = 1;
  snprintf(vh_s->msg, sizeof(vh_s->msg), "%s", msg);
  fprintf(stderr, "VH-FAIL %s\n", msg);
  fflush(stderr);
  _exit(77);
}
static void vh_alarm(int s) { (void)s; vh_fail("does not terminate (time limit for one case)"); }
#define VH_STR2(x) #x
#define VH_STR(x) VH_STR2(x)
#define VH_CHECK(c, msg) do { vh_s->checks++; if (!(c)) vh_fail(msg); } while (0)
#define VH_ASSUME(c) do { if (!(c)) longjmp(vh_jmp, 2); } while (0)
#define VH_COVER(msg) do { } while (0)
#define VH_NOTE(...) do { if (vh_mode == 2) { fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); } } while (0)
/* usage: prog exhaustive SECONDS SEED [MAX] | random SECONDS SEED [MAX] | replay v1 v2 ...
 * prints one line: RESULT status=ok|fail runs=.. checks=.. complete=0|1 */
static int vh_drive(void (*f)(void), int argc, char **argv) {
  double limit; long long max = -1, k; int complete = 0, child_fail = 0;
  vh_s = mmap(NULL, sizeof(*vh_s), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc < 2) return 2;
  vh_mode = argv[1][0] == 'e' ? 0 : argv[1][0] == 'r' && argv[1][1] == 'a' ? 1 : 2;
  if (vh_mode == 2) {
    for (k = 2; k < argc && k - 2 < 8192; k++) vh_script[k - 2] = atoll(argv[k]);
    vh_nscript = argc - 2;
    limit = 0;
  } else {
    limit = atof(argv[2]);
    vh_rng = (uint64_t)atoll(argv[3]) * 0x9E3779B97F4A7C15ull + 12345;
    if (argc > 4) max = atoll(argv[4]);
  }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    struct timespec t0, t1;
    signal(SIGALRM, vh_alarm);
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) {
      vh_s->n = 0;
      alarm(20);
      int j = setjmp(vh_jmp);
      if (j == 0) { f(); vh_s->runs++; }
      if (vh_mode == 2) { if (j) fprintf(stderr, "assumption not met\n"); break; }
      if (vh_mode == 0) {       /* advance the last choice that has room */
        int i = vh_s->n - 1;
        if (i >= 8191) i = 8190;
        while (i >= 0 && vh_s->r[i].v >= vh_s->r[i].hi) i--;
        if (i < 0) { vh_s->ended = 1; break; }
        for (k = 0; k < i; k++) vh_script[k] = vh_s->r[k].v;
        vh_script[i] = vh_s->r[i].v + 1;
        vh_nscript = i + 1;
      }
      if (max >= 0 && vh_s->runs >= max) break;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > limit) break;
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  child_fail = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  complete = vh_s->ended;
  if (child_fail) {
    int n = vh_s->n < 8192 ? vh_s->n : 8192;
    printf("INPUT");
    for (k = 0; k < n; k++) printf(" %lld", vh_s->r[k].v);
    printf("\nNAMES");
    for (k = 0; k < n; k++) printf(" %s=%lld", vh_s->r[k].name, vh_s->r[k].v);
    printf("\nMSG %s\n", vh_s->failed ? vh_s->msg : WIFSIGNALED(st) ? "killed by a signal" : "aborted (sanitizer or library abort)");
  }
  printf("RESULT status=%s runs=%lld checks=%lld complete=%d\n", child_fail ? "fail" : "ok", vh_s->runs, vh_s->checks, complete);
  return child_fail ? 1 : 0;
}
#define VH_MAIN(f) int main(int argc, char **argv) { return vh_drive(f, argc, argv); }
#endif
#endif
