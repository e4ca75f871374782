/* C06: nobody leaves a barrier before everybody has entered it, and nobody waits for more than that */
#include "vh.h"
#include <mpi.h>
#include <pthread.h>
#include <limits.h>
MPI_Comm ext_mpi_COMM_WORLD_dup;
#include "src/mpi/ext_mpi_native_exec.c"
#define L (CACHE_LINE_SIZE / (int)sizeof(int))
#define MAXN 17
#define SR 3                              /* slots per segment in node barriers: several ranks of one socket side by side */
static int area[MAXN * L], segs[MAXN][MAXN * L];
/* counters wrap around */
#define ADD(a, b) ((int)((unsigned)(a) + (unsigned)(b)))
#define SUB(a, b) ((int)((unsigned)(a) - (unsigned)(b)))
static int log2up(int n) { int k = 0, s = 1; while (s < n) { s *= 2; k++; } return k; }

/* one rank, arbitrary arrival state of the others */
static void h_slots(void) {
  int n = (int)vh_int("n", 1, MAXN - 1), rank = (int)vh_int("rank", 0, n - 1), node = (int)vh_int("node", 0, 1), blocking = (int)vh_int("blocking", 0, 1), i, k, s, c, cnt, open = -1, K = log2up(n);
  static const int starts[] = {1, 5, INT_MAX - 2, INT_MAX, INT_MAX - 1, INT_MIN};
  char *tab[MAXN];
  int sr = node ? rank % SR : rank;
  cnt = c = starts[vh_int("counter", 0, 5)];
  for (i = 0; i < n; i++) { tab[i] = (char *)segs[(rank + i) % n]; memset(segs[i], 0, sizeof(segs[i])); area[i * L] = SUB(c, 1); }
  memset(area, 0, sizeof(area));
  /* arrival of the rank at distance d: how far its slot is relative to the counter */
  for (i = 0; i < n; i++) {
    int v = i == 0 ? SUB(c, 1) : ADD(c, -1 + (int)vh_int("slot", 0, K + 1));
    if (node) segs[(rank + i) % n][sr * L] = v; else area[((rank + i) % n) * L] = v;
  }
  for (k = 0, s = 1; s < n; s *= 2, k++) {
    int v = node ? segs[(rank + s) % n][sr * L] : area[((rank + s) % n) * L];
    if (SUB(v, ADD(c, k)) < 0) { open = k; break; }
  }
  if (blocking) {
    VH_ASSUME(open < 0);                  /* the waiting itself is exercised with threads */
    if (node) node_barrier(tab, &cnt, sr, n); else socket_barrier((char *)area, &cnt, rank, n);
    VH_CHECK(cnt == ADD(c, K), "the counter advances by one per step");
  } else {
    int r = node ? node_barrier_test(tab, c, sr, n) : socket_barrier_test((char *)area, c, rank, n);
    VH_CHECK((r == 0) == (open < 0), "the test passes exactly when every partner has arrived");
  }
  int own = node ? segs[rank][sr * L] : area[rank * L];
  int steps = open < 0 ? K : open + 1;
  VH_CHECK(n == 1 || own == ADD(c, steps - 1), "the own slot announces exactly the steps reached");
  for (i = 0; i < n; i++)
    for (k = 0; k < n * L; k++) {
      int mine = node ? i == rank && k == sr * L : k == rank * L, slot = node ? k == sr * L : k % L == 0;
      if (!mine && !slot) VH_CHECK((node ? segs[i][k] : area[k]) == 0, "nothing but slots is written");
    }
}

/* signals */
static void h_signal(void) {
  int e = (int)vh_int("entry", 0, MAXN - 1), d = (int)vh_int("ahead", 0, 6) - 3, c = (int)vh_int("counter", 0, 1) ? ADD(INT_MAX, vh_int("past", 0, 6) - 3) : 1, cnt = c, i;
  memset(area, 0, sizeof(area));
  area[e * L] = ADD(c, d);
  VH_CHECK((socket_barrier_atomic_test((char *)area, c, e) != 0) == (d < 0), "the signal is pending exactly while it has not been given");
  if (d >= 0) { socket_barrier_atomic_wait((char *)area, &cnt, e); VH_CHECK(cnt == ADD(c, 1), "the counter advances by one"); }
  socket_barrier_atomic_set((char *)area, c, e);
  for (i = 0; i < MAXN * L; i++) VH_CHECK(area[i] == (i == e * L ? c : 0), "the signal sets its own slot only");
}

/* all ranks as threads; one of them is late for one barrier */
static volatile int entered[MAXN], left_[MAXN];
static volatile int bad;
static int tn, tnode, tlate, tround, trounds, tpoll, tstart;
static void one(int r, int *cnt, char **tab) {
  if (tpoll) {
    if (tnode) { while (node_barrier_test(tab, *cnt, 1, tn)) sched_yield(); node_barrier(tab, cnt, 1, tn); }
    else { while (socket_barrier_test((char *)area, *cnt, r, tn)) sched_yield(); socket_barrier((char *)area, cnt, r, tn); }
  } else if (tnode) node_barrier(tab, cnt, 1, tn);
  else socket_barrier((char *)area, cnt, r, tn);
}
static void *thr(void *a) {
  int r = (int)(intptr_t)a, b, i, cnt = tstart;
  char *tab[MAXN];
  for (i = 0; i < tn; i++) tab[i] = (char *)segs[(r + i) % tn];
  for (b = 1; b <= trounds; b++) {
    if (r == tlate && b == tround) usleep(3000);
    __atomic_store_n(&entered[r], b, __ATOMIC_SEQ_CST);
    one(r, &cnt, tab);
    for (i = 0; i < tn; i++)
      if (__atomic_load_n(&entered[i], __ATOMIC_SEQ_CST) < b) __atomic_store_n(&bad, 1, __ATOMIC_SEQ_CST);
  }
  __atomic_store_n(&left_[r], cnt, __ATOMIC_SEQ_CST);
  return NULL;
}
static void h_threads(void) {
  pthread_t t[MAXN];
  int i;
  tn = (int)vh_int("n", 1, 8);
  tnode = (int)vh_int("node", 0, 1);
  tpoll = (int)vh_int("poll", 0, 1);
  tlate = (int)vh_int("late", 0, tn - 1);
  tround = (int)vh_int("round", 1, 2);
  trounds = 3;
  tstart = vh_int("start", 0, 1) ? INT_MAX - 3 : 1;
  bad = 0;
  for (i = 0; i < (int)(sizeof(area) / sizeof(int)); i++) area[i] = SUB(tstart, 1);
  for (i = 0; i < (int)(sizeof(segs) / sizeof(int)); i++) ((int *)segs)[i] = SUB(tstart, 1);
  for (i = 0; i < tn; i++) entered[i] = 0;
  for (i = 0; i < tn; i++) pthread_create(&t[i], NULL, thr, (void *)(intptr_t)i);
  for (i = 0; i < tn; i++) pthread_join(t[i], NULL);
  VH_CHECK(!bad, "nobody leaves before the late rank has entered");
  for (i = 0; i < tn; i++) VH_CHECK(left_[i] == ADD(tstart, trounds * log2up(tn)), "all ranks keep the same counter");
}
VH_MAIN(ENTRY)
