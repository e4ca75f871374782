/* C02: the request (communicator) table is a finite map */
#include "vh.h"
#include <mpi.h>
#ifdef BLOCKING
#include "src/mpi/hash_table_blocking.c"
#define KEY MPI_Comm
#define NUL MPI_COMM_NULL
#define SEARCH ext_mpi_hash_search_blocking
#define INSERT ext_mpi_hash_insert_blocking
#define DELETE ext_mpi_hash_delete_blocking
#define INIT ext_mpi_hash_init_blocking
#define DONE ext_mpi_hash_done_blocking
#else
#include "src/mpi/hash_table.c"
#define KEY MPI_Request
#define NUL MPI_REQUEST_NULL
#define SEARCH ext_mpi_hash_search
#define INSERT ext_mpi_hash_insert
#define DELETE ext_mpi_hash_delete
#define INIT ext_mpi_hash_init
#define DONE ext_mpi_hash_done
#endif

#ifndef NKEYS
#define NKEYS 1000
#endif
static KEY mk(int k) { return (KEY)(uintptr_t)(0x1000 + 8 * (uintptr_t)k + ((uintptr_t)(k % 5) << 32)); }
static int model[NKEYS];

static void run(void) {
#ifdef SMALL
  int nk = 3, nops = (int)vh_int("ops", 1, 5), density = 50;
#else
  int nk = (int)vh_int("keys", 1, NKEYS), nops = (int)vh_int("ops", 1, 2500), density = (int)vh_int("density", 0, 100);
#endif
  int i, live = 0, k;
  for (i = 0; i < nk; i++) model[i] = -1;
  VH_CHECK(INIT() == 0, "initialisation succeeds");
  for (i = 0; i < nops; i++) {
    int op = (int)vh_int("op", 0, 2);
    k = (int)vh_int("key", 0, nk - 1);
    KEY key = mk(k);
#ifndef SMALL
    if (op == 1 && (int)(k * 37 % 100) < density) op = 0;    /* grow the table in some runs */
    if (nops - i < 30 && op == 0) op = 2;
#endif
    if (op == 0) {
      if (model[k] >= 0) continue;
      INSERT(&key, model[k] = i + 1);
      live++;
    } else if (op == 1) {
      int r = DELETE(&key);
      VH_CHECK(r == model[k], "delete returns the stored handle, -1 when absent");
      if (model[k] >= 0) live--;
      model[k] = -1;
    } else {
      VH_CHECK(SEARCH(&key) == model[k], "search returns the stored handle, -1 exactly when absent");
    }
  }
  for (k = 0; k < nk; k++) {
    KEY key = mk(k);
    VH_CHECK(SEARCH(&key) == model[k], "every key keeps its own handle through the history");
    VH_CHECK(key == mk(k), "the key is not changed");
  }
  DONE();
}
VH_MAIN(run)
