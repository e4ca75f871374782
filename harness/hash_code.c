/* the contract assumed for hashCode in specs/hash.py: the value depends on the key only, 0..255, nothing is written */
#include "vh.h"
#include <mpi.h>
#ifdef BLOCKING
#include "src/mpi/hash_table_blocking.c"
typedef MPI_Comm KEY;
#else
#include "src/mpi/hash_table.c"
typedef MPI_Request KEY;
#endif
void h_hash_code(void) {
  long long v = vh_bits("key", -9223372036854775807LL - 1, 9223372036854775807LL);
  KEY a, b, c;
  memcpy(&a, &v, sizeof(a));
  memcpy(&b, &v, sizeof(b));
  memcpy(&c, &v, sizeof(c));
  int r = hashCode(&a), s = hashCode(&b);
  VH_CHECK(r >= 0 && r <= 255, "slot index in range");
  VH_CHECK(r == s, "depends on the key only");
  VH_CHECK(a == c && b == c, "key unchanged");
  VH_COVER("end");
}
VH_MAIN(h_hash_code)
