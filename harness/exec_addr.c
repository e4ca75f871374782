/* C05/C13: operands of the byte code, and the addresses of the blocking executor */
#include "vh.h"
#include <mpi.h>
#include <limits.h>
#include <stdint.h>
#ifndef BO
#define BO 0xFFFFFFF
#define BC (1 << 16)
#endif
MPI_Comm ext_mpi_COMM_WORLD_dup;
#include "src/mpi/ext_mpi_native_exec.c"
static void *nadr(int a, long o) { return (void *)(a == 0 ? 0x80000000L + o : a == 1 ? 0x90000000L + o : ((long)(a - 2) << 28) + o); }
static long clip(int a, long o, long n, long io) { if (a > 1) return n; if (o + n > io) n = io - o; return n < 0 ? 0 : n; }
/* ------------------------------------------------------------ addresses (also by CBMC) */
static void h_normadr(void) {
  long x = vh_bits("address", 0, BO), r;
  int a = (int)vh_int("area", 0, 4), count = (int)vh_bits("count", 1, BC);
  void *p = nadr(a, x);
  normalize_address(count, &p);
  r = (long)p - (long)nadr(a, 0);
  VH_CHECK(r >= 0 && r <= x, "normalising keeps the buffer");
  VH_CHECK(r * count <= x && x - r * count < count, "normalising divides the offset");
  VH_COVER("address");
}
static char sb[4], rb[4], s0[4], s1[4], s2[4];
static void h_recalc(void) {
  long o = vh_bits("offset", 0, 0xFFFFFFF), n = vh_bits("size", 0, 0x7FFFFFF), d;
  int a = (int)vh_int("area", 0, 4), count = (int)vh_bits("count", 1, 1 << 16), io = (int)vh_bits("io", 0, 0x7FFFFFFF), size;
  void *shm[3] = {s0, s1, s2}, *adr = nadr(a, o);
  VH_ASSUME(o <= 0xFFFFFFF / count);
  d = o * count;
  size = (int)n;
  recalculate_address_io(sb, rb, count, shm, io, &adr, &size);
  if (a == 0) VH_CHECK((long)adr == (long)sb + d, "send buffer address");
  if (a == 1) VH_CHECK((long)adr == (long)rb + d, "receive buffer address");
  if (a > 1) VH_CHECK((long)adr == (long)shm[a - 2] + d, "shared segment address");
  VH_CHECK(size == clip(a, d, n, io), "a piece is clipped to the user's buffers");
  VH_COVER("address");
}
static void h_paddr(void) {
  long o = vh_bits("offset", 0, 0xFFFFFFF);
  int a = (int)vh_int("area", 0, 4), have = (int)vh_int("segments", 0, 1);
  void *shm[3] = {(void *)0, (void *)0x10000000L, (void *)0x20000000L};
  VH_ASSUME(have || a <= 2);
  VH_CHECK(exec_padding_address(nadr(a, o), (void *)0x80000000L, (void *)0x90000000L, have ? shm : NULL) == o, "the offset inside the buffer");
  VH_COVER("address");
}
static void h_code(void) {
  char b[16], *w = b, *r = b;
  char c = (char)vh_bits("char", -128, 127); int i = (int)vh_bits("int", INT_MIN, INT_MAX); void *q = (void *)(intptr_t)vh_bits("pointer", 0, 0x7fffffffffffLL);
  code_put_char(&w, c, 0); code_put_int(&w, i, 0); code_put_pointer(&w, q, 0);
  VH_CHECK(w == b + 13, "operands are stored without gaps");
  VH_CHECK(code_get_char(&r) == c, "char operand round trip");
  VH_CHECK(code_get_int(&r) == i, "int operand round trip");
  VH_CHECK(code_get_pointer(&r) == q, "pointer operand round trip");
  VH_CHECK(r == w, "reading advances as writing");
  { char *w2 = b; code_put_char(&w2, 1, 1); code_put_int(&w2, 2, 1); code_put_pointer(&w2, NULL, 1); VH_CHECK(w2 == w, "a dry run advances alike"); r = b; VH_CHECK(code_get_char(&r) == c && code_get_int(&r) == i && code_get_pointer(&r) == q, "a dry run stores nothing"); }
  VH_COVER("code");
}
VH_MAIN(ENTRY)
