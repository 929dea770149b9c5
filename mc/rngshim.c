/* Replaces erand48 inside the freshly built extensions (ld --wrap), so that the
 * random choices of the matcher are owned by the explorer.
 * mode 0: deterministic stream seeded by mcrng_seed
 * mode 1: as mode 0, but the draws listed in (pos[], val[]) are overridden      */
#include <stdint.h>
#include <stdlib.h>
static uint64_t st = 0x1234abcd330eULL;
static long count = 0;
static int ndev = 0;
static long dpos[64];
static double dval[64];
void mcrng_seed(uint64_t s) { st = (s << 16) + 0x330e; count = 0; ndev = 0; }
void mcrng_deviate(long pos, double val) { if (ndev < 64) { dpos[ndev] = pos; dval[ndev] = val; ndev++; } }
long mcrng_count(void) { return count; }
double __wrap_erand48(unsigned short x[3]) {
  (void)x;
  st = (st * 0x5DEECE66DULL + 0xB) & 0xffffffffffffULL;
  double v = (double)st / 281474976710656.0;
  for (int i = 0; i < ndev; i++) if (dpos[i] == count) v = dval[i];
  count++;
  return v;
}
