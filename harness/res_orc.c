// Oracle for resolution and forcing: the contribution of each driver is a
// history of values; the value of the signal is computed from the
// contributions at the time of the observation.
#include "orc.h"
#include <string.h>

typedef struct { int64_t t[MAXT], v[MAXT], n, init, nulls[MAXT]; } drv_t;
static drv_t R[32];

// procedure r_init(id, v)
void _r_init(scalar_t *a) { R[a[2].integer].n = 0; R[a[2].integer].init = a[3].integer; }

// procedure r_add(id, v, t): v = -1000: null transaction
void _r_add(scalar_t *a)
{
   drv_t *d = &R[a[2].integer];
   d->v[d->n] = a[3].integer;
   d->t[d->n++] = a[4].integer;
}

static int64_t at(int id, int64_t t)
{
   drv_t *d = &R[id];
   int64_t v = d->init;
   for (int i = 0; i < d->n; i++)
      v = ITE(d->t[i] <= t, d->v[i], v);
   return v;
}

// function r_value(id, t)
void _r_value(scalar_t *a) { a[0].integer = at(a[1].integer, a[2].integer); }

// U X 0 1 Z W L H -
static const char table[9][10] = {
   "UUUUUUUUU", "UXXXXXXXX", "UX0X0000X", "UXX11111X", "UX01ZWLHX",
   "UX01WWWWX", "UX01LWLWX", "UX01HWWHX", "UXXXXXXXX"
};

// The resolved value as a formula over the driving values (no branches)
static int64_t res2(int64_t a, int64_t b)
{
   static uint8_t pos[9][9];
   if (!pos[0][1] && !pos[1][1])
      for (int i = 0; i < 9; i++)
         for (int j = 0; j < 9; j++)
            pos[i][j] = strchr("UX01ZWLH-", table[i][j]) - "UX01ZWLH-";
   return pos[a][b];
}

// function r_std(first, last, t): resolution of std_logic drivers
void _r_std(scalar_t *a)
{
   int64_t r = at(a[1].integer, a[3].integer);
   if (a[1].integer == a[2].integer)
      r = ITE(r == 8, 8, r);
   for (int i = a[1].integer + 1; i <= a[2].integer; i++)
      r = res2(r, at(i, a[3].integer));
   a[0].integer = r;
}

// function r_sum(first, last, t): sum over the drivers which are not
// disconnected, plus 1000 per such driver
void _r_sum(scalar_t *a)
{
   int64_t r = 0;
   for (int i = a[1].integer; i <= a[2].integer; i++) {
      const int64_t v = at(i, a[3].integer);
      r += ITE(v == -1000, 0, v + 1000);
   }
   a[0].integer = r;
}

// Forcing: function f_value(id, t, drv): value of a signal with forces
// (value -2000: release) over driving value drv
void _f_value(scalar_t *a)
{
   const int64_t v = at(a[1].integer, a[2].integer);
   a[0].integer = ITE(v == -2000, a[3].integer, v);
}
