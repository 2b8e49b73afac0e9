// Oracle for signal attributes: the history of each scalar is a list of
// transactions, the attributes follow from their definitions in IEEE
// 1076-2008 section 16.2.
#include "orc.h"
#include "rt/model.h"

typedef struct { int64_t t[MAXT], v[MAXT]; int n; int64_t init; } hist_t;
static hist_t H[16];

#define FOREVER INT64_MAX

// procedure h_init(id, v)
void _h_init(scalar_t *a) { H[a[2].integer].n = 0; H[a[2].integer].init = a[3].integer; }

// procedure h_add(id, v, t): transaction with value v at absolute time t
void _h_add(scalar_t *a)
{
   hist_t *h = &H[a[2].integer];
   h->v[h->n] = a[3].integer;
   h->t[h->n++] = a[4].integer;
}

static int64_t value_at(hist_t *h, int64_t t)
{
   int64_t v = h->init;
   for (int i = 0; i < h->n; i++)
      if (h->t[i] <= t)
         v = h->v[i];
   return v;
}

// function h_value(id, t)
void _h_value(scalar_t *a) { a[0].integer = value_at(&H[a[1].integer], a[2].integer); }

static int64_t last(hist_t *h, int64_t t, bool events)
{
   int64_t r = FOREVER, prev = h->init;
   for (int i = 0; i < h->n; i++) {
      if (h->t[i] <= t && (!events || h->v[i] != prev))
         r = t - h->t[i];
      prev = h->v[i];
   }
   return r;
}

// function h_last_event(id, t): time since the last event
void _h_last_event(scalar_t *a) { a[0].integer = last(&H[a[1].integer], a[2].integer, true); }

// function h_last_active(id, t)
void _h_last_active(scalar_t *a) { a[0].integer = last(&H[a[1].integer], a[2].integer, false); }

// function h_last_value(id, t)
void _h_last_value(scalar_t *a)
{
   hist_t *h = &H[a[1].integer];
   int64_t prev = h->init, r = value_at(h, a[2].integer);
   for (int i = 0; i < h->n; i++) {
      if (h->t[i] <= a[2].integer && h->v[i] != prev)
         r = prev;
      prev = h->v[i];
   }
   a[0].integer = r;
}

// function h_count(id, t): number of transactions up to t
void _h_count(scalar_t *a)
{
   hist_t *h = &H[a[1].integer];
   int n = 0;
   for (int i = 0; i < h->n; i++)
      if (h->t[i] <= a[2].integer)
         n++;
   a[0].integer = n;
}

// Wait statements: IEEE 1076-2008 section 10.2
static bool event_at(int id, int64_t t)
{
   return last(&H[id], t, true) == 0;
}

static int64_t next_wake(int sens, int ncond, const int cid[], const int64_t cval[],
                         int64_t t0, int64_t limit)
{
   int64_t best = limit;
   for (int id = 0; id < 16; id++) {
      if (!(sens & (1 << id)))
         continue;
      hist_t *h = &H[id];
      for (int i = 0; i < h->n; i++) {
         const int64_t t = h->t[i];
         if (t <= t0 || t >= best || !event_at(id, t))
            continue;
         bool ok = true;
         for (int j = 0; j < ncond; j++)
            if (value_at(&H[cid[j]], t) != cval[j])
               ok = false;
         if (ok)
            best = t;
      }
   }
   return best;
}

// function h_wake(sens, c0, v0, c1, v1 : integer; t0, limit : time): time at
// which a process waiting since t0 on the signals of the bit mask sens, until
// signals c0, c1 (unless -1) have values v0, v1, at most to time limit, resumes
void _h_wake(scalar_t *a)
{
   int cid[2], n = 0;
   int64_t cval[2];
   for (int i = 0; i < 2; i++) {
      if (a[2 + i * 2].integer >= 0) {
         cid[n] = a[2 + i * 2].integer;
         cval[n++] = a[3 + i * 2].integer;
      }
   }
   a[0].integer = next_wake(a[1].integer, n, cid, cval, a[6].integer, a[7].integer);
}

// function h_events(sens, t): number of different times in 1..t at which a
// signal of the mask has an event
void _h_events(scalar_t *a)
{
   const int z = 0;
   int64_t t = 0, n = 0;
   while ((t = next_wake(a[1].integer, 0, &z, NULL, t, FOREVER)) <= a[2].integer
          && t != FOREVER)
      n++;
   a[0].integer = n;
}
