// Oracle for the simulation cycle (IEEE 1076-2008 14.7.5): every process and
// every transaction has a position (time, delta)
#include "orc.h"

static int64_t T[8], D[8];
static struct { int64_t t, d, v, set; } S[16];
static int nsig = 0;

// procedure c_wait(pid, w): process pid waits for w fs
void _c_wait(scalar_t *a)
{
   const int p = a[2].integer;
   const int64_t w = a[3].integer;
   D[p] = ITE(w == 0, D[p] + 1, 0);
   T[p] += w;
}

// procedure c_assign(pid, sig, v, after)
void _c_assign(scalar_t *a)
{
   const int p = a[2].integer, s = a[3].integer;
   const int64_t w = a[5].integer;
   S[s].t = T[p] + w;
   S[s].d = ITE(w == 0, D[p] + 1, 0);
   S[s].v = a[4].integer;
   S[s].set = 1;
   if (s >= nsig) nsig = s + 1;
}

static int64_t cmp_le(int s, int p)
{
   return OR(S[s].t < T[p], AND(S[s].t == T[p], S[s].d <= D[p]));
}

// function c_now(pid): the time at which process pid runs
void _c_now(scalar_t *a) { a[0].integer = T[a[1].integer]; }

// function c_value(pid, sig): value process pid has to see now
void _c_value(scalar_t *a)
{
   const int p = a[1].integer, s = a[2].integer;
   a[0].integer = S[s].set ? ITE(cmp_le(s, p), S[s].v, 0) : 0;
}

// function c_event(pid, sig)
void _c_event(scalar_t *a)
{
   const int p = a[1].integer, s = a[2].integer;
   a[0].integer = S[s].set ? AND(AND(S[s].t == T[p], S[s].d == D[p]), S[s].v != 0) : 0;
}

// function c_final(sig, t): value after the last delta cycle of time t
void _c_final(scalar_t *a)
{
   const int s = a[1].integer;
   a[0].integer = S[s].set ? ITE(S[s].t <= a[2].integer, S[s].v, 0) : 0;
}

// function c_times: number of different times with an event
void _c_times(scalar_t *a)
{
   int64_t n = 0;
   for (int i = 0; i < nsig; i++) {
      if (!S[i].set || S[i].v == 0)
         continue;
      bool dup = false;
      for (int j = 0; j < i; j++)
         if (S[j].set && S[j].v != 0 && S[i].t == S[j].t)
            dup = true;
      n += !dup;
   }
   a[0].integer = n;
}

// Stop time: which of the announced moments happened
static struct { int64_t t; int done; } due[16];
static int ndue;
static int64_t stop_at;

// procedure c_stop(t)
void _c_stop(scalar_t *a) { stop_at = a[2].integer; }
// function c_due(t) return id
void _c_due(scalar_t *a) { due[ndue].t = a[1].integer; a[0].integer = ndue++; }
// procedure c_happened(id, now)
void _c_happened(scalar_t *a)
{
   const int i = a[2].integer;
   CHECK(due[i].t == a[3].integer, "happens at the right time");
   due[i].done++;
}

void orc_final(void)
{
   for (int i = 0; i < ndue; i++) {
      CHECK(due[i].done <= 1, "happens once");
      CHECK((due[i].t <= stop_at) == (due[i].done == 1),
            "everything up to the stop time happens and nothing after it");
   }
   if (ndue > 0) REACH("final");
}
