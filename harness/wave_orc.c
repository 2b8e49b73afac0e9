// Oracle for signal drivers: the projected output waveform rules of IEEE
// 1076-2008 section 10.5.2.2, written from the LRM text.
#include "orc.h"
#include "rt/model.h"

typedef struct { int64_t when, value, st; unsigned sd; } trans_t;
typedef struct { trans_t t[MAXT]; int n; trans_t due; bool have_due, quiet; int64_t cur; } drv_t;

static drv_t drv[8];

// Move the transaction that took effect in this simulation cycle to `due'
static void advance(drv_t *d)
{
   unsigned delta;
   int64_t now = model_now(get_model(), &delta);
   while (d->n > 0) {
      trans_t *t = &d->t[0];
      if (t->when > now || (t->when == now && t->st == now && t->sd >= delta))
         break;
      CHECK(d->quiet || !d->have_due, "every transaction makes its driver active");
      d->cur = t->value;
      d->due = *t;
      d->have_due = true;
      for (int i = 1; i < d->n; i++)
         d->t[i - 1] = d->t[i];
      d->n--;
   }
}

// procedure orc_init(d, value)
void _orc_init(scalar_t *a)
{
   drv_t *d = &drv[a[2].integer];
   d->n = 0;
   d->cur = a[3].integer;
}

// procedure orc_sampled(d): the driver is only sampled with orc_value
void _orc_sampled(scalar_t *a)
{
   drv[a[2].integer].quiet = true;
}

// procedure orc_assign(d, value, delay_fs, reject_fs): transport is reject 0
void _orc_assign(scalar_t *a)
{
   drv_t *d = &drv[a[2].integer];
   const int64_t value = a[3].integer;
   const int64_t delay = a[4].integer, reject = a[5].integer;
   unsigned delta;
   int64_t now = model_now(get_model(), &delta);
   const int64_t when = now + delay;

   advance(d);

   // delete transactions at or after the first new one
   int n = 0;
   while (n < d->n && d->t[n].when < when)
      n++;

   bool mark[MAXT] = {};
   bool next_marked = true;
   int64_t next_value = value;
   for (int i = n - 1; i >= 0; i--) {
      mark[i] = d->t[i].when < when - reject
         || (next_marked && d->t[i].value == next_value);
      next_marked = mark[i];
      next_value = d->t[i].value;
   }
   int k = 0;
   for (int i = 0; i < n; i++)
      if (mark[i])
         d->t[k++] = d->t[i];
   d->t[k].when = when;
   d->t[k].value = value;
   d->t[k].st = now;
   d->t[k].sd = delta;
   d->n = k + 1;
}

// procedure orc_append(d, value, delay_fs): later elements of a waveform
void _orc_append(scalar_t *a)
{
   drv_t *d = &drv[a[2].integer];
   unsigned delta;
   int64_t now = model_now(get_model(), &delta);
   d->t[d->n].when = now + a[4].integer;
   d->t[d->n].value = a[3].integer;
   d->t[d->n].st = now;
   d->t[d->n].sd = delta;
   d->n++;
}

// procedure orc_value(d, value): driver d has this value now
void _orc_value(scalar_t *a)
{
   drv_t *d = &drv[a[2].integer];
   advance(d);
   CHECK(d->cur == a[3].integer, "the value of the signal is the value projected for this time");
}

// procedure orc_active(d, value): driver d is active now with this value
void _orc_active(scalar_t *a)
{
   drv_t *d = &drv[a[2].integer];
   advance(d);
   CHECK(d->have_due, "a transaction occurs only when one is projected");
   CHECK(d->due.when == model_now(get_model(), NULL), "a transaction occurs exactly at its projected time");
   CHECK(d->due.value == a[3].integer, "a transaction carries its projected value");
   d->have_due = false;
}

// procedure orc_end(d)
void _orc_end(scalar_t *a)
{
   drv_t *d = &drv[a[2].integer];
   advance(d);
   CHECK(d->n == 0 && (d->quiet || !d->have_due), "every projected transaction occurs");
}
