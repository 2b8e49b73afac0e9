// Oracle for assertions, reports and the exit status: counts messages by
// severity and knows when the simulation has to stop.
#include "orc.h"

typedef struct _diag diag_t;
typedef void (*diag_consumer_t)(diag_t *, void *);
void diag_set_consumer(diag_consumer_t fn, void *);
unsigned diag_count(int level);
extern int64_t sx_code;

static int exit_sev = 3, enabled = 15;
static int64_t counts[4], total[4], base[4];
static int64_t want;
static int stopped, have_want, started;

static unsigned count(int sev)
{
   return diag_count(sev + 1) - diag_count(sev + 2);
}

static void quiet(diag_t *d, void *ctx) { }

static void messages(void)
{
   for (int i = 0; i < 4; i++)
      CHECK(count(i) - base[i] == total[i],
            "number of messages of each severity");
}

// procedure orc_start(exit_severity : integer)
void _orc_start(scalar_t *a)
{
   exit_sev = a[2].integer;
   diag_set_consumer(quiet, NULL);
   for (int i = 0; i < 4; i++)
      base[i] = count(i);
   started = 1;
}

void _orc_conc(scalar_t *a)
{
   if (a[2].integer && (enabled & (1 << a[3].integer))) {
      const int sev = a[3].integer;
      counts[sev]++;
      total[sev]++;
      if (sev >= exit_sev) {
         stopped = 1;
         want = 1;
         have_want = 1;
      }
   }
}

// procedure orc_next(reported : boolean; sev : integer)
void _orc_next(scalar_t *a)
{
   CHECK(!stopped, "simulation continues after fatal message");
   messages();
   _orc_conc(a);
}

void _orc_enable(scalar_t *a)
{
   if (a[3].integer)
      enabled |= 1 << a[2].integer;
   else
      enabled &= ~(1 << a[2].integer);
}

void _orc_clear(scalar_t *a)
{
   memset(counts, 0, sizeof counts);
}

void _orc_count(scalar_t *a)
{
   a[0].integer = counts[a[1].integer];
}

// procedure orc_end(has_status : boolean; status : integer; note : boolean)
void _orc_end(scalar_t *a)
{
   CHECK(!stopped, "simulation continues after fatal message");
   messages();
   if (a[2].integer) {
      want = a[3].integer;
      have_want = 1;
   }
   if (a[4].integer)
      total[0]++;      // FINISH called
}

void orc_final(void)
{
   if (!started)
      return;
   messages();
   if (!have_want) {
      for (int i = exit_sev < 3 ? exit_sev : 2; i < 4; i++)
         if (counts[i] > 0)
            want = 1;
   }
   CHECK(sx_code == want, "exit status");
   symx_reach("final");
}
