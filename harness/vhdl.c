// Runs a VHDL test bench through the whole of nvc (analyse, elaborate,
// simulate) in-process with the symbolic-input foreign subprograms of
// vhdl/sx.vhd.
#include "nd.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef union { int64_t integer; void *pointer; double real; } scalar_t;

int nvc_main(int argc, char **argv);

void _sx_nd(scalar_t *a) { a[0].integer = symx_nds(a[1].integer, a[2].integer); }
void _sx_bool(scalar_t *a) { a[0].integer = nd_bool(); }
void _sx_pick(scalar_t *a) { a[0].integer = symx_pick(a[1].integer); }
void _sx_and(scalar_t *a) { a[0].integer = symx_and(a[1].integer, a[2].integer); }
void _sx_assume(scalar_t *a) { symx_assume(a[2].integer, 0); }

static const char *str(scalar_t *p)
{
   char buf[200];
   int64_t len = p[2].integer;
   if (len < 0) len = ~len;
   snprintf(buf, sizeof buf, "%.*s", (int)len, (char *)p[0].pointer);
   return strdup(buf);
}

void _sx_check(scalar_t *a) { symx_check(a[2].integer, str(a + 3), 0); }
void _sx_reach(scalar_t *a) { symx_reach(str(a + 2)); }

// An error (which ends the simulation with status 1) must happen between
// expect_error and no_error exactly when the condition holds
static int64_t expecting;
static bool open_;
static const char *expect_msg;

void sx_expect(int64_t cond, const char *msg)
{
   expecting = cond;
   expect_msg = msg;
   open_ = true;
   symx_quiet(1);
}

void sx_passed(void)
{
   CHECK(symx_and(expecting, 1) == 0, expect_msg);
   open_ = false;
   symx_quiet(0);
}

void _sx_expect(scalar_t *a) { sx_expect(a[2].integer, str(a + 3)); }
void _sx_passed(scalar_t *a) { sx_passed(); }
void _sx_done(scalar_t *a) { symx_reach("done"); symx_end(); }

void orc_final(void) __attribute__((weak));
int64_t sx_code;

static void on_exit_(int code)
{
   const char *want = getenv("SX_EXIT");
   sx_code = code;
   if (open_ && code == 1) {
      CHECK(expecting, expect_msg);
      symx_reach("error");
      symx_end();
   }
   if (want == NULL || strcmp(want, "any") != 0)
      CHECK(code == (want ? atoi(want) : 0), "simulation exits with the expected status");
   if (orc_final)
      orc_final();
   symx_end();
}

void harness(void)
{
   char *args = strdup(getenv("SX_ARGS")), *av[64];
   int n = 0;
   av[n++] = "nvc";
   for (char *p = strtok(args, " "); p; p = strtok(NULL, " "))
      av[n++] = p;
   av[n] = NULL;
   symx_on_exit(on_exit_);
   int rc = nvc_main(n, av);
   on_exit_(rc);
}
