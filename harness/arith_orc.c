// Oracle for integer arithmetic of VHDL: IEEE 1076-2008 section 9.2, written
// from the standard, without using the operators under test at their own
// width.
#include "orc.h"

void sx_expect(int64_t cond, const char *msg);
void sx_passed(void);

static int64_t expected, lo = INT32_MIN, hi = INT32_MAX;

// Truncating division, also where the quotient of the host would overflow
static int64_t quot(int64_t a, int64_t b)
{
   return b == -1 ? -a : a / b;
}

static int64_t rem(int64_t a, int64_t b)
{
   return b == -1 ? 0 : a - (a / b) * b;
}

static int64_t mod(int64_t a, int64_t b)
{
   const int64_t r = rem(a, b);
   return ITE(AND(r != 0, (r < 0) != (b < 0)), r + b, r);
}

// procedure orc_range(lo, hi)
void _orc_range(scalar_t *a) { lo = a[2].integer; hi = a[3].integer; }

// procedure orc_op(op, a, b): next compute a op b
static bool err;

static void compute(int op, int64_t a, int64_t b)
{
   int64_t r = 0;
   switch (op) {
   case 0: r = a + b; break;
   case 1: r = a - b; break;
   case 2: r = a * b; break;
   case 3: if (b == 0) err = true; else r = quot(a, b); break;
   case 4: if (b == 0) err = true; else r = mod(a, b); break;
   case 5: if (b == 0) err = true; else r = rem(a, b); break;
   case 6: r = ITE(a < 0, -a, a); break;
   case 7: r = -a; break;
   case 8:
      if (b < 0)
         err = true;
      else {
         r = 1;
         const int n = symx_pick(b);
         for (int i = 0; i < n; i++) {
            r *= a;
            if (r < (lo < INT32_MIN ? lo : INT32_MIN)
                || r > (hi > INT32_MAX ? hi : INT32_MAX)) {
               err = true;
               break;
            }
         }
      }
      break;
   case 9: r = ITE(a < b, a, b); break;
   case 10: r = ITE(a < b, b, a); break;
   case 11: r = a; break;
   }
   expected = r;
   int64_t bad = OR(OR(r < lo, r > hi), err);
   sx_expect(bad, "an error is reported exactly when the result is not in range");
}

void _orc_op(scalar_t *s)
{
   err = false;
   compute(symx_pick(s[2].integer), s[3].integer, s[4].integer);
}

// procedure orc_then(op, b): and then apply op to the result and b
void _orc_then(scalar_t *s)
{
   compute(symx_pick(s[2].integer), expected, s[3].integer);
}

// procedure orc_done(r)
void _orc_done(scalar_t *a)
{
   sx_passed();
   CHECK(a[2].integer == expected, "arithmetic gives the mathematical result");
}

// procedure orc_rel(a, b, lt, le, eq, ne, ge, gt)
void _orc_rel(scalar_t *s)
{
   const int64_t a = s[2].integer, b = s[3].integer;
   CHECK(s[4].integer == (a < b), "<");
   CHECK(s[5].integer == (a <= b), "<=");
   CHECK(s[6].integer == (a == b), "=");
   CHECK(s[7].integer == (a != b), "/=");
   CHECK(s[8].integer == (a >= b), ">=");
   CHECK(s[9].integer == (a > b), ">");
}

// Real: IEEE 754 binary64 as the host computes it; finite operands
static double rexp;

void _orc_ndreal(scalar_t *a)
{
   const double d = nd_double();
   ASSUME(__builtin_fabs(d) <= 1.7976931348623157e308);
   a[0].real = d;
}

// procedure orc_real(op, a, b)
void _orc_real(scalar_t *s)
{
   const double a = s[3].real, b = s[4].real;
   switch (symx_pick(s[2].integer)) {
   case 0: rexp = a + b; break;
   case 1: rexp = a - b; break;
   case 2: rexp = a * b; break;
   case 3: ASSUME(b != 0.0); rexp = a / b; break;
   case 4: rexp = -a; break;
   case 5: rexp = __builtin_fabs(a); break;
   }
   // what happens on overflow of reals is not part of the property
   ASSUME(__builtin_fabs(rexp) <= 1.7976931348623157e308);
}

// procedure orc_rdone(r)
void _orc_rdone(scalar_t *s)
{
   // the sign of zero is not part of the property
   CHECK(s[2].real == rexp,
         "real arithmetic gives the IEEE 754 result");
}

void _orc_rrel(scalar_t *s)
{
   const double a = s[2].real, b = s[3].real;
   CHECK(s[4].integer == (a < b), "<");
   CHECK(s[5].integer == (a <= b), "<=");
   CHECK(s[6].integer == (a == b), "=");
   CHECK(s[7].integer == (a != b), "/=");
   CHECK(s[8].integer == (a >= b), ">=");
   CHECK(s[9].integer == (a > b), ">");
}
