// Oracle for the packages of bit vectors: vectors as words of 64 bits.
#include "orc.h"

// bit of an element whose value is known to be one of 0, 1, L, H is its
// lowest one
static uint64_t word(const uint8_t *v, int n, bool sign)
{
   uint64_t r = 0;
   for (int i = 0; i < n; i++)
      r = (r << 1) | (v[i] & 1);
   if (sign && n > 0 && n < 64)
      r = (uint64_t)((int64_t)(r << (64 - n)) >> (64 - n));
   return r;
}

// Quotient and remainder of small values, by repeated subtraction of
// multiples
static uint64_t quot(uint64_t x, uint64_t y, uint64_t *rem)
{
   uint64_t q = 0;
   for (int i = 5; i >= 0; i--) {
      const bool ge = x >= (y << i);
      q |= (uint64_t)ge << i;
      x = ITE(ge, x - (y << i), x);
   }
   *rem = x;
   return q;
}

static int64_t divide(int64_t x, int64_t y, int64_t *rem)
{
   uint64_t r, q = quot(ITE(x < 0, -x, x), ITE(y < 0, -y, y), &r);
   *rem = ITE(x < 0, -r, r);
   return ITE((x < 0) != (y < 0), -q, q);
}

static int length(scalar_t *a)
{
   return a[2].integer < 0 ? ~a[2].integer : a[2].integer;
}

// function orc_word(v : std_ulogic_vector; sign : boolean) return word
void _orc_word(scalar_t *a)
{
   a[0].integer = word(a[1].pointer, length(a + 1), a[4].integer);
}

// function orc_op(op : integer; a, b : word) return word
void _orc_wop(scalar_t *a)
{
   const uint64_t x = a[2].integer, y = a[3].integer;
   const int64_t sx = a[2].integer, sy = a[3].integer;
   int64_t rem;
   uint64_t r = 0;
   switch (a[1].integer) {
   case 0: r = x + y; break;
   case 1: r = x - y; break;
   case 2: r = x * y; break;
   case 3: r = divide(sx, sy, &rem); break;
   case 4: divide(sx, sy, &rem); r = rem; break;
   case 5:
      divide(sx, sy, &rem);
      r = ITE(AND(rem != 0, (sx < 0) != (sy < 0)), rem + sy, rem);
      break;
   case 6: r = x << y; break;
   case 7: r = sx >> sy; break;
   case 8: r = ITE(sx < sy, y, x); break;
   case 9: r = ITE(sx < sy, x, y); break;
   case 10: r = x | y; break;
   case 11: r = x & y; break;
   case 12: r = ITE(sx < 0, -x, x); break;
   }
   a[0].integer = r;
}

// relations: < <= = as bits 0, 1, 2
void _orc_rel(scalar_t *a)
{
   const int64_t x = a[1].integer, y = a[2].integer;
   a[0].integer = (x < y) | (x <= y) << 1 | (x == y) << 2;
}

// function orc_is(r : std_ulogic_vector; w : word) return boolean: elements
// are 0 and 1, the lowest bits of w
void _orc_is(scalar_t *a)
{
   const int n = length(a + 1);
   const uint8_t *v = a[1].pointer;
   uint64_t bad = 0;
   for (int i = 0; i < n; i++)
      bad |= v[i] ^ (2 | (((uint64_t)a[4].integer >> (n - 1 - i)) & 1));
   a[0].integer = bad == 0;
}

// Operations of std_logic_1164 by the classes of their operands; values in
// the order U X 0 1 Z W L H -
static uint64_t x01(uint64_t a)      // U stays U
{
   const uint64_t bin = AND((a & 2) != 0, a != 8);
   return ITE(bin, 2 | (a & 1), a != 0);
}

static uint64_t inv(uint64_t a) { return ITE(a >= 2, a ^ 1, a); }

static uint64_t logic(int op, uint64_t a, uint64_t b)
{
   const uint64_t x = x01(a), y = x01(b);
   const uint64_t rest = ITE(OR(x == 0, y == 0), 0, 1);
   switch (op) {
   case 0: return ITE(OR(x == 2, y == 2), 2, ITE(AND(x == 3, y == 3), 3, rest));
   case 1: return ITE(OR(x == 3, y == 3), 3, ITE(AND(x == 2, y == 2), 2, rest));
   case 2: return ITE(AND(x >= 2, y >= 2), 2 | ((x ^ y) & 1), rest);
   case 3: case 4: case 5: return inv(logic(op - 3, a, b));
   case 6: return inv(x);
   case 7: return ITE(x == 0, 1, x);
   case 8:      // resolution
      {
         const uint64_t bad = OR(OR(a == 1, a == 8), OR(b == 1, b == 8));
         const uint64_t as = OR(a == 2, a == 3), bs = OR(b == 2, b == 3);
         const uint64_t weak = ITE(a == 4, b, ITE(b == 4, a, ITE(a == b, a, 5)));
         return ITE(OR(a == 0, b == 0), 0,
                    ITE(bad, 1,
                        ITE(AND(as, bs), ITE(a == b, a, 1),
                            ITE(as, a, ITE(bs, b, weak)))));
      }
   }
   abort();
}

// function orc_logic(op : integer; a, b : std_ulogic) return integer
void _orc_logic(scalar_t *a)
{
   a[0].integer = logic(a[1].integer, a[2].integer & 0xf, a[3].integer & 0xf);
}

// function orc_vec(op : integer; r, a, b : std_ulogic_vector) return boolean:
// r is the result of op on a and b, of the same length
void _orc_vec(scalar_t *a)
{
   const int n = length(a + 2);
   const uint8_t *r = a[2].pointer, *x = a[5].pointer, *y = a[8].pointer;
   uint64_t bad = 0;
   for (int i = 0; i < n; i++)
      bad |= r[i] ^ logic(a[1].integer, x[i], y[i]);
   a[0].integer = bad == 0;
}

// function orc_bad(a : std_ulogic_vector) return boolean: has a metavalue
void _orc_bad(scalar_t *a)
{
   const int n = length(a + 1);
   const uint8_t *v = a[1].pointer;
   uint64_t bad = 0;
   for (int i = 0; i < n; i++)
      bad |= x01(v[i]) < 2;
   a[0].integer = bad;
}

// function orc_all(a : std_ulogic_vector; x : std_ulogic) return boolean
void _orc_all(scalar_t *a)
{
   const int n = length(a + 1);
   const uint8_t *v = a[1].pointer;
   uint64_t bad = 0;
   for (int i = 0; i < n; i++)
      bad |= v[i] ^ (uint8_t)a[4].integer;
   a[0].integer = bad == 0;
}

// function orc_same(a, b : std_ulogic_vector) return boolean
void _orc_same(scalar_t *a)
{
   const int n = length(a + 1), m = length(a + 4);
   const uint8_t *v = a[1].pointer, *w = a[4].pointer;
   uint64_t bad = n != m;
   for (int i = 0; i < n && n == m; i++)
      bad |= v[i] ^ w[i];
   a[0].integer = bad == 0;
}
