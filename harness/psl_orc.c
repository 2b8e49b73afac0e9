// Oracle for PSL directives: the truncated-path semantics of IEEE 1850,
// evaluated over the cycles seen so far.  A cycle that has not happened yet
// satisfies every Boolean when looking for a failure (weak view) and none
// when looking for a match.
//
// Properties in prefix form:
//   a b c       Booleans            !x .xy |xy     not, and, or
//   pnx prev(x, n)   ^x rose   _x fell   sx stable
//   ;rs :rs &rs concatenation, fusion, length-matching and
//   *lhr        r[*l to h] (h '-': inf)    >lhb  b[->l to h]   =lhb  b[=l to h]
//   Rr          sequence as a property     Srp  r |-> p   Qrp  r |=> p
//   Ibp bp->p   Obp b or p   Ebb b <-> b   Xnp next[n] p
//   Ubb until   Vbb until_   Bbb before    Cbb before_    strong: W Z G H
//   Yr eventually! r         Kpb p sync_abort b
//   directives: A assert always, P assert (Z: see known findings),
//   N assert never, D cover
#include "orc.h"

typedef struct _diag diag_t;
typedef void (*diag_consumer_t)(diag_t *, void *);
void diag_set_consumer(diag_consumer_t fn, void *);
unsigned diag_count(int level);

#define MAXC 8

typedef struct node {
   char kind;
   int lo, hi;
   struct node *l, *r;
} node;

static node pool[32], *root;
static int npool, dir, now = -1, started;
static int V[3][MAXC];      // values of a, b, c
static unsigned base;
static int alt;             // see known findings
static int quirk;           // as in the known findings
static int once;            // only the first violation of each attempt
static int late;            // obligations beyond the last cycle fail

static node *parse(const char **s)
{
   node *n = &pool[npool++];
   n->kind = *(*s)++;
   switch (n->kind) {
   case 'a': case 'b': case 'c':
      break;
   case '*': case '>': case '=':
      n->lo = *(*s)++ - '0';
      n->hi = **s == '-' ? MAXC : **s - '0';
      (*s)++;
      n->l = parse(s);
      break;
   case 'X': case 'p':
      n->lo = *(*s)++ - '0';
      // fallthrough
   case '!': case '^': case '_': case 's': case 'R': case 'Y':
      n->l = parse(s);
      break;
   default:
      n->l = parse(s);
      n->r = parse(s);
   }
   return n;
}

static int value(node *n, int i)
{
   switch (n->kind) {
   case 'a': case 'b': case 'c': return V[n->kind - 'a'][i];
   case '!': return !value(n->l, i);
   case 'p': return i < n->lo ? 0 : value(n->l, i - n->lo);
   case '^': return value(n->l, i) & !(i ? value(n->l, i - 1) : 0);
   case '_': return (i ? value(n->l, i - 1) : 0) & !value(n->l, i);
   case 's': return value(n->l, i) == (i ? value(n->l, i - 1) : 0);
   case '.': return value(n->l, i) & value(n->r, i);
   case '|': return value(n->l, i) | value(n->r, i);
   }
   abort();
}

static int boolean(node *n, int i, int t, int view)
{
   return i > t ? view : value(n, i);
}

static int match(node *n, int i, int j, int t, int view);

// REP repetitions of N tile cycles I to J - 1
static int tile(node *n, int rep, int i, int j, int t, int view)
{
   if (rep == 0)
      return i == j;
   int r = 0;
   for (int k = i; k <= j; k++) {
      const int rest = tile(n, rep - 1, k, j, t, view);
      r |= rest & match(n, i, k, t, view);
   }
   return r;
}

// N holds at exactly REP of the cycles I to J - 1
static int exactly(node *n, int rep, int i, int j, int t, int view)
{
   // beyond T a Boolean and its negation both have the value VIEW
   if (rep < 0 || rep > j - i)
      return 0;
   if (i == j)
      return 1;
   const int b = boolean(n, j - 1, t, view);
   const int nb = j - 1 > t ? view : !b;
   return (b & exactly(n, rep - 1, i, j - 1, t, view))
      | (nb & exactly(n, rep, i, j - 1, t, view));
}

// Sequence N matches cycles I to J - 1 exactly
static int match(node *n, int i, int j, int t, int view)
{
   int r = 0;
   switch (n->kind) {
   case ';':
      for (int k = i; k <= j; k++)
         r |= match(n->l, i, k, t, view) & match(n->r, k, j, t, view);
      return r;
   case ':':
      for (int k = i + 1; k <= j; k++)
         r |= match(n->l, i, k, t, view) & match(n->r, k - 1, j, t, view);
      return r;
   case '&':
      return match(n->l, i, j, t, view) & match(n->r, i, j, t, view);
   case '*':
      if (quirk && n->lo == 0 && n->hi == MAXC)
         return i == j;
      for (int k = n->lo; k <= n->hi && (k <= j - i || k == n->lo); k++)
         if (quirk && k == 0)
            r |= j == i + 1;
         else
            r |= tile(n->l, k, i, j, t, view);
      return r;
   case '>':
      for (int k = n->lo; k <= n->hi && k <= j - i; k++) {
         if (k == 0)
            r |= i == j;
         else
            r |= boolean(n->l, j - 1, t, view)
               & exactly(n->l, k - 1, i, j - 1, t, view);
      }
      return r;
   case '=':
      for (int k = n->lo; k <= n->hi && k <= j - i; k++)
         r |= exactly(n->l, k, i, j, t, view);
      return r;
   default:
      return j == i + 1 ? boolean(n, i, t, view) : 0;
   }
}

// Property N is not contradicted at cycle I by the cycles up to T, where the
// trace ends if FIN
static int holds(node *n, int i, int t, int fin)
{
   int r, done = 0;
   switch (n->kind) {
   case 'R':
      r = 0;
      for (int j = i; j <= t + MAXC / 2; j++)
         r |= match(n->l, i, j, t, 1);
      return r;
   case 'S': case 'Q':
      r = 1;
      for (int j = i; j <= t + 1; j++) {
         const int k = n->kind == 'S' ? j - 1 : j;
         if (k < i)
            continue;
         r &= !match(n->l, i, j, t, 0) | holds(n->r, k, t, fin);
      }
      return r;
   case 'I':
      return i > t ? 1 : !value(n->l, i) | holds(n->r, i, t, fin);
   case 'O':
      return i > t ? 1 : value(n->l, i) | holds(n->r, i, t, fin);
   case 'E':
      return i > t ? 1 : value(n->l, i) == value(n->r, i);
   case 'X':
      return holds(n->l, i + n->lo, t, fin);
   case 'Y':
      if (!fin)
         return 1;
      r = i > t && !late;
      for (int k = quirk ? i + 1 : i; k <= t; k++)
         for (int j = k; j <= t + 1; j++)
            r |= match(n->l, k, j, t, 0);
      return r;
   case 'K':
      r = holds(n->l, i, t, fin);
      for (int k = i; k <= t; k++)
         r |= value(n->r, k) & holds(n->l, i, k - 1, 0);
      return r;
   case 'U': case 'V': case 'W': case 'Z':
   case 'B': case 'C': case 'G': case 'H':
      break;
   default:
      return i > t ? 1 : value(n, i);
   }

   r = 1;
   for (int k = i; k <= t; k++) {
      const int p = value(n->l, k), q = value(n->r, k);
      switch (n->kind) {
      case 'U': case 'W':  done |= q; r &= done | p; break;       // until
      case 'V': case 'Z':  r &= done | p; done |= q; break;       // until_
      case 'B': case 'G':  r &= done | !q; done |= p; break;      // before
      case 'C': case 'H':  done |= p; r &= done | !q; break;      // before_
      }
   }
   const int strong = n->kind == 'W' || n->kind == 'Z' || n->kind == 'G'
      || n->kind == 'H';
   if (strong && fin)
      r &= done | (i > t && !late);
   return r;
}

// A requirement of N at cycle I is violated at cycle T.  Each match of the
// left side of a suffix implication is a requirement of its own.
static int violated(node *n, int i, int t)
{
   if (i > t)
      return 0;
   int r = 0;
   switch (n->kind) {
   case 'I':
      return value(n->l, i) & violated(n->r, i, t);
   case 'X':
      return violated(n->l, i + n->lo, t);
   case 'S': case 'Q':
      if (once)
         return !holds(n, i, t, 0) & holds(n, i, t - 1, 0);
      for (int j = i; j <= t + 1; j++) {
         const int k = n->kind == 'S' ? j - 1 : j;
         if (k >= i && k <= t)
            r |= match(n->l, i, j, t, 0) & violated(n->r, k, t);
      }
      return r;
   default:
      return !holds(n, i, t, 0) & holds(n, i, t - 1, 0);
   }
}

static int fails(int t)
{
   int r = 0;
   switch (dir) {
   case 'A':
      for (int i = 0; i <= t; i++)
         r |= violated(root, i, t);
      return r;
   case 'P':
      return violated(root, 0, t);
   default:
      for (int i = 0; i <= t; i++)
         r |= match(root, i, t + 1, t, 0);
      return r;
   }
}

// A forbidden sequence completes for the first time from some cycle at T
static int first(int t)
{
   int r = 0;
   for (int i = 0; i <= t; i++) {
      int before = 0;
      for (int j = i; j <= t; j++)
         before |= match(root, i, j, t, 0);
      r |= match(root, i, t + 1, t, 0) & !before;
   }
   return r;
}

static int fails_at_end(int t)
{
   int r = 0;
   for (int i = 0; i <= (dir == 'A' ? t : 0); i++)
      r |= !holds(root, i, t, 1) & holds(root, i, t, 0);
   return r;
}

static int level(void)
{
   return dir == 'D' ? 1 : 3;    // note or error
}

static unsigned count(void)
{
   return diag_count(level()) - diag_count(level() + 1);
}

static void quiet(diag_t *d, void *ctx) { }

// procedure orc_start(prop : string)
void _orc_start(scalar_t *a)
{
   static char buf[64];
   const int len = (int)a[4].integer;
   memcpy(buf, a[2].pointer, len < 0 ? ~len : len);
   const char *s = buf + 1;
   dir = buf[0];
   if ((alt = dir == 'Z'))
      dir = 'P';
   root = parse(&s);
   diag_set_consumer(quiet, NULL);
   base = count();
   started = 1;
}

// procedure orc_cycle(a, b, c : boolean)
void _orc_cycle(scalar_t *a)
{
   now++;
   for (int i = 0; i < 3; i++)
      V[i][now] = a[2 + i].integer;
}

// procedure orc_check
void _orc_check(scalar_t *a)
{
   const unsigned n = count() - base;
   base = count();
   if (dir == 'N') {
      CHECK(n == 0 || fails(now), "assert never fails without a match");
      CHECK(n != 0 || !first(now), "assert never misses a match");
      return;
   }
   const int got = n != 0, want = fails(now);
   quirk = 1;
   const int other = fails(now);
   quirk = 0;
   once = 1;
   const int first_only = fails(now);
   once = 0;
   if (alt)
      CHECK(got == want, "sequence with alternatives");
   else if (dir == 'D')
      CHECK(got == want || got == other, "cycle at which a sequence is covered");
   else
      CHECK(got == want || got == other || got == first_only,
            "cycle at which an assertion fails");
   CHECK(got == want || got == first_only, "sequence that can be empty");
}

void orc_final(void)
{
   if (!started)
      return;
   if (dir == 'D' || dir == 'N')
      return;
   const int got = count() != base;
   const int must = fails_at_end(now);
   quirk = 1;
   const int other = fails_at_end(now);
   late = 1;
   const int other_may = fails_at_end(now);
   quirk = 0;
   const int may = fails_at_end(now);
   late = 0;
   CHECK((got | !must) & (!got | may) || (got | !other) & (!got | other_may),
         "failure at the end of simulation");
   CHECK((got | !must) & (!got | may), "eventually! and the current cycle");
   symx_reach("final");
}
