#include <execinfo.h>
// Run-time of the symbolic executor: expression DAG, shadow memory, path
// constraints, and the explorer that enumerates all feasible paths between
// the snapshot (first symbolic input) and the end of the harness.
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <csignal>
#include <cerrno>
#include <malloc.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : uint16_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR,
  ASHR, EQ, ULT, ULE, SLT, SLE, NOT, EXTRACT, CONCAT, ZEXT, SEXT, ITE,
  FADD, FSUB, FMUL, FDIV, FREM, FEQ, FLT, FLE, FUNO, FSQRT, FRND, F2S, F2U,
  S2F, U2F, F2F, UF
};

struct Expr {
  Op op;
  u8 w;        // result width; 1 means Bool
  u8 aux;      // source width for conversions / rounding mode
  bool fp;     // mentions floating point or uninterpreted functions
  u32 id;
  Expr *k[3];
  u64 imm;     // constant, variable index, extract offset, UF name
  u64 cv;      // value under the current inputs
  Z3_ast z;
  u64 vars;    // hashed variable set
};

extern "C" {
__attribute__((tls_model("initial-exec"))) __thread Expr *symx_args[64];
__attribute__((tls_model("initial-exec"))) __thread Expr *symx_ret[16];
__attribute__((tls_model("initial-exec"))) __thread void *symx_tag;
__attribute__((tls_model("initial-exec"))) __thread u32 symx_narg;
}

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(u64 v, unsigned w) {
  return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w);
}
static double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static long env_num(const char *n, long d) {
  const char *s = getenv(n); return s ? atol(s) : d;
}

// ---------------------------------------------------------------------------
// State of the current path

struct Entry {
  std::vector<u64> in;            // inputs by index
  u32 bound = 0;                  // events below are already decided
  std::vector<u64> excl;          // values excluded at event bound-1
  std::vector<std::vector<u64>> enums;
  u64 phash = 0;                  // trace hash expected at event bound-1
  bool confirm = false;           // concrete replay of a counterexample
  std::string msg;
};

static bool active = false;       // symbolic mode (inside a child)
static bool concrete_mode = false;
static Entry cur;
static u32 nvars, nevents, nenums;
static std::vector<u64> inval;
static std::vector<std::vector<u64>> enum_trace;
static u64 thash;
static int repfd = -1;
static u64 stat_q, stat_sat, stat_unsat, stat_stale, stat_loads, stat_checks;
static double stat_t;
static std::string report_buf;
static bool verbose;
static bool did_end;
static u64 max_enum = 300;

static void rep(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void rep(const char *fmt, ...) {
  char tmp[4096]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
  if (n >= (int)sizeof tmp) n = sizeof tmp - 1;
  report_buf.append(tmp, n);
}
static void flush_rep() {
  size_t o = 0;
  while (o < report_buf.size()) {
    ssize_t n = write(repfd, report_buf.data() + o, report_buf.size() - o);
    if (n < 0) { if (errno == EINTR) continue; break; }
    o += n;
  }
  report_buf.clear();
}
static std::set<std::string> flagged;
static void incomplete(const std::string &why) {
  if (flagged.insert(why).second) rep("I %s\n", why.c_str());
}

[[noreturn]] static void end_path(const char *how) {
  if (repfd >= 0) {
    rep("E %s %llu %llu %llu %f %llu %llu %u %llu\n", how,
        (unsigned long long)stat_q, (unsigned long long)stat_sat,
        (unsigned long long)stat_unsat, stat_t, (unsigned long long)stat_stale,
        (unsigned long long)thash, nevents, (unsigned long long)stat_checks);
    flush_rep();
  }
  _exit(0);
}

// ---------------------------------------------------------------------------
// Expressions

struct Key { Op op; u8 w, aux; Expr *a, *b, *c; u64 imm;
  bool operator==(const Key &o) const {
    return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b
      && c == o.c && imm == o.imm; } };
struct KeyHash { size_t operator()(const Key &k) const {
  u64 h = k.op * 0x9e3779b97f4a7c15ull + k.w;
  auto mix = [&](u64 v) { h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.aux); mix((u64)k.a); mix((u64)k.b); mix((u64)k.c); mix(k.imm);
  return h; } };
static std::unordered_map<Key, Expr *, KeyHash> *cons;
static u32 next_id;

static Expr *mk0(Op op, unsigned w, Expr *a, Expr *b, Expr *c, u64 imm, u64 cv,
                 unsigned aux = 0) {
  Key k{op, (u8)w, (u8)aux, a, b, c, imm};
  auto it = cons->find(k);
  if (it != cons->end()) return it->second;
  Expr *e = (Expr *)malloc(sizeof(Expr));
  e->op = op; e->w = w; e->aux = aux; e->id = next_id++; e->k[0] = a;
  e->k[1] = b; e->k[2] = c; e->imm = imm; e->cv = cv & mask(w); e->z = nullptr;
  e->vars = op == VAR ? 1ull << (imm & 63) : 0;
  e->fp = op >= FADD;
  for (int i = 0; i < 3; i++)
    if (e->k[i]) { e->fp |= e->k[i]->fp; e->vars |= e->k[i]->vars; }
  cons->emplace(k, e);
  return e;
}
static Expr *cst(unsigned w, u64 v) {
  v &= mask(w);
  return mk0(CONST, w, nullptr, nullptr, nullptr, v, v);
}
static inline bool isc(Expr *e) { return e->op == CONST; }
static inline bool isc(Expr *e, u64 v) { return e->op == CONST && e->imm == (v & mask(e->w)); }

static Expr *mk_extract(Expr *a, unsigned lo, unsigned w);
static Expr *mk_concat(Expr *hi, Expr *lo);
static Expr *mk_zext(Expr *a, unsigned w);
static Expr *mk_sext(Expr *a, unsigned w);
static Expr *mk_ite(Expr *c, Expr *t, Expr *f);
static Expr *mk_not(Expr *a);
static Expr *mk_eq(Expr *a, Expr *b);
static Expr *mk_bin(Op op, Expr *a, Expr *b);

static u64 ev_bin(Op op, unsigned w, u64 a, u64 b) {
  u64 m = mask(w);
  switch (op) {
  case ADD: return (a + b) & m; case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? a / b : m;
  case UREM: return b ? a % b : a;
  case SDIV: { int64_t x = sx(a, w), y = sx(b, w);
    if (y == 0) return (x < 0 ? 1 : m);
    if (y == -1) return (0 - a) & m;
    return (u64)(x / y) & m; }
  case SREM: { int64_t x = sx(a, w), y = sx(b, w);
    if (y == 0) return a; if (y == -1) return 0;
    return (u64)(x % y) & m; }
  case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & m;
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: return (u64)(sx(a, w) >> (b >= w ? (w - 1) : b)) & m;
  default: abort();
  }
}

static Expr *mk_bin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  u64 cv = ev_bin(op, w, a->cv, b->cv);
  if (isc(a) && isc(b)) return cst(w, cv);
  if (w == 1) {
    // Booleans
    switch (op) {
    case ADD: case SUB: op = XOR; break;
    case MUL: op = AND; break;
    case AND: case OR: case XOR: break;
    case UDIV: case SDIV: return a;
    case UREM: case SREM: return cst(1, 0);
    case SHL: case LSHR: return mk_bin(AND, a, mk_not(b));
    case ASHR: return a;
    default: break;
    }
    cv = ev_bin(op, w, a->cv, b->cv);
  }
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
  switch (op) {
  case ADD:
    if (isc(b, 0)) return a;
    if (isc(b) && a->op == ADD && isc(a->k[1]))
      return mk_bin(ADD, a->k[0], cst(w, b->imm + a->k[1]->imm));
    if (a->op == SUB && a->k[1] == b) return a->k[0];
    if (b->op == SUB && b->k[1] == a) return b->k[0];
    break;
  case SUB:
    if (a == b) return cst(w, 0);
    if (isc(b)) return mk_bin(ADD, a, cst(w, 0 - b->imm));
    if (a->op == ADD && a->k[0] == b) return a->k[1];
    if (a->op == ADD && a->k[1] == b) return a->k[0];
    if (a->op == ADD && b->op == ADD && a->k[0] == b->k[0])
      return mk_bin(SUB, a->k[1], b->k[1]);
    break;
  case MUL:
    if (isc(b, 0)) return b;
    if (isc(b, 1)) return a;
    if (isc(b) && !(b->imm & (b->imm - 1)) && w > 1)
      return mk_bin(SHL, a, cst(w, __builtin_ctzll(b->imm)));
    break;
  case UDIV:
    if (isc(b, 1)) return a;
    if (isc(b) && b->imm && !(b->imm & (b->imm - 1)))
      return mk_bin(LSHR, a, cst(w, __builtin_ctzll(b->imm)));
    break;
  case UREM:
    if (isc(b) && b->imm && !(b->imm & (b->imm - 1)))
      return mk_bin(AND, a, cst(w, b->imm - 1));
    break;
  case SDIV: if (isc(b, 1)) return a; break;
  case SREM: if (isc(b, 1)) return cst(w, 0); break;
  case AND:
    if (isc(b, 0)) return b;
    if (isc(b, mask(w))) return a;
    if (a == b) return a;
    if (w == 1 && ((a->op == NOT && a->k[0] == b) || (b->op == NOT && b->k[0] == a)))
      return cst(1, 0);
    if (isc(b) && a->op == AND && isc(a->k[1]))
      return mk_bin(AND, a->k[0], cst(w, b->imm & a->k[1]->imm));
    if (isc(b) && w > 1) {
      // low mask -> zext(extract)
      if (!(b->imm & (b->imm + 1))) {
        unsigned n = 64 - __builtin_clzll(b->imm);
        if (n < w) return mk_zext(mk_extract(a, 0, n), w);
      }
      // contiguous mask within a byte-structured concat
      if (a->op == CONCAT || a->op == ZEXT || a->op == ITE) {
        unsigned lo = __builtin_ctzll(b->imm);
        u64 s = b->imm >> lo;
        if (!(s & (s + 1))) {
          unsigned n = 64 - __builtin_clzll(s);
          Expr *x = mk_extract(a, lo, n);
          if (lo) x = mk_concat(x, cst(lo, 0));
          return mk_zext(x, w);
        }
      }
    }
    break;
  case OR:
    if (isc(b, 0)) return a;
    if (isc(b, mask(w))) return b;
    if (a == b) return a;
    if (w == 1 && ((a->op == NOT && a->k[0] == b) || (b->op == NOT && b->k[0] == a)))
      return cst(1, 1);
    if (w > 1) {
      // disjoint: zext(x) | (y concat 0)
      Expr *x = a, *y = b;
      for (int t = 0; t < 2; t++, std::swap(x, y)) {
        if (x->op != ZEXT) continue;
        unsigned n = x->k[0]->w;
        Expr *yy = y;
        unsigned z = 0;
        if (yy->op == CONCAT && isc(yy->k[1], 0)) z = yy->k[1]->w;
        else if (yy->op == ZEXT && yy->k[0]->op == CONCAT && isc(yy->k[0]->k[1], 0))
          z = yy->k[0]->k[1]->w;
        else if (isc(yy) && yy->imm) z = __builtin_ctzll(yy->imm);
        if (z >= n)
          return mk_concat(mk_extract(y, n, w - n), x->k[0]);
      }
    }
    break;
  case XOR:
    if (isc(b, 0)) return a;
    if (a == b) return cst(w, 0);
    if (w == 1 && isc(b, 1)) return mk_not(a);
    if (isc(b) && a->op == XOR && isc(a->k[1]))
      return mk_bin(XOR, a->k[0], cst(w, b->imm ^ a->k[1]->imm));
    break;
  case SHL:
    if (isc(b)) {
      if (b->imm == 0) return a;
      if (b->imm >= w) return cst(w, 0);
      return mk_concat(mk_extract(a, 0, w - b->imm), cst(b->imm, 0));
    }
    break;
  case LSHR:
    if (isc(b)) {
      if (b->imm == 0) return a;
      if (b->imm >= w) return cst(w, 0);
      return mk_zext(mk_extract(a, b->imm, w - b->imm), w);
    }
    break;
  case ASHR:
    if (isc(b)) {
      u64 s = std::min<u64>(b->imm, w - 1);
      if (s == 0) return a;
      return mk_sext(mk_extract(a, s, w - s), w);
    }
    break;
  default: break;
  }
  if (isc(b) && a->op == ITE && isc(a->k[1]) && isc(a->k[2]))
    return mk_ite(a->k[0], mk_bin(op, a->k[1], b), mk_bin(op, a->k[2], b));
  if (isc(a) && b->op == ITE && isc(b->k[1]) && isc(b->k[2]))
    return mk_ite(b->k[0], mk_bin(op, a, b->k[1]), mk_bin(op, a, b->k[2]));
  return mk0(op, w, a, b, nullptr, 0, cv);
}

static Expr *mk_not(Expr *a) {
  if (isc(a)) return cst(1, !a->imm);
  if (a->op == NOT) return a->k[0];
  if (a->op == ULT) return mk0(ULE, 1, a->k[1], a->k[0], nullptr, 0, !a->cv);
  if (a->op == ULE) return mk0(ULT, 1, a->k[1], a->k[0], nullptr, 0, !a->cv);
  if (a->op == SLT) return mk0(SLE, 1, a->k[1], a->k[0], nullptr, 0, !a->cv);
  if (a->op == SLE) return mk0(SLT, 1, a->k[1], a->k[0], nullptr, 0, !a->cv);
  return mk0(NOT, 1, a, nullptr, nullptr, 0, !a->cv);
}

static Expr *mk_extract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  u64 cv = (a->cv >> lo) & mask(w);
  if (isc(a)) return cst(w, cv);
  switch (a->op) {
  case EXTRACT: return mk_extract(a->k[0], lo + a->imm, w);
  case CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mk_extract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mk_extract(a->k[1], lo, w);
    return mk_concat(mk_extract(a->k[0], 0, lo + w - lw),
                     mk_extract(a->k[1], lo, lw - lo));
  }
  case ZEXT: {
    unsigned sw = a->k[0]->w;
    if (lo >= sw) return cst(w, 0);
    if (lo + w <= sw) return mk_extract(a->k[0], lo, w);
    return mk_zext(mk_extract(a->k[0], lo, sw - lo), w);
  }
  case SEXT: {
    unsigned sw = a->k[0]->w;
    if (lo + w <= sw) return mk_extract(a->k[0], lo, w);
    if (lo < sw) return mk_sext(mk_extract(a->k[0], lo, sw - lo), w);
    return mk_sext(mk_extract(a->k[0], sw - 1, 1), w);
  }
  case ITE:
    if ((isc(a->k[1]) || isc(a->k[2])))
      return mk_ite(a->k[0], mk_extract(a->k[1], lo, w), mk_extract(a->k[2], lo, w));
    break;
  case AND: case OR: case XOR:
    if (isc(a->k[1]))
      return mk_bin(a->op, mk_extract(a->k[0], lo, w), mk_extract(a->k[1], lo, w));
    break;
  case ADD: case MUL: case SUB:
    // truncation commutes with modular arithmetic
    if (lo == 0 && w >= 8)
      return mk_bin(a->op, mk_extract(a->k[0], 0, w), mk_extract(a->k[1], 0, w));
    break;
  default: break;
  }
  return mk0(EXTRACT, w, a, nullptr, nullptr, lo, cv);
}

static Expr *mk_concat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  u64 cv = hi->cv << lo->w | lo->cv;
  if (isc(hi) && isc(lo)) return cst(w, cv);
  if (isc(hi, 0)) return mk_zext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0]
      && hi->imm == lo->imm + lo->w)
    return mk_extract(hi->k[0], lo->imm, w);
  if (hi->op == CONCAT && hi->k[1]->op == EXTRACT && lo->op == EXTRACT
      && hi->k[1]->k[0] == lo->k[0] && hi->k[1]->imm == lo->imm + lo->w)
    return mk_concat(hi->k[0], mk_extract(lo->k[0], lo->imm, hi->k[1]->w + lo->w));
  if (hi->op == EXTRACT && lo->op == CONCAT && lo->k[0]->op == EXTRACT
      && lo->k[0]->k[0] == hi->k[0] && hi->imm == lo->k[0]->imm + lo->k[0]->w)
    return mk_concat(mk_extract(hi->k[0], lo->k[0]->imm, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == ZEXT)
    return mk_zext(mk_concat(hi->k[0], lo), w);
  if (isc(lo) && hi->op == CONCAT && isc(hi->k[1]))
    return mk_concat(hi->k[0], cst(lo->w + hi->k[1]->w, hi->k[1]->imm << lo->w | lo->imm));
  return mk0(CONCAT, w, hi, lo, nullptr, 0, cv);
}

static Expr *mk_zext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isc(a)) return cst(w, a->imm);
  if (a->op == ZEXT) return mk_zext(a->k[0], w);
  if (a->op == ITE && (isc(a->k[1]) || isc(a->k[2])))
    return mk_ite(a->k[0], mk_zext(a->k[1], w), mk_zext(a->k[2], w));
  return mk0(ZEXT, w, a, nullptr, nullptr, 0, a->cv);
}

static Expr *mk_sext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isc(a)) return cst(w, sx(a->imm, a->w));
  if (a->op == SEXT) return mk_sext(a->k[0], w);
  if (a->op == ZEXT && a->k[0]->w < a->w) return mk_zext(a->k[0], w);
  if (a->op == ITE && (isc(a->k[1]) && isc(a->k[2])))
    return mk_ite(a->k[0], mk_sext(a->k[1], w), mk_sext(a->k[2], w));
  return mk0(SEXT, w, a, nullptr, nullptr, 0, sx(a->cv, a->w));
}

static Expr *mk_ite(Expr *c, Expr *t, Expr *f) {
  if (isc(c)) return c->imm ? t : f;
  if (t == f) return t;
  if (c->op == NOT) return mk_ite(c->k[0], f, t);
  if (t->w == 1) {
    if (isc(t, 1) && isc(f, 0)) return c;
    if (isc(t, 0) && isc(f, 1)) return mk_not(c);
    if (isc(t, 1)) return mk_bin(OR, c, f);
    if (isc(t, 0)) return mk_bin(AND, mk_not(c), f);
    if (isc(f, 0)) return mk_bin(AND, c, t);
    if (isc(f, 1)) return mk_bin(OR, mk_not(c), t);
  }
  if (t->op == ITE && t->k[0] == c) t = t->k[1];
  if (f->op == ITE && f->k[0] == c) f = f->k[2];
  if (t == f) return t;
  // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
  if (f->op == ITE && f->k[1] == t) return mk_ite(mk_bin(OR, c, f->k[0]), t, f->k[2]);
  if (isc(t, 1) && isc(f, 0)) return mk_zext(c, t->w);
  return mk0(ITE, t->w, c, t, f, 0, c->cv ? t->cv : f->cv);
}

static Expr *mk_eq(Expr *a, Expr *b) {
  if (a == b) return cst(1, 1);
  if (isc(a) && isc(b)) return cst(1, a->imm == b->imm);
  if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b);
  if (a->w == 1) {
    if (isc(b)) return b->imm ? a : mk_not(a);
  }
  if (isc(b)) {
    switch (a->op) {
    case ZEXT:
      if (b->imm >> a->k[0]->w) return cst(1, 0);
      return mk_eq(a->k[0], cst(a->k[0]->w, b->imm));
    case SEXT:
      if ((u64)(sx(b->imm & mask(a->k[0]->w), a->k[0]->w)) != (u64)sx(b->imm, b->w))
        return cst(1, 0);
      return mk_eq(a->k[0], cst(a->k[0]->w, b->imm));
    case ADD:
      if (isc(a->k[1])) return mk_eq(a->k[0], cst(a->w, b->imm - a->k[1]->imm));
      break;
    case SUB:
      if (isc(a->k[0])) return mk_eq(a->k[1], cst(a->w, a->k[0]->imm - b->imm));
      if (b->imm == 0) return mk_eq(a->k[0], a->k[1]);
      break;
    case XOR:
      if (isc(a->k[1])) return mk_eq(a->k[0], cst(a->w, b->imm ^ a->k[1]->imm));
      if (b->imm == 0) return mk_eq(a->k[0], a->k[1]);
      break;
    case ITE:
      if (isc(a->k[1]) || isc(a->k[2]))
        return mk_ite(a->k[0], mk_eq(a->k[1], b), mk_eq(a->k[2], b));
      break;
    case CONCAT:
      if (isc(a->k[1])) {
        if ((b->imm & mask(a->k[1]->w)) != a->k[1]->imm) return cst(1, 0);
        return mk_eq(a->k[0], cst(a->k[0]->w, b->imm >> a->k[1]->w));
      }
      if (isc(a->k[0])) {
        if (b->imm >> a->k[1]->w != a->k[0]->imm) return cst(1, 0);
        return mk_eq(a->k[1], cst(a->k[1]->w, b->imm));
      }
      break;
    default: break;
    }
  } else {
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w)
      return mk_eq(a->k[0], b->k[0]);
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w)
      return mk_eq(a->k[0], b->k[0]);
  }
  return mk0(EQ, 1, a, b, nullptr, 0, a->cv == b->cv);
}

static Expr *mk_cmp(Op op, Expr *a, Expr *b) {
  if (op == EQ) return mk_eq(a, b);
  unsigned w = a->w;
  bool cv;
  switch (op) {
  case ULT: cv = a->cv < b->cv; break;
  case ULE: cv = a->cv <= b->cv; break;
  case SLT: cv = sx(a->cv, w) < sx(b->cv, w); break;
  default: cv = sx(a->cv, w) <= sx(b->cv, w); break;
  }
  if (isc(a) && isc(b)) return cst(1, cv);
  if (a == b) return cst(1, op == ULE || op == SLE);
  if (w == 1) {
    Expr *na = mk_not(a), *nb = mk_not(b);
    switch (op) {
    case ULT: return mk_bin(AND, na, b);
    case ULE: return mk_bin(OR, na, b);
    case SLT: return mk_bin(AND, a, nb);
    default: return mk_bin(OR, a, nb);
    }
  }
  if (op == ULT) {
    if (isc(b, 0)) return cst(1, 0);
    if (isc(b, 1)) return mk_eq(a, cst(w, 0));
    if (isc(a) && a->imm == mask(w)) return cst(1, 0);
  } else if (op == ULE) {
    if (isc(a, 0)) return cst(1, 1);
    if (isc(b) && b->imm == mask(w)) return cst(1, 1);
    if (isc(b, 0)) return mk_eq(a, b);
  }
  if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w)
    return mk_cmp(op == SLT ? ULT : op == SLE ? ULE : op, a->k[0], b->k[0]);
  if (a->op == ZEXT && isc(b)) {
    unsigned sw = a->k[0]->w;
    if (op == ULT || op == ULE) {
      if (b->imm > mask(sw)) return cst(1, 1);
      return mk_cmp(op, a->k[0], cst(sw, b->imm));
    }
    if (sx(b->imm, w) < 0) return cst(1, 0);
    if (b->imm > mask(sw)) return cst(1, 1);
    return mk_cmp(op == SLT ? ULT : ULE, a->k[0], cst(sw, b->imm));
  }
  if (b->op == ZEXT && isc(a)) {
    unsigned sw = b->k[0]->w;
    if (op == ULT || op == ULE) {
      if (a->imm > mask(sw)) return cst(1, 0);
      return mk_cmp(op, cst(sw, a->imm), b->k[0]);
    }
    if (sx(a->imm, w) < 0) return cst(1, 1);
    if (a->imm > mask(sw)) return cst(1, 0);
    return mk_cmp(op == SLT ? ULT : ULE, cst(sw, a->imm), b->k[0]);
  }
  if (a->op == ITE && isc(b) && (isc(a->k[1]) || isc(a->k[2])))
    return mk_ite(a->k[0], mk_cmp(op, a->k[1], b), mk_cmp(op, a->k[2], b));
  if (b->op == ITE && isc(a) && (isc(b->k[1]) || isc(b->k[2])))
    return mk_ite(b->k[0], mk_cmp(op, a, b->k[1]), mk_cmp(op, a, b->k[2]));
  return mk0(op, 1, a, b, nullptr, 0, cv);
}

// ---------------------------------------------------------------------------
// Z3

static Z3_context zc;
static Z3_solver zsolver;
static bool zfp;                 // current path mentions floating point
static Z3_sort zbv[65];
static std::vector<Expr *> pc;   // asserted path constraints
static std::set<Expr *> pcset;
static u64 query_ms = 20000;

static Z3_ast toz(Expr *e);
static Z3_sort bvsort(unsigned w) {
  if (!zbv[w]) { zbv[w] = Z3_mk_bv_sort(zc, w); Z3_inc_ref(zc, (Z3_ast)zbv[w]); }
  return zbv[w];
}
static Z3_ast num(unsigned w, u64 v) {
  return Z3_mk_unsigned_int64(zc, v, bvsort(w));
}
static Z3_ast tobv(Expr *e) {
  Z3_ast z = toz(e);
  if (e->w == 1) return Z3_mk_ite(zc, z, num(1, 1), num(1, 0));
  return z;
}
static Z3_sort fsort(unsigned w) {
  return w == 32 ? Z3_mk_fpa_sort_32(zc) : Z3_mk_fpa_sort_64(zc);
}
static Z3_ast tofp(Expr *e) { return Z3_mk_fpa_to_fp_bv(zc, toz(e), fsort(e->w)); }
static Z3_ast rne() { return Z3_mk_fpa_rne(zc); }
static Z3_ast frombool1(Z3_ast bv1) { return Z3_mk_eq(zc, bv1, num(1, 1)); }

static Z3_ast toz(Expr *e) {
  if (e->z) return e->z;
  // iterative post-order for deep DAGs
  std::vector<Expr *> st{e};
  Z3_ast r = nullptr;
  while (!st.empty()) {
    Expr *x = st.back();
    if (x->z) { st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < 3; i++)
      if (x->k[i] && !x->k[i]->z) { st.push_back(x->k[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    Expr **k = x->k;
    switch (x->op) {
    case CONST: r = x->w == 1 ? (x->imm ? Z3_mk_true(zc) : Z3_mk_false(zc)) : num(x->w, x->imm); break;
    case VAR: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, x->imm), bvsort(64)); break;
    case ADD: r = Z3_mk_bvadd(zc, toz(k[0]), toz(k[1])); break;
    case SUB: r = Z3_mk_bvsub(zc, toz(k[0]), toz(k[1])); break;
    case MUL: r = Z3_mk_bvmul(zc, toz(k[0]), toz(k[1])); break;
    case UDIV: r = Z3_mk_bvudiv(zc, toz(k[0]), toz(k[1])); break;
    case SDIV: r = Z3_mk_bvsdiv(zc, toz(k[0]), toz(k[1])); break;
    case UREM: r = Z3_mk_bvurem(zc, toz(k[0]), toz(k[1])); break;
    case SREM: r = Z3_mk_bvsrem(zc, toz(k[0]), toz(k[1])); break;
    case AND: { Z3_ast a[2] = {toz(k[0]), toz(k[1])};
      r = x->w == 1 ? Z3_mk_and(zc, 2, a) : Z3_mk_bvand(zc, a[0], a[1]); break; }
    case OR: { Z3_ast a[2] = {toz(k[0]), toz(k[1])};
      r = x->w == 1 ? Z3_mk_or(zc, 2, a) : Z3_mk_bvor(zc, a[0], a[1]); break; }
    case XOR: r = x->w == 1 ? Z3_mk_xor(zc, toz(k[0]), toz(k[1]))
                            : Z3_mk_bvxor(zc, toz(k[0]), toz(k[1])); break;
    case SHL: r = Z3_mk_bvshl(zc, toz(k[0]), toz(k[1])); break;
    case LSHR: r = Z3_mk_bvlshr(zc, toz(k[0]), toz(k[1])); break;
    case ASHR: r = Z3_mk_bvashr(zc, toz(k[0]), toz(k[1])); break;
    case EQ: r = Z3_mk_eq(zc, toz(k[0]), toz(k[1])); break;
    case ULT: r = Z3_mk_bvult(zc, toz(k[0]), toz(k[1])); break;
    case ULE: r = Z3_mk_bvule(zc, toz(k[0]), toz(k[1])); break;
    case SLT: r = Z3_mk_bvslt(zc, toz(k[0]), toz(k[1])); break;
    case SLE: r = Z3_mk_bvsle(zc, toz(k[0]), toz(k[1])); break;
    case NOT: r = Z3_mk_not(zc, toz(k[0])); break;
    case EXTRACT: r = Z3_mk_extract(zc, x->imm + x->w - 1, x->imm, tobv(k[0]));
      if (x->w == 1) r = frombool1(r);
      break;
    case CONCAT: r = Z3_mk_concat(zc, tobv(k[0]), tobv(k[1])); break;
    case ZEXT: r = k[0]->w == 1 ? Z3_mk_ite(zc, toz(k[0]), num(x->w, 1), num(x->w, 0))
                                : Z3_mk_zero_ext(zc, x->w - k[0]->w, toz(k[0])); break;
    case SEXT: r = k[0]->w == 1 ? Z3_mk_ite(zc, toz(k[0]), num(x->w, ~0ull & mask(x->w)), num(x->w, 0))
                                : Z3_mk_sign_ext(zc, x->w - k[0]->w, toz(k[0])); break;
    case ITE: r = Z3_mk_ite(zc, toz(k[0]), toz(k[1]), toz(k[2])); break;
    case FADD: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_add(zc, rne(), tofp(k[0]), tofp(k[1]))); break;
    case FSUB: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_sub(zc, rne(), tofp(k[0]), tofp(k[1]))); break;
    case FMUL: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_mul(zc, rne(), tofp(k[0]), tofp(k[1]))); break;
    case FDIV: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_div(zc, rne(), tofp(k[0]), tofp(k[1]))); break;
    case FREM: case UF: {
      Z3_sort ds[2]; Z3_ast as[2]; int n = 0;
      for (int i = 0; i < 2; i++) if (k[i]) { ds[n] = bvsort(k[i]->w); as[n++] = toz(k[i]); }
      char nm[32]; snprintf(nm, sizeof nm, "uf%llu_%d", (unsigned long long)x->imm, x->w);
      Z3_func_decl fd = Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, nm), n, ds, bvsort(x->w));
      r = Z3_mk_app(zc, fd, n, as); break; }
    case FEQ: r = Z3_mk_fpa_eq(zc, tofp(k[0]), tofp(k[1])); break;
    case FLT: r = Z3_mk_fpa_lt(zc, tofp(k[0]), tofp(k[1])); break;
    case FLE: r = Z3_mk_fpa_leq(zc, tofp(k[0]), tofp(k[1])); break;
    case FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(zc, tofp(k[0])), Z3_mk_fpa_is_nan(zc, tofp(k[1]))};
      r = Z3_mk_or(zc, 2, a); break; }
    case FSQRT: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_sqrt(zc, rne(), tofp(k[0]))); break;
    case FRND: { Z3_ast m = x->aux == 0 ? Z3_mk_fpa_rtn(zc) : x->aux == 1 ? Z3_mk_fpa_rtp(zc)
                   : x->aux == 2 ? Z3_mk_fpa_rtz(zc) : x->aux == 3 ? Z3_mk_fpa_rne(zc) : Z3_mk_fpa_rna(zc);
      r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_round_to_integral(zc, m, tofp(k[0]))); break; }
    case F2S: r = Z3_mk_fpa_to_sbv(zc, Z3_mk_fpa_rtz(zc), tofp(k[0]), x->w); break;
    case F2U: r = Z3_mk_fpa_to_ubv(zc, Z3_mk_fpa_rtz(zc), tofp(k[0]), x->w); break;
    case S2F: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_to_fp_signed(zc, rne(), tobv(k[0]), fsort(x->w))); break;
    case U2F: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_to_fp_unsigned(zc, rne(), tobv(k[0]), fsort(x->w))); break;
    case F2F: r = Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_to_fp_float(zc, rne(), tofp(k[0]), fsort(x->w))); break;
    }
    Z3_inc_ref(zc, r);
    x->z = r;
  }
  return e->z;
}

static void zerr(Z3_context c, Z3_error_code e) {
  incomplete(std::string("z3 error: ") + Z3_get_error_msg(c, e));
  end_path("error");
}

static void z3_setup() {
  Z3_global_param_set("memory_max_size", "3000");
  Z3_config cfg = Z3_mk_config();
  zc = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(zc, zerr);
  (void)bvsort(64);
}
static void set_timeout(Z3_solver s, u64 ms) {
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), ms);
  Z3_solver_set_params(zc, s, p);
  Z3_params_dec_ref(zc, p);
}
static Z3_solver main_solver() {
  if (!zsolver) {
    zsolver = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
    Z3_solver_inc_ref(zc, zsolver);
    // A query this solver cannot settle soon goes to a fresh one, which
    // has more preprocessing
    set_timeout(zsolver, query_ms < 2000 ? query_ms : 2000);
    for (Expr *e : pc) if (!e->fp) Z3_solver_assert(zc, zsolver, toz(e));
  }
  return zsolver;
}

// Independent slice of the path condition for a query
static std::vector<Expr *> slice(Expr *q) {
  u64 vs = q->vars; std::vector<bool> in(pc.size()); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!in[i] && (pc[i]->vars & vs)) {
        in[i] = true;
        if ((pc[i]->vars | vs) != vs) { vs |= pc[i]->vars; ch = true; }
      } }
  std::vector<Expr *> r;
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
  return r;
}

// Is PC && q satisfiable?  On SAT fills model (full input vector).
static Z3_lbool query(Expr *q, std::vector<u64> *model) {
  if (isc(q)) {
    if (!q->imm) return Z3_L_FALSE;
  }
  double t0 = now();
  stat_q++;
  std::vector<Expr *> sl = slice(q);
  bool fp = q->fp;
  for (Expr *e : sl) fp |= e->fp;
  Z3_solver s = nullptr; Z3_lbool r = Z3_L_UNDEF; bool fresh = false;
  if (!fp) {
    s = main_solver();
    Z3_solver_push(zc, s);
    Z3_solver_assert(zc, s, toz(q));
    r = Z3_solver_check(zc, s);
  }
  if (r == Z3_L_UNDEF) {
    if (!fp) Z3_solver_pop(zc, s, 1);
    fresh = true;
    if (fp) s = Z3_mk_solver(zc);
    else s = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
    Z3_solver_inc_ref(zc, s);
    set_timeout(s, query_ms * 2);
    for (Expr *e : sl) Z3_solver_assert(zc, s, toz(e));
    Z3_solver_assert(zc, s, toz(q));
    r = Z3_solver_check(zc, s);
  }
  if (r == Z3_L_TRUE) {
    stat_sat++;
    if (model) {
      Z3_model m = Z3_solver_get_model(zc, s); Z3_model_inc_ref(zc, m);
      *model = inval;
      u64 sv = q->vars; for (Expr *e : sl) sv |= e->vars;
      for (u32 i = 0; i < nvars; i++) {
        if (!(sv & (1ull << (i & 63)))) continue;
        Z3_ast v = Z3_mk_const(zc, Z3_mk_int_symbol(zc, i), bvsort(64)), o;
        uint64_t x;
        if (Z3_model_eval(zc, m, v, false, &o)) {
          Z3_inc_ref(zc, o);
          if (Z3_get_ast_kind(zc, o) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(zc, o, &x))
            (*model)[i] = x;
          else {
            // not constrained by the query: any value will do
            (*model)[i] = inval[i];
          }
          Z3_dec_ref(zc, o);
        }
      }
      Z3_model_dec_ref(zc, m);
    }
  } else if (r == Z3_L_FALSE) stat_unsat++;
  if (fresh) Z3_solver_dec_ref(zc, s);
  else Z3_solver_pop(zc, s, 1);
  double dt = now() - t0;
  stat_t += dt;
  if (verbose && dt > 1.0) fprintf(stderr, "slow query %.1fs r=%d\n", dt, r);
  return r;
}

// Literals known to hold on this path, with conjunctions split
static bool note_lit(Expr *e) {
  if (!pcset.insert(e).second) return false;
  if (e->op == AND) { note_lit(e->k[0]); note_lit(e->k[1]); }
  else if (e->op == NOT && e->k[0]->op == OR) {
    note_lit(mk_not(e->k[0]->k[0])); note_lit(mk_not(e->k[0]->k[1]));
  }
  return true;
}
static void assert_pc(Expr *e) {
  if (isc(e)) return;
  if (!note_lit(e)) return;
  pc.push_back(e);
  if (zsolver && !e->fp) Z3_solver_assert(zc, zsolver, toz(e));
}

static void emit(const std::vector<u64> &m, u32 bound, const std::vector<u64> &excl,
                 u64 ph, const char *kind, const char *msg) {
  // N|V bound phash nin in.. nexcl excl.. nenum (n v..)..
  rep("%s %u %llu %zu", kind, bound, (unsigned long long)ph, m.size());
  for (u64 v : m) rep(" %llx", (unsigned long long)v);
  rep(" %zu", excl.size());
  for (u64 v : excl) rep(" %llx", (unsigned long long)v);
  rep(" %zu", enum_trace.size());
  for (auto &e : enum_trace) {
    rep(" %zu", e.size());
    for (u64 v : e) rep(" %llx", (unsigned long long)v);
  }
  rep(" |%s\n", msg);
  flush_rep();   // another process can start on it at once
}

static u64 hmix(u64 h, u64 v) {
  h = (h ^ v) * 0xff51afd7ed558ccdull; return h ^ (h >> 29);
}
static u64 hstr(const char *s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (u8)*s++) * 1099511628211ull; return h; }

static std::string where(const char *fn, u32 line) {
  return std::string(fn ? fn : "?") + ":" + std::to_string(line);
}
static u32 max_events = 20000;

// A negatable branch on boolean expression e with concrete outcome c
static void branch(Expr *e, bool c, const char *fn, u32 line) {
  if (!active || e == nullptr || isc(e)) return;
  if ((e->cv != 0) != c) {
    incomplete("shadow divergence at " + where(fn, line));
    return;
  }
  Expr *lit = c ? e : mk_not(e);
  if (pcset.count(lit)) return;
  u32 ev = nevents++;
  if (ev >= max_events) { incomplete("path too long at " + where(fn, line)); end_path("long"); }
  u64 h0 = hmix(thash, hstr(fn) * 31 + line);
  thash = hmix(h0, c);
  if (ev + 1 > cur.bound) {
    std::vector<u64> m;
    Z3_lbool r = query(mk_not(lit), &m);
    if (r == Z3_L_TRUE) emit(m, ev + 1, {}, hmix(h0, !c), "N", "");
    else if (r == Z3_L_UNDEF) incomplete("solver gave up at branch " + where(fn, line));
    if (r == Z3_L_FALSE) {
      // implied: no need to assert
      note_lit(lit);
      return;
    }
  } else if (ev + 1 == cur.bound && thash != cur.phash)
    incomplete("path divergence at " + where(fn, line));
  assert_pc(lit);
}

// The value of an expression for other inputs
static bool eval_at(Expr *e, const std::vector<u64> &in, u64 *v) {
  std::vector<Z3_ast> from, to;
  for (u32 i = 0; i < in.size(); i++) {
    if (!(e->vars & (1ull << (i & 63)))) continue;
    from.push_back(Z3_mk_const(zc, Z3_mk_int_symbol(zc, i), bvsort(64)));
    Z3_inc_ref(zc, from.back());
    to.push_back(Z3_mk_unsigned_int64(zc, in[i], bvsort(64)));
    Z3_inc_ref(zc, to.back());
  }
  Z3_ast a = Z3_substitute(zc, toz(e), from.size(), from.data(), to.data());
  Z3_inc_ref(zc, a);
  Z3_ast r = Z3_simplify(zc, a); Z3_inc_ref(zc, r);
  uint64_t x;
  bool ok = Z3_get_ast_kind(zc, r) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(zc, r, &x);
  if (ok) *v = x;
  Z3_dec_ref(zc, r); Z3_dec_ref(zc, a);
  for (Z3_ast z : from) Z3_dec_ref(zc, z);
  for (Z3_ast z : to) Z3_dec_ref(zc, z);
  return ok;
}

static void concretize(Expr *e, const char *why) {
  if (!active || e == nullptr || isc(e)) return;
  if (e->w == 1) { branch(e, e->cv, why, 0); return; }
  Expr *eq = mk_eq(e, cst(e->w, e->cv));
  if (isc(eq) || pcset.count(eq)) return;
  u32 ev = nevents++;
  if (ev >= max_events) { incomplete(std::string("path too long at ") + why); end_path("long"); }
  u64 h0 = hmix(thash, hstr(why));
  thash = hmix(h0, e->cv);
  std::vector<u64> excl;
  if (ev + 1 == cur.bound) excl = cur.excl;
  if (ev + 1 > cur.bound || (ev + 1 == cur.bound && !excl.empty())) {
    excl.push_back(e->cv);
    Expr *q = cst(1, 1);
    for (u64 v : excl) q = mk_bin(AND, q, mk_not(mk_eq(e, cst(e->w, v))));
    // A batch of the other values; the last one of it looks for more
    std::vector<std::vector<u64>> found; std::vector<u64> last;
    Z3_lbool r = Z3_L_FALSE;
    while (found.size() < 40) {
      std::vector<u64> m;
      r = query(q, &m);
      if (r != Z3_L_TRUE) break;
      found.push_back(m);
      u64 v;
      if (!eval_at(e, m, &v)) { last = excl; break; }
      last = excl;
      excl.push_back(v);
      q = mk_bin(AND, q, mk_not(mk_eq(e, cst(e->w, v))));
    }
    if (excl.size() > 5000) incomplete(std::string("too many values: ") + why);
    else {
      if (r == Z3_L_UNDEF) incomplete(std::string("solver gave up at ") + why);
      for (size_t i = 0; i < found.size(); i++)
        emit(found[i], ev + 1, r == Z3_L_TRUE && i + 1 == found.size() ? last : std::vector<u64>(), 0, "N", "");
      if (!found.empty() && getenv("SYMX_TRACE_CONC")) fprintf(stderr, "concretize %s\n", why);
    }
  }
  assert_pc(eq);
}

// ---------------------------------------------------------------------------
// Shadow memory

struct Page { Expr *e[4096]; u8 ix[4096]; int n; };
static std::unordered_map<u64, Page *> *pages;
static u64 npages, last_pn = ~0ull; static Page *last_pg;

static inline Page *page(u64 pn) {
  if (pn == last_pn) return last_pg;
  auto it = pages->find(pn);
  if (it == pages->end()) return nullptr;
  last_pn = pn; last_pg = it->second;
  return last_pg;
}
static Page *page_new(u64 pn) {
  Page *p = page(pn);
  if (p) return p;
  p = (Page *)calloc(1, sizeof(Page));
  (*pages)[pn] = p; npages++;
  last_pn = pn; last_pg = p;
  return p;
}
static void sh_clear(u64 a, u64 n) {
  if (!npages || n == 0) return;
  if (n > (64 << 20) || (n >> 12) > pages->size() * 4) {
    for (auto &kv : *pages) {
      u64 b = kv.first << 12;
      if (b + 4096 <= a || b >= a + n) continue;
      u64 lo = std::max(a, b), hi = std::min(a + n, b + 4096);
      memset(&kv.second->e[lo - b], 0, (hi - lo) * sizeof(Expr *));
    }
    return;
  }
  while (n) {
    u64 pn = a >> 12, o = a & 4095, l = std::min<u64>(n, 4096 - o);
    if (Page *p = page(pn)) memset(&p->e[o], 0, l * sizeof(Expr *));
    a += l; n -= l;
  }
}
static inline Expr *sh_get(u64 a, u8 *ix) {
  Page *p = page(a >> 12);
  if (!p) return nullptr;
  *ix = p->ix[a & 4095];
  return p->e[a & 4095];
}
static inline void sh_set(u64 a, Expr *e, u8 ix) {
  Page *p = page_new(a >> 12);
  p->e[a & 4095] = e; p->ix[a & 4095] = ix;
}
static bool any_sym(u64 a, u64 n) {
  if (!npages) return false;
  u8 ix;
  while (n) {
    if (!page(a >> 12)) { u64 l = std::min<u64>(n, 4096 - (a & 4095)); a += l; n -= l; continue; }
    if (sh_get(a, &ix)) return true;
    a++; n--;
  }
  return false;
}
// Byte expression at an address, verified against memory; null if concrete
static Expr *byte_at(u64 a) {
  u8 ix;
  Expr *e = sh_get(a, &ix);
  if (!e) return nullptr;
  Expr *b = mk_extract(e, ix * 8, 8);
  if (b->cv != *(u8 *)a) { stat_stale++; sh_set(a, nullptr, 0); return nullptr; }
  if (isc(b)) return nullptr;
  return b;
}
static Expr *load_at(u64 a, unsigned size, unsigned w) {
  if (!npages) return nullptr;
  u8 ix0;
  Expr *e0 = sh_get(a, &ix0);
  if (e0 && ix0 == 0 && e0->w == size * 8) {
    bool uni = true;
    for (unsigned i = 1; i < size; i++) {
      u8 ix; if (sh_get(a + i, &ix) != e0 || ix != i) { uni = false; break; }
    }
    if (uni) {
      u64 v = 0; memcpy(&v, (void *)a, size);
      if (v == e0->cv) return w == e0->w ? e0 : mk_extract(e0, 0, w);
    }
  }
  bool any = false;
  Expr *bs[8];
  for (unsigned i = 0; i < size; i++) { bs[i] = byte_at(a + i); any |= bs[i] != nullptr; }
  if (!any) return nullptr;
  Expr *r = nullptr;
  for (unsigned i = 0; i < size; i++) {
    Expr *b = bs[i] ? bs[i] : cst(8, *(u8 *)(a + i));
    r = r ? mk_concat(b, r) : b;
  }
  if (w < r->w) r = mk_extract(r, 0, w);
  return isc(r) ? nullptr : r;
}
static void store_at(u64 a, unsigned size, Expr *e) {
  if (e->w != size * 8) e = mk_zext(e, size * 8);
  for (unsigned i = 0; i < size; i++) sh_set(a + i, e, i);
}

static bool readable(u64 a, unsigned n) {
  char buf[16]; iovec l{buf, n}, r{(void *)a, n};
  return process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t)n;
}

[[noreturn]] static void violation_now(const char *msg) {
  emit(inval, 0, {}, 0, "V", msg);
  end_path("violation");
}

// ---------------------------------------------------------------------------
// Instrumentation entry points

#define LIFT(e, w, v) ((e) ? (e) : cst(w, v))
static inline Expr *ret(Expr *e) { return isc(e) ? nullptr : e; }
static bool chk(Expr *a, unsigned w, u64 av) {
  if (a && a->cv != (av & mask(w))) {
    stat_stale++;
    return false;
  }
  return true;
}
static Expr *fix(Expr *a, unsigned w, u64 av) {
  if (a == nullptr) return nullptr;
  if (!chk(a, w, av)) { incomplete("shadow/value mismatch"); return nullptr; }
  return a;
}

extern "C" {

Expr *symx_bin(u32 op, u32 w, Expr *a, u64 av, Expr *b, u64 bv) {
  if (!a && !b) return nullptr;
  a = fix(a, w, av); b = fix(b, w, bv);
  if (!a && !b) return nullptr;
  return ret(mk_bin((Op)(ADD + op), LIFT(a, w, av), LIFT(b, w, bv)));
}

Expr *symx_cmp(u32 pred, u32 w, Expr *a, u64 av, Expr *b, u64 bv) {
  if (!a && !b) return nullptr;
  a = fix(a, w, av); b = fix(b, w, bv);
  if (!a && !b) return nullptr;
  a = LIFT(a, w, av); b = LIFT(b, w, bv);
  switch (pred) {
  case 32: return ret(mk_eq(a, b));
  case 33: return ret(mk_not(mk_eq(a, b)));
  case 34: return ret(mk_cmp(ULT, b, a));
  case 35: return ret(mk_cmp(ULE, b, a));
  case 36: return ret(mk_cmp(ULT, a, b));
  case 37: return ret(mk_cmp(ULE, a, b));
  case 38: return ret(mk_cmp(SLT, b, a));
  case 39: return ret(mk_cmp(SLE, b, a));
  case 40: return ret(mk_cmp(SLT, a, b));
  case 41: return ret(mk_cmp(SLE, a, b));
  }
  abort();
}

static Expr *mkf(Op op, unsigned w, Expr *a, Expr *b, u64 imm, u64 cv, unsigned aux = 0) {
  if (isc(a) && (!b || isc(b))) return cst(w, cv);
  return mk0(op, w, a, b, nullptr, imm, cv, aux);
}

Expr *symx_fbin(u32 op, u32 w, Expr *a, u64 av, Expr *b, u64 bv, u64 rv) {
  if (!a && !b) return nullptr;
  a = fix(a, w, av); b = fix(b, w, bv);
  if (!a && !b) return nullptr;
  a = LIFT(a, w, av); b = LIFT(b, w, bv);
  if ((op == 0 || op == 2) && a->id > b->id) std::swap(a, b);
  if (op == 2 && w == 64 && isc(b, 0x3ff0000000000000ull)) {}
  return ret(mkf((Op)(FADD + op), w, a, b, op == 4 ? 99 : 0, rv));
}

Expr *symx_fcmp(u32 pred, u32 w, Expr *a, u64 av, Expr *b, u64 bv, u32 rv) {
  if (!a && !b) return nullptr;
  a = fix(a, w, av); b = fix(b, w, bv);
  if (!a && !b) return nullptr;
  a = LIFT(a, w, av); b = LIFT(b, w, bv);
  auto D = [&](Expr *e) { u64 v = e->cv; double d; float f; u32 x = v;
    if (w == 64) memcpy(&d, &v, 8); else { memcpy(&f, &x, 4); d = f; } return d; };
  double x = D(a), y = D(b);
  Expr *eq = mkf(FEQ, 1, a, b, 0, x == y), *lt = mkf(FLT, 1, a, b, 0, x < y),
    *gt = mkf(FLT, 1, b, a, 0, y < x), *le = mkf(FLE, 1, a, b, 0, x <= y),
    *ge = mkf(FLE, 1, b, a, 0, y <= x), *un = mkf(FUNO, 1, a, b, 0, x != x || y != y);
  Expr *r;
  switch (pred) {
  case 1: r = eq; break; case 2: r = gt; break; case 3: r = ge; break;
  case 4: r = lt; break; case 5: r = le; break;
  case 6: r = mk_bin(OR, lt, gt); break;
  case 7: r = mk_not(un); break; case 8: r = un; break;
  case 9: r = mk_bin(OR, eq, un); break; case 10: r = mk_not(le); break;
  case 11: r = mk_not(lt); break; case 12: r = mk_not(ge); break;
  case 13: r = mk_not(gt); break; case 14: r = mk_not(eq); break;
  default: return nullptr;
  }
  return ret(r);
}

Expr *symx_fun(u32 op, u32 w, Expr *a, u64 av, u64 rv) {
  a = fix(a, w, av);
  if (!a) return nullptr;
  return ret(mk_bin(XOR, a, cst(w, 1ull << (w - 1))));
}

Expr *symx_fintr(const char *name, u32 w, Expr *a, u64 av, Expr *b, u64 bv, u64 rv) {
  if (!a && !b) return nullptr;
  a = fix(a, w, av); b = fix(b, w, bv);
  if (!a && !b) return nullptr;
  a = LIFT(a, w, av);
  u64 sb = 1ull << (w - 1);
  if (!strcmp(name, "fabs")) return ret(mk_bin(AND, a, cst(w, sb - 1)));
  if (!strcmp(name, "sqrt")) return ret(mkf(FSQRT, w, a, nullptr, 0, rv));
  if (!strcmp(name, "copysign")) {
    b = LIFT(b, w, bv);
    return ret(mk_bin(OR, mk_bin(AND, a, cst(w, sb - 1)), mk_bin(AND, b, cst(w, sb))));
  }
  int m = !strcmp(name, "floor") ? 0 : !strcmp(name, "ceil") ? 1 : !strcmp(name, "trunc") ? 2
    : !strcmp(name, "rint") || !strcmp(name, "nearbyint") || !strcmp(name, "roundeven") ? 3
    : !strcmp(name, "round") ? 4 : -1;
  if (m >= 0) return ret(mkf(FRND, w, a, nullptr, 0, rv, m));
  if (b) b = LIFT(b, w, bv);
  u64 h = hstr(name) >> 8;
  if (!strcmp(name, "pow") || !strcmp(name, "minnum") || !strcmp(name, "maxnum")
      || !strcmp(name, "fmod") || !strcmp(name, "atan2"))
    b = LIFT(b, w, bv);
  return ret(mkf(UF, w, a, b, h, rv));
}

Expr *symx_cast(u32 kind, u32 fw, u32 tw, Expr *a, u64 rv) {
  if (!a) return nullptr;
  switch (kind) {
  case 0: return ret(mk_extract(a, 0, tw));
  case 1: return ret(mk_zext(a, tw));
  case 2: return ret(mk_sext(a, tw));
  case 10: return ret(mkf(F2U, tw, a, nullptr, 0, rv));
  case 11: return ret(mkf(F2S, tw, a, nullptr, 0, rv));
  case 12: return ret(mkf(U2F, tw, a, nullptr, 0, rv));
  case 13: return ret(mkf(S2F, tw, a, nullptr, 0, rv));
  case 14: case 15: return ret(mkf(F2F, tw, a, nullptr, 0, rv));
  }
  abort();
}

Expr *symx_extract(u32 lo, u32 w, Expr *a) {
  return a ? ret(mk_extract(a, lo, w)) : nullptr;
}
Expr *symx_concat(u32 ww, Expr *hi, u64 hv, Expr *lo, u64 lv) {
  if (!hi && !lo) return nullptr;
  unsigned hw = ww >> 8, lw = ww & 255;
  return ret(mk_concat(LIFT(hi, hw, hv), LIFT(lo, lw, lv)));
}

Expr *symx_select(u32 w, Expr *c, u64 cv, Expr *t, u64 tv, Expr *f, u64 fv) {
  if (!c) return cv & 1 ? t : f;
  c = fix(c, 1, cv);
  if (!c) return cv & 1 ? t : f;
  if (!t && !f && (tv & mask(w)) == (fv & mask(w))) return nullptr;
  return ret(mk_ite(c, LIFT(t, w, tv), LIFT(f, w, fv)));
}

Expr *symx_gep(Expr *b, u64 bv, Expr *i, u64 iv, u32 iw, u64 scale) {
  if (!b && !i) return nullptr;
  b = fix(b, 64, bv); i = fix(i, iw, iv);
  if (!b && !i) return nullptr;
  Expr *x = mk_sext(LIFT(i, iw, iv), 64);
  return ret(mk_bin(ADD, LIFT(b, 64, bv), mk_bin(MUL, x, cst(64, scale))));
}

static const char *conc_why[64];
// While set, values which are only printed are not fixed on the path
static bool no_pin;
void symx_quiet(u32 on) { no_pin = on; }
void symx_concretize(Expr *s, u32 why) {
  if (no_pin && (why == 5)) return;
  if (!s) return;
  char nm[32]; snprintf(nm, sizeof nm, "concretize#%u", why);
  concretize(s, nm);
}

void symx_conc_mem(u8 *a, u64 n, Expr *sa) {
  if (sa) concretize(sa, "wide access address");
  if (!any_sym((u64)a, n)) return;
  for (u64 i = 0; i < n; i++)
    if (Expr *b = byte_at((u64)a + i)) concretize(b, "wide load");
}

Expr *symx_load(u8 *addr, u32 size, u32 w, Expr *sa) {
  u64 a = (u64)addr;
  if (sa) sa = fix(sa, 64, a);
  if (!sa || !active) return load_at(a, size, w);
  // Symbolic address: enumerate the feasible addresses
  stat_loads++;
  std::vector<u64> vals;
  u32 idx = nenums++;
  if (idx < cur.enums.size()) vals = cur.enums[idx];
  else {
    Expr *q = mk_not(mk_eq(sa, cst(64, a)));
    vals.push_back(a);
    // quick structural candidates could go here
    while (vals.size() <= max_enum) {
      std::vector<u64> m;
      // evaluate address under the model
      Z3_lbool r;
      u64 av = 0;
      {
        double t0 = now();
        stat_q++;
        std::vector<Expr *> sl = slice(q);
        bool fp = q->fp; for (Expr *e : sl) fp |= e->fp;
        Z3_solver s = fp ? Z3_mk_solver(zc) : main_solver();
        set_timeout(s, no_pin ? 1000 : query_ms);
        if (fp) { Z3_solver_inc_ref(zc, s); for (Expr *e : sl) Z3_solver_assert(zc, s, toz(e)); }
        Z3_solver_push(zc, s);
        Z3_solver_assert(zc, s, toz(q));
        r = Z3_solver_check(zc, s);
        while (r == Z3_L_TRUE && vals.size() <= max_enum) {
          stat_sat++;
          Z3_model md = Z3_solver_get_model(zc, s); Z3_model_inc_ref(zc, md);
          Z3_ast o; uint64_t x = 0;
          if (Z3_model_eval(zc, md, toz(sa), true, &o)) { Z3_inc_ref(zc, o); Z3_get_numeral_uint64(zc, o, &x); Z3_dec_ref(zc, o); }
          Z3_model_dec_ref(zc, md);
          av = x;
          if (std::find(vals.begin(), vals.end(), av) != vals.end()) { r = Z3_L_UNDEF; break; }
          vals.push_back(av);
          Expr *ne = mk_not(mk_eq(sa, cst(64, av)));
          q = mk_bin(AND, q, ne);
          Z3_solver_assert(zc, s, toz(ne));
          stat_q++;
          r = Z3_solver_check(zc, s);
        }
        Z3_solver_pop(zc, s, 1);
        if (fp) Z3_solver_dec_ref(zc, s);
        else set_timeout(s, query_ms < 2000 ? query_ms : 2000);
        stat_t += now() - t0;
      }
      if (r == Z3_L_UNDEF && getenv("SYMX_TRACE_CONC")) {
        void *bt[12]; backtrace_symbols_fd(bt, backtrace(bt, 12), 2);
      }
      if (r == Z3_L_UNDEF && no_pin) {
        // text of a message: any choice will do, and fix nothing
        enum_trace.push_back({a, a});
        return load_at(a, size, w);
      }
      if (r == Z3_L_UNDEF) { incomplete("solver gave up enumerating addresses"); }
      break;
    }
    if (vals.size() > max_enum) vals.clear();
    for (u64 v : vals)
      if (!readable(v, size)) { vals.clear(); break; }
    std::sort(vals.begin(), vals.end());
  }
  if (vals.size() == 2 && vals[0] == vals[1]) {
    enum_trace.push_back(vals);
    return load_at(a, size, w);
  }
  enum_trace.push_back(vals);
  if (vals.empty()) {
    concretize(sa, "symbolic load address");
    return load_at(a, size, w);
  }
  // value at each address
  Expr *r = nullptr;
  for (u64 v : vals) {
    Expr *x = load_at(v, size, w);
    if (!x) { u64 c = 0; memcpy(&c, (void *)v, size); x = cst(w, c); }
    r = r ? mk_ite(mk_eq(sa, cst(64, v)), x, r) : x;
  }
  return ret(r);
}

void symx_store(u8 *addr, u32 size, Expr *sa, Expr *sv, u64) {
  if (sa) { sa = fix(sa, 64, (u64)addr); concretize(sa, "symbolic store address"); }
  if (!sv) { if (npages) sh_clear((u64)addr, size); return; }
  store_at((u64)addr, size, sv);
}

void symx_clear(u8 *a, u64 n) { if (npages) sh_clear((u64)a, n); }

static void copy_shadow(u64 d, u64 s, u64 n) {
  if (!npages || d == s) return;
  if (!any_sym(s, n)) { sh_clear(d, n); return; }
  if (d < s)
    for (u64 i = 0; i < n; i++) { u8 ix = 0; Expr *e = sh_get(s + i, &ix);
      if (e) sh_set(d + i, e, ix); else if (page((d + i) >> 12)) sh_set(d + i, nullptr, 0); }
  else
    for (u64 i = n; i-- > 0;) { u8 ix = 0; Expr *e = sh_get(s + i, &ix);
      if (e) sh_set(d + i, e, ix); else if (page((d + i) >> 12)) sh_set(d + i, nullptr, 0); }
}
// called before the native copy
void symx_memcpy(u8 *d, const u8 *s, u64 n, Expr *sd, Expr *ss, Expr *sn) {
  concretize(sd, "memcpy dest"); concretize(ss, "memcpy src"); concretize(sn, "memcpy size");
  if (s) copy_shadow((u64)d, (u64)s, n);
}
void symx_memset(u8 *d, u64 n, Expr *sd, Expr *sv, Expr *sn) {
  concretize(sd, "memset dest"); concretize(sn, "memset size");
  if (sv) { Expr *b = mk_extract(sv, 0, 8); if (!isc(b)) { for (u64 i = 0; i < n; i++) sh_set((u64)d + i, b, 0); return; } }
  sh_clear((u64)d, n);
}

// functions in which symbolic data decided a branch (for the evidence file)
static void note_fn(const char *fn) {
  static const char *seen[1024];
  u64 i = ((u64)fn >> 3) * 0x9e3779b97f4a7c15ull >> 54;
  for (int k = 0; k < 1024; k++, i = (i + 1) & 1023) {
    if (seen[i] == fn) return;
    if (!seen[i]) { seen[i] = fn; rep("B %s\n", fn); return; }
  }
}
void symx_branch(Expr *s, u64 c, const char *fn, u32 line) {
  if (s) { note_fn(fn); branch(s, c & 1, fn, line); }
}

Expr *symx_intr(u32 id, u32 w, Expr *a, u64 av, Expr *b, u64 bv, Expr *c, u64 cv) {
  if (!a && !b && !c) return nullptr;
  Expr *A = LIFT(a, w, av), *B = LIFT(b, w, bv), *D = LIFT(c, w, cv);
  switch (id) {
  case 0: { Expr *r = cst(w, 0);
    for (unsigned i = 0; i < w; i++) r = mk_bin(ADD, r, mk_zext(mk_extract(A, i, 1), w));
    return ret(r); }
  case 1: { Expr *r = cst(w, w);
    for (unsigned i = 0; i < w; i++) r = mk_ite(mk_extract(A, i, 1), cst(w, w - 1 - i), r);
    return ret(r); }
  case 2: { Expr *r = cst(w, w);
    for (unsigned i = w; i-- > 0;) r = mk_ite(mk_extract(A, i, 1), cst(w, i), r);
    return ret(r); }
  case 3: { Expr *r = mk_extract(A, 0, 8);
    for (unsigned i = 8; i < w; i += 8) r = mk_concat(r, mk_extract(A, i, 8));
    return ret(r); }
  case 4: return ret(mk_ite(mk_cmp(ULT, A, B), A, B));
  case 5: return ret(mk_ite(mk_cmp(ULT, A, B), B, A));
  case 6: return ret(mk_ite(mk_cmp(SLT, A, B), A, B));
  case 7: return ret(mk_ite(mk_cmp(SLT, A, B), B, A));
  case 8: return ret(mk_ite(mk_cmp(SLT, A, cst(w, 0)), mk_bin(SUB, cst(w, 0), A), A));
  case 9: case 10: {
    Expr *sh = mk_bin(UREM, D, cst(w, w));
    Expr *inv = mk_bin(SUB, cst(w, w), sh);
    Expr *z = mk_eq(sh, cst(w, 0));
    if (id == 9) return ret(mk_ite(z, A, mk_bin(OR, mk_bin(SHL, A, sh), mk_bin(LSHR, B, inv))));
    return ret(mk_ite(z, B, mk_bin(OR, mk_bin(LSHR, B, sh), mk_bin(SHL, A, inv)))); }
  case 11: { Expr *s = mk_bin(ADD, A, B); return ret(mk_ite(mk_cmp(ULT, s, A), cst(w, ~0ull), s)); }
  case 12: return ret(mk_ite(mk_cmp(ULT, A, B), cst(w, 0), mk_bin(SUB, A, B)));
  case 13: { Expr *r = mk_extract(A, 0, 1);
    for (unsigned i = 1; i < w; i++) r = mk_concat(r, mk_extract(A, i, 1));
    return ret(r); }
  case 14: case 15: {
    Op o = id == 14 ? ADD : SUB;
    Expr *s = mk_bin(o, A, B);
    Expr *sa = mk_extract(A, w - 1, 1), *sb = mk_extract(B, w - 1, 1), *sr = mk_extract(s, w - 1, 1);
    Expr *ov = mk_bin(AND, id == 14 ? mk_eq(sa, sb) : mk_not(mk_eq(sa, sb)), mk_not(mk_eq(sa, sr)));
    return ret(mk_ite(ov, mk_ite(sa, cst(w, 1ull << (w - 1)), cst(w, mask(w) >> 1)), s)); }
  }
  abort();
}

Expr *symx_ovf(u32 id, u32 w, Expr *a, u64 av, Expr *b, u64 bv) {
  if (!a && !b) return nullptr;
  Expr *A = LIFT(a, w, av), *B = LIFT(b, w, bv);
  auto sgn = [&](Expr *e) { return mk_extract(e, w - 1, 1); };
  switch (id) {
  case 0: { Expr *s = mk_bin(ADD, A, B);
    return ret(mk_bin(AND, mk_eq(sgn(A), sgn(B)), mk_not(mk_eq(sgn(A), sgn(s))))); }
  case 1: return ret(mk_cmp(ULT, mk_bin(ADD, A, B), A));
  case 2: { Expr *s = mk_bin(SUB, A, B);
    return ret(mk_bin(AND, mk_not(mk_eq(sgn(A), sgn(B))), mk_not(mk_eq(sgn(A), sgn(s))))); }
  case 3: return ret(mk_cmp(ULT, A, B));
  case 4: case 5: {
    // exact product in double width when it fits in 64 bits
    if (w <= 32) {
      Expr *p = id == 4 ? mk_bin(MUL, mk_sext(A, 2 * w), mk_sext(B, 2 * w))
                        : mk_bin(MUL, mk_zext(A, 2 * w), mk_zext(B, 2 * w));
      Expr *t = mk_extract(p, 0, w);
      return ret(mk_not(mk_eq(p, id == 4 ? mk_sext(t, 2 * w) : mk_zext(t, 2 * w))));
    }
    // overflow iff b != 0 and (a*b)/b != a, plus MIN * -1
    Expr *p = mk_bin(MUL, A, B);
    Expr *z = mk_eq(A, cst(w, 0));
    if (id == 5)
      return ret(mk_bin(AND, mk_not(z), mk_not(mk_eq(mk_bin(UDIV, p, A), B))));
    Expr *mn = cst(w, 1ull << (w - 1));
    Expr *sp = mk_bin(AND, mk_eq(A, cst(w, ~0ull)), mk_eq(B, mn));
    if (isc(B)) std::swap(A, B), sp = mk_bin(AND, mk_eq(A, cst(w, ~0ull)), mk_eq(B, mn)), z = mk_eq(A, cst(w, 0));
    Expr *d = mk_bin(AND, mk_not(z), mk_not(mk_eq(mk_bin(SDIV, p, A), B)));
    return ret(mk_bin(OR, sp, d)); }
  }
  abort();
}

void symx_uninst(void *callee, u32 n) {
  if (symx_tag != callee) return;
  symx_tag = nullptr;
  if (n > 64) n = 64;
  for (u32 i = 0; i < n; i++) {
    Expr *e = symx_args[i];
    // by-value slots hold addresses, not expressions: they are only passed
    // to functions compiled with us
    if (e && e->op <= UF && e->w <= 64 && e->id < next_id) concretize(e, "external call");
  }
}

void symx_va_start(void *ap) {
  struct VA { u32 gp, fp; void *over, *save; } *v = (VA *)ap;
  sh_clear((u64)v, 24);
  if (v->save) sh_clear((u64)v->save, 176);
}

// ---------------------------------------------------------------------------
// Explorer

static std::vector<Entry> work;
struct Agg {
  u64 paths = 0, ended = 0, queries = 0, sat = 0, unsat = 0, stale = 0, maxev = 0;
  double t = 0;
  std::map<std::string, u64> ok, solved, reach, incompl, hows, fns;
  std::vector<Entry> viol; std::vector<std::string> unconf;
  std::map<std::string, int> vmsg;
  std::set<u64> leaves;
} *agg;

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static void crash_handler(int sig) {
  static volatile int in;
  if (in++) _exit(9);
  char b[96];
  snprintf(b, sizeof b, "crash: signal %d (%s)", sig, strsignal(sig));
  if (sig == SIGALRM) snprintf(b, sizeof b, "hang: path does not end");
  if (getenv("SYMX_TRACE_BT")) {
    void *bt[64]; int n = backtrace(bt, 64);
    backtrace_symbols_fd(bt, n, 2);
  }
  emit(inval, 0, {}, 0, "V", b);
  end_path("crash");
}

static u64 child_secs = 120;

static void child_start(Entry &e, int fd) {
  repfd = fd; cur = e; active = !e.confirm; concrete_mode = e.confirm;
  nvars = nevents = nenums = 0; inval.clear(); thash = 0;
  static char altstk[65536];
  stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP};
  for (int s : sg) sigaction(s, &sa, nullptr);
  sigset_t em; sigemptyset(&em); sigprocmask(SIG_SETMASK, &em, nullptr);
  alarm(e.confirm ? std::min<u64>(child_secs, 40) : child_secs);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
}

static bool parse_entry(const char *&p, Entry &e) {
  char *q;
  e.bound = strtoul(p, &q, 10); p = q;
  e.phash = strtoull(p, &q, 10); p = q;
  size_t n = strtoul(p, &q, 10); p = q;
  for (size_t i = 0; i < n; i++) { e.in.push_back(strtoull(p, &q, 16)); p = q; }
  n = strtoul(p, &q, 10); p = q;
  for (size_t i = 0; i < n; i++) { e.excl.push_back(strtoull(p, &q, 16)); p = q; }
  n = strtoul(p, &q, 10); p = q;
  for (size_t i = 0; i < n; i++) {
    size_t m = strtoul(p, &q, 10); p = q;
    e.enums.emplace_back();
    for (size_t j = 0; j < m; j++) { e.enums.back().push_back(strtoull(p, &q, 16)); p = q; }
  }
  while (*p == ' ') p++;
  if (*p == '|') p++;
  e.msg = p;
  return true;
}

struct Kid { pid_t pid; int fd; std::string buf; Entry e; bool ended; };

static void write_result(double t0, bool exhausted, const char *why) {
  const char *out = getenv("SYMX_OUT");
  FILE *f = out ? fopen(out, "w") : stdout;
  if (!f) f = stdout;
  fprintf(f, "{\"paths\":%llu,\"exhausted\":%s,\"stop\":%s,\"queries\":%llu,\"sat\":%llu,"
          "\"unsat\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"stale\":%llu,\"max_events\":%llu,\n",
          (unsigned long long)agg->paths, exhausted ? "true" : "false", jstr(why).c_str(),
          (unsigned long long)agg->queries, (unsigned long long)agg->sat,
          (unsigned long long)agg->unsat, agg->t, now() - t0,
          (unsigned long long)agg->stale, (unsigned long long)agg->maxev);
  auto dump = [&](const char *n, std::map<std::string, u64> &m) {
    fprintf(f, "\"%s\":{", n); bool first = true;
    for (auto &kv : m) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(f, "},\n"); };
  dump("checks", agg->ok); dump("solved", agg->solved); dump("reach", agg->reach);
  dump("incomplete", agg->incompl); dump("ends", agg->hows); dump("fns", agg->fns);
  fprintf(f, "\"unconfirmed\":[");
  for (size_t i = 0; i < agg->unconf.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(agg->unconf[i]).c_str());
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < agg->viol.size(); i++) {
    fprintf(f, "%s{\"msg\":%s,\"inputs\":[", i ? "," : "", jstr(agg->viol[i].msg).c_str());
    for (size_t j = 0; j < agg->viol[i].in.size(); j++)
      fprintf(f, "%s%llu", j ? "," : "", (unsigned long long)agg->viol[i].in[j]);
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  fflush(f);
  if (f != stdout) fclose(f);
}

static void explorer() {
  double t0 = now();
  long maxp = env_num("SYMX_MAX_PATHS", 1000000), secs = env_num("SYMX_TIME", 600);
  int njobs = env_num("SYMX_JOBS", 8), maxviol = env_num("SYMX_MAX_VIOL", 8);
  agg = new Agg;
  work.push_back(Entry());
  if (const char *r = getenv("ND_REPLAY")) {
    work.back().confirm = true;
    FILE *f = fopen(r, "r"); unsigned long long v;
    while (f && fscanf(f, "%llu", &v) == 1) work.back().in.push_back(v);
  }
  std::vector<Kid *> kids;
  bool stop = false; const char *why = "";
  while (true) {
    while (!stop && (int)kids.size() < njobs && !work.empty()) {
      // confirmations first, then depth first
      Entry e = std::move(work.back()); work.pop_back();
      int fd[2];
      if (pipe(fd)) abort();
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        close(fd[0]);
        for (Kid *k : kids) close(k->fd);
        int log = -1; (void)log;
        if (!verbose && !getenv("SYMX_SHOW")) {
          int nul = open("/dev/null", 1); (void)nul;
          if (nul >= 0) { dup2(nul, 1); dup2(nul, 2); close(nul); }
        }
        child_start(e, fd[1]);
        return;
      }
      if (p < 0) { close(fd[0]); close(fd[1]); work.push_back(std::move(e)); usleep(20000); break; }
      close(fd[1]);
      kids.push_back(new Kid{p, fd[0], "", std::move(e), false});
      agg->paths++;
    }
    if (kids.empty()) break;
    std::vector<pollfd> pf;
    for (Kid *k : kids) pf.push_back({k->fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < kids.size(); i++) {
      Kid *k = kids[i];
      if (!(pf[i].revents & (POLLIN | POLLHUP))) continue;
      char b[65536]; ssize_t n = read(k->fd, b, sizeof b);
      if (n > 0) { k->buf.append(b, n); }
      size_t pos;
      size_t off = 0;
      while ((pos = k->buf.find('\n', off)) != std::string::npos) {
        std::string l = k->buf.substr(off, pos - off); off = pos + 1;
        const char *p = l.c_str() + 2;
        switch (l[0]) {
        case 'N': { Entry e; parse_entry(p, e); work.push_back(std::move(e)); break; }
        case 'V': { Entry e; parse_entry(p, e);
          if (k->e.confirm) {
            k->e.msg = k->e.msg.empty() ? e.msg : k->e.msg;
            agg->viol.push_back(k->e); k->e.msg = e.msg; k->e.confirm = false;
            agg->viol.back().confirm = false;
            k->ended = true;
          } else if (agg->vmsg[e.msg] < 2 && (int)agg->viol.size() < maxviol) {
            agg->vmsg[e.msg]++;
            e.confirm = true; e.bound = 0; work.push_back(std::move(e));
          }
          break; }
        case 'C': agg->ok[p]++; break;
        case 'S': agg->solved[p]++; break;
        case 'R': agg->reach[p]++; break;
        case 'B': agg->fns[p]++; break;
        case 'I': agg->incompl[p]++; break;
        case 'E': {
          char how[32]; unsigned long long q, s, u, st, th, ck; double t; unsigned ev;
          if (sscanf(p, "%31s %llu %llu %llu %lf %llu %llu %u %llu", how, &q, &s, &u, &t, &st, &th, &ev, &ck) == 9) {
            agg->queries += q; agg->sat += s; agg->unsat += u; agg->t += t; agg->stale += st;
            agg->hows[how]++; agg->leaves.insert(th);
            if (ev > agg->maxev) agg->maxev = ev;
            if (k->e.confirm) {
              if (k->e.msg.compare(0, 5, "hang:") == 0) agg->incompl["path timed out"]++;
              else agg->unconf.push_back(k->e.msg);
              if (k->e.msg.empty()) { agg->hows["replay-ok"]++; agg->unconf.pop_back(); }
            }
            k->ended = true;
          }
          break; }
        }
      }
      k->buf.erase(0, off);
      if (n <= 0) {
        int st; close(k->fd); waitpid(k->pid, &st, 0);
        if (!k->ended) {
          char m[96];
          snprintf(m, sizeof m, "child died, status %x", st);
          agg->incompl[m]++;
        }
        delete k; kids[i] = nullptr;
      }
    }
    kids.erase(std::remove(kids.begin(), kids.end(), nullptr), kids.end());
    if (!stop) {
      if (now() - t0 > secs) { stop = true; why = "time"; }
      else if ((long)agg->paths >= maxp) { stop = true; why = "paths"; }
      else if ((int)agg->viol.size() >= 1 && !getenv("SYMX_ALL")) {
        // one confirmed counterexample decides the unit
        stop = true; why = "violation";
      }
      if (stop) for (Kid *k : kids) kill(k->pid, SIGKILL);
      if (stop && strcmp(why, "violation") == 0) {
        for (Kid *k : kids) { k->ended = true; }
      } else if (stop) for (Kid *k : kids) k->ended = true;
    }
    static double lastp;
    if (verbose && now() - lastp > 5) {
      lastp = now();
      fprintf(stderr, "[symx] %.0fs paths=%llu queue=%zu queries=%llu solver=%.1fs\n", now() - t0,
              (unsigned long long)agg->paths, work.size(), (unsigned long long)agg->queries, agg->t);
    }
  }
  write_result(t0, !stop && work.empty(), why);
  _exit(0);
}

static void init_once() {
  static bool done;
  if (done) return;
  done = true;
  verbose = getenv("SYMX_VERBOSE") != nullptr;
  query_ms = env_num("SYMX_QUERY_MS", 20000);
  child_secs = env_num("SYMX_CHILD_SECS", 120);
  max_enum = env_num("SYMX_MAX_ENUM", 300);
  max_events = env_num("SYMX_MAX_EVENTS", 20000);
  cons = new std::unordered_map<Key, Expr *, KeyHash>;
  pages = new std::unordered_map<u64, Page *>;
  z3_setup();
  explorer();
}

// ---------------------------------------------------------------------------
// Harness interface

static Expr *arg(void *self, int i) { return symx_tag == self ? symx_args[i] : nullptr; }
#define ARG(f, i) arg((void *)f, i)
#define TAKEN(f) do { if (symx_tag == (void *)f) symx_tag = nullptr; } while (0)

u64 symx_nd(u64 lo, u64 hi) {
  symx_tag = nullptr;
  init_once();
  u32 i = nvars++;
  u64 v = i < cur.in.size() ? cur.in[i] : lo;
  if (v < lo || v > hi) v = lo;
  inval.push_back(v);
  if (active) {
    Expr *e = mk0(VAR, 64, nullptr, nullptr, nullptr, i, v);
    if (lo > 0) assert_pc(mk_cmp(ULE, cst(64, lo), e));
    if (hi < ~0ull) assert_pc(mk_cmp(ULE, e, cst(64, hi)));
    symx_ret[0] = lo == hi ? nullptr : e;
  } else symx_ret[0] = nullptr;
  return v;
}
// signed range
int64_t symx_nds(int64_t lo, int64_t hi) {
  symx_tag = nullptr;
  init_once();
  u32 i = nvars++;
  int64_t v = i < cur.in.size() ? (int64_t)cur.in[i] : lo;
  if (v < lo || v > hi) v = lo;
  inval.push_back(v);
  if (active) {
    Expr *e = mk0(VAR, 64, nullptr, nullptr, nullptr, i, v);
    assert_pc(mk_cmp(SLE, cst(64, lo), e));
    assert_pc(mk_cmp(SLE, e, cst(64, hi)));
    symx_ret[0] = lo == hi ? nullptr : e;
  } else symx_ret[0] = nullptr;
  return v;
}

void symx_assume(u32 c, u32 line) {
  Expr *s = ARG(symx_assume, 0); TAKEN(symx_assume);
  init_once();
  if (s && active) {
    s = mk_not(mk_eq(s, cst(s->w, 0)));
    if (c) { assert_pc(s); return; }
    // find inputs meeting the assumption on the same path so far
    std::vector<u64> m;
    Z3_lbool r = query(s, &m);
    if (r == Z3_L_TRUE) {
      Entry &e = cur;
      if (nevents < e.bound) incomplete("assumption failed in path prefix");
      else emit(m, nevents, {}, thash, "N", "");
    } else if (r == Z3_L_UNDEF) incomplete("solver gave up at assumption");
    end_path("assume");
  }
  if (!c) end_path("assume");
}

void symx_check(u32 c, const char *msg, u32 line) {
  Expr *s = ARG(symx_check, 0); TAKEN(symx_check);
  init_once();
  stat_checks++;
  char m[512];
  snprintf(m, sizeof m, "%s [line %u]", msg, line);
  if (!c) { violation_now(m); }
  if (s && active && !isc(s)) {
    Expr *ok = mk_not(mk_eq(s, cst(s->w, 0)));
    if (!isc(ok) && !pcset.count(ok)) {
      std::vector<u64> md;
      Z3_lbool r = query(mk_not(ok), &md);
      if (r == Z3_L_TRUE) { emit(md, 0, {}, 0, "V", m); }
      else if (r == Z3_L_UNDEF) incomplete(std::string("solver gave up at check: ") + m);
      else rep("S %s\n", m);
      assert_pc(ok);
      return;
    }
  }
  rep("C %s\n", m);
}

void symx_reach(const char *msg) { TAKEN(symx_reach); init_once(); rep("R %s\n", msg); }
void symx_end(void) { init_once(); end_path("end"); }
void symx_fail(const char *msg) { init_once(); violation_now(msg); }
// A path rejected by the code in an orderly way (diagnosed error)
void symx_reject(const char *msg) { init_once(); rep("R rejected: %s\n", msg); end_path("reject"); }
int symx_is_symbolic(u64 v) { Expr *s = ARG(symx_is_symbolic, 0); TAKEN(symx_is_symbolic); return s != nullptr; }
u64 symx_pick(u64 v) { Expr *s = ARG(symx_pick, 0); TAKEN(symx_pick); concretize(s, "pick"); return v; }

// Non-forking boolean connectives for specifications
u32 symx_and(u32 a, u32 b) {
  Expr *x = ARG(symx_and, 0), *y = ARG(symx_and, 1); TAKEN(symx_and);
  u32 r = a && b;
  if ((x || y) && active) {
    Expr *p = mk_not(mk_eq(LIFT(x, 32, a), cst(32, 0))), *q = mk_not(mk_eq(LIFT(y, 32, b), cst(32, 0)));
    symx_ret[0] = ret(mk_zext(mk_bin(AND, p, q), 32));
  } else symx_ret[0] = nullptr;
  return r;
}
u32 symx_or(u32 a, u32 b) {
  Expr *x = ARG(symx_or, 0), *y = ARG(symx_or, 1); TAKEN(symx_or);
  u32 r = a || b;
  if ((x || y) && active) {
    Expr *p = mk_not(mk_eq(LIFT(x, 32, a), cst(32, 0))), *q = mk_not(mk_eq(LIFT(y, 32, b), cst(32, 0)));
    symx_ret[0] = ret(mk_zext(mk_bin(OR, p, q), 32));
  } else symx_ret[0] = nullptr;
  return r;
}
u64 symx_ite(u32 c, u64 t, u64 f) {
  Expr *x = ARG(symx_ite, 0), *y = ARG(symx_ite, 1), *z = ARG(symx_ite, 2); TAKEN(symx_ite);
  symx_ret[0] = nullptr;
  if (active && (x || y || z)) {
    if (!x) symx_ret[0] = c ? y : z;
    else symx_ret[0] = ret(mk_ite(mk_not(mk_eq(x, cst(32, 0))), LIFT(y, 64, t), LIFT(z, 64, f)));
  }
  return c ? t : f;
}

// ---------------------------------------------------------------------------
// libc models

#define CONC(f, n) do { for (int i_ = 0; i_ < n; i_++) { Expr *e_ = ARG(f, i_); \
  if (e_) concretize(e_, #f); } TAKEN(f); symx_ret[0] = nullptr; } while (0)

// The program has a heap of its own at a fixed place, so the addresses it
// sees do not depend on what the solver allocates
static const u64 HEAP = 0x210000000000ull, HEAP_SZ = 64ull << 30;
static u64 heap_top;
struct HBlk { u64 size; HBlk *next; };
static HBlk *hfree[160];
static inline bool in_heap(const void *p) { return (u64)p - HEAP < HEAP_SZ; }
static u64 heap_bump(u64 n, u64 al) {
  if (!heap_top) {
    if (mmap((void *)HEAP, HEAP_SZ, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)HEAP) {
      fprintf(stderr, "cannot reserve heap\n"); abort();
    }
    heap_top = HEAP;
  }
  heap_top = (heap_top + al - 1) & ~(al - 1);
  u64 r = heap_top; heap_top += n;
  if (heap_top > HEAP + HEAP_SZ) { fprintf(stderr, "heap full\n"); abort(); }
  return r;
}
static int hclass(u64 *n) {
  if (*n < 16) *n = 16;
  if (*n <= 1024) { *n = (*n + 15) & ~15ull; return *n / 16; }   // 1..64
  int b = 63 - __builtin_clzll(*n - 1); u64 st = 1ull << (b - 2);
  *n = (*n + st - 1) & ~(st - 1);
  u64 q = (*n - (1ull << b)) / st;                               // 1..4
  return 64 + (b - 10) * 4 + q;
}
static u64 h_usable(void *p) {
  return in_heap(p) ? ((HBlk *)((u64)p - 16))->size : malloc_usable_size(p);
}
static void *h_alloc(u64 n, u64 al = 16) {
  if (n > (1ull << 32)) return nullptr;
  int c = hclass(&n);
  if (al <= 16 && hfree[c]) { HBlk *b = hfree[c]; hfree[c] = b->next; return (u8 *)b + 16; }
  u64 p = heap_bump(n + 16, 16);
  if (al > 16) { u64 q = (p + 16 + al - 1) & ~(al - 1); heap_top += q - (p + 16); p = q - 16; }
  ((HBlk *)p)->size = n;
  return (void *)(p + 16);
}
static void h_free(void *p) {
  if (!p) return;
  if (!in_heap(p)) { free(p); return; }
  HBlk *b = (HBlk *)((u64)p - 16); u64 n = b->size; int c = hclass(&n);
  b->next = hfree[c]; hfree[c] = b;
}
void *symx_libc_malloc(size_t n) { CONC(symx_libc_malloc, 1); return h_alloc(n); }
void *symx_libc_calloc(size_t a, size_t b) { CONC(symx_libc_calloc, 2); void *p = h_alloc(a * b); if (p) { memset(p, 0, a * b); sh_clear((u64)p, a * b); } return p; }
void symx_libc_free(void *p) { CONC(symx_libc_free, 1); if (p && npages) sh_clear((u64)p, h_usable(p)); h_free(p); }
void *symx_libc_realloc(void *p, size_t n) {
  CONC(symx_libc_realloc, 2);
  if (!p) return h_alloc(n);
  size_t o = h_usable(p);
  if (in_heap(p) && n <= o && n >= o / 2) return p;
  void *q = h_alloc(n);
  if (!q) return q;
  copy_shadow((u64)q, (u64)p, std::min(o, n));
  memcpy(q, p, std::min(o, n));
  if (npages) sh_clear((u64)p, o);
  h_free(p);
  return q;
}
int symx_libc_posix_memalign(void **p, size_t a, size_t n) { CONC(symx_libc_posix_memalign, 3); void *q = h_alloc(n, a); sh_clear((u64)p, 8); if (!q) return ENOMEM; *p = q; sh_clear((u64)*p, n); return 0; }
void *symx_libc_aligned_alloc(size_t a, size_t n) { CONC(symx_libc_aligned_alloc, 2); return h_alloc(n, a); }
void *symx_libc_mmap(void *a, size_t l, int p, int fl, int fd, off_t o) { CONC(symx_libc_mmap, 6);
  if (!a) { a = (void *)heap_bump((l + 4095) & ~4095ull, 4096); fl |= MAP_FIXED; }
  void *r = mmap(a, l, p, fl, fd, o); if (r != MAP_FAILED) sh_clear((u64)r, l); return r; }
int symx_libc_munmap(void *a, size_t l) { CONC(symx_libc_munmap, 2); sh_clear((u64)a, l); return munmap(a, l); }

void *symx_libc_memcpy(void *d, const void *s, size_t n) { CONC(symx_libc_memcpy, 3); copy_shadow((u64)d, (u64)s, n); return memcpy(d, s, n); }
void *symx_libc_mempcpy(void *d, const void *s, size_t n) { CONC(symx_libc_mempcpy, 3); copy_shadow((u64)d, (u64)s, n); return mempcpy(d, s, n); }
void *symx_libc_memmove(void *d, const void *s, size_t n) { CONC(symx_libc_memmove, 3); copy_shadow((u64)d, (u64)s, n); return memmove(d, s, n); }
void *symx_libc___memcpy_chk(void *d, const void *s, size_t n, size_t) { CONC(symx_libc___memcpy_chk, 3); copy_shadow((u64)d, (u64)s, n); return memcpy(d, s, n); }
void *symx_libc___memmove_chk(void *d, const void *s, size_t n, size_t) { CONC(symx_libc___memmove_chk, 3); copy_shadow((u64)d, (u64)s, n); return memmove(d, s, n); }
void *symx_libc_memset(void *d, int c, size_t n) {
  Expr *sd = ARG(symx_libc_memset, 0), *sv = ARG(symx_libc_memset, 1), *sn = ARG(symx_libc_memset, 2); TAKEN(symx_libc_memset);
  symx_memset((u8 *)d, n, sd, sv, sn); symx_ret[0] = nullptr;
  return memset(d, c, n);
}
void *symx_libc___memset_chk(void *d, int c, size_t n, size_t) {
  Expr *sd = ARG(symx_libc___memset_chk, 0), *sv = ARG(symx_libc___memset_chk, 1), *sn = ARG(symx_libc___memset_chk, 2); TAKEN(symx_libc___memset_chk);
  symx_memset((u8 *)d, n, sd, sv, sn); symx_ret[0] = nullptr;
  return memset(d, c, n);
}

static int cmp_bytes(const u8 *a, const u8 *b, size_t n, bool str, bool fold) {
  // returns the difference at the first mismatch; result shadow in symx_ret
  auto lo = [&](int c) { return fold && c >= 'A' && c <= 'Z' ? c + 32 : c; };
  auto elo = [&](Expr *e) -> Expr * {
    if (!fold) return e;
    Expr *in = mk_bin(AND, mk_cmp(ULE, cst(8, 'A'), e), mk_cmp(ULE, e, cst(8, 'Z')));
    return mk_ite(in, mk_bin(ADD, e, cst(8, 32)), e); };
  std::vector<std::pair<Expr *, Expr *>> bs;
  bool any = false;
  int res = 0; bool done = false;
  for (size_t i = 0; i < n; i++) {
    Expr *x = npages ? byte_at((u64)a + i) : nullptr, *y = npages ? byte_at((u64)b + i) : nullptr;
    int d = lo(a[i]) - lo(b[i]);
    if (!done && d) { res = d; done = true; }
    if (!done && str && a[i] == 0) done = true;
    if (!any && !x && !y && done) break;
    any |= x || y;
    if (any) {
      while (bs.size() < i) bs.push_back({cst(8, a[bs.size()]), cst(8, b[bs.size()])});
      bs.push_back({x ? x : cst(8, a[i]), y ? y : cst(8, b[i])});
    }
    // beyond a concrete difference or terminator nothing matters
    if (!x && !y && (d || (str && a[i] == 0))) break;
    if (str && ((!x && a[i] == 0) || (!y && b[i] == 0))) break;
  }
  symx_ret[0] = nullptr;
  if (any && active) {
    Expr *r = cst(32, 0);
    for (size_t i = bs.size(); i-- > 0;) {
      Expr *x = elo(bs[i].first), *y = elo(bs[i].second);
      Expr *d = mk_bin(SUB, mk_zext(x, 32), mk_zext(y, 32));
      Expr *same = r;
      if (str) same = mk_ite(mk_eq(x, cst(8, 0)), cst(32, 0), r);
      r = mk_ite(mk_eq(x, y), same, d);
    }
    symx_ret[0] = ret(r);
  }
  return res;
}
#define CMPF(name, args, a, b, n, nn, str, fold) int symx_libc_##name args { \
  CONC(symx_libc_##name, nn); return cmp_bytes((const u8 *)a, (const u8 *)b, n, str, fold); }
CMPF(memcmp, (const void *a, const void *b, size_t n), a, b, n, 3, false, false)
CMPF(bcmp, (const void *a, const void *b, size_t n), a, b, n, 3, false, false)
CMPF(strcmp, (const char *a, const char *b), a, b, ~0ull, 2, true, false)
CMPF(strncmp, (const char *a, const char *b, size_t n), a, b, n, 3, true, false)
CMPF(strcasecmp, (const char *a, const char *b), a, b, ~0ull, 2, true, true)
CMPF(strncasecmp, (const char *a, const char *b, size_t n), a, b, n, 3, true, true)

// Does the byte at p equal c?  Forks when symbolic.
static bool byte_is(const char *p, Expr *sc, u8 c, const char *fn) {
  Expr *b = npages ? byte_at((u64)p) : nullptr;
  bool r = *(u8 *)p == c;
  if (b || sc) branch(mk_eq(b ? b : cst(8, *(u8 *)p), sc ? mk_extract(sc, 0, 8) : cst(8, c)), r, fn, 0);
  return r;
}
size_t symx_libc_strlen(const char *s) { CONC(symx_libc_strlen, 1);
  if (!npages) return strlen(s);
  size_t n = 0; while (!byte_is(s + n, nullptr, 0, "strlen")) n++; return n; }
size_t symx_libc_strnlen(const char *s, size_t m) { CONC(symx_libc_strnlen, 2);
  size_t n = 0; while (n < m && !byte_is(s + n, nullptr, 0, "strnlen")) n++; return n; }
char *symx_libc_strchr(const char *s, int c) {
  Expr *sc = ARG(symx_libc_strchr, 1); Expr *sp = ARG(symx_libc_strchr, 0); TAKEN(symx_libc_strchr);
  concretize(sp, "strchr"); symx_ret[0] = nullptr;
  if (!npages && !sc) return (char *)strchr(s, c);
  for (;; s++) { if (byte_is(s, sc, c, "strchr")) return (char *)s; if (byte_is(s, nullptr, 0, "strchr0")) return nullptr; }
}
char *symx_libc_strchrnul(const char *s, int c) { CONC(symx_libc_strchrnul, 2);
  for (;; s++) { if (byte_is(s, nullptr, c, "strchr")) return (char *)s; if (byte_is(s, nullptr, 0, "strchr0")) return (char *)s; } }
char *symx_libc_strrchr(const char *s, int c) { CONC(symx_libc_strrchr, 2);
  if (!npages) return (char *)strrchr(s, c);
  const char *r = nullptr;
  for (;; s++) { if (byte_is(s, nullptr, c, "strrchr")) r = s; if (byte_is(s, nullptr, 0, "strrchr0")) return (char *)r; } }
void *symx_libc_memchr(const void *p, int c, size_t n) { CONC(symx_libc_memchr, 3);
  const char *s = (const char *)p;
  for (size_t i = 0; i < n; i++) if (byte_is(s + i, nullptr, c, "memchr")) return (void *)(s + i);
  return nullptr; }
void *symx_libc_memrchr(const void *p, int c, size_t n) { CONC(symx_libc_memrchr, 3);
  const char *s = (const char *)p;
  while (n-- > 0) if (byte_is(s + n, nullptr, c, "memrchr")) return (void *)(s + n);
  return nullptr; }
void *symx_libc_rawmemchr(const void *p, int c) { CONC(symx_libc_rawmemchr, 2);
  const char *s = (const char *)p; while (!byte_is(s, nullptr, c, "rawmemchr")) s++; return (void *)s; }
char *symx_libc_strcpy(char *d, const char *s) { CONC(symx_libc_strcpy, 2);
  size_t n = symx_libc_strlen(s) + 1; copy_shadow((u64)d, (u64)s, n); memcpy(d, s, n); return d; }
char *symx_libc_stpcpy(char *d, const char *s) { CONC(symx_libc_stpcpy, 2);
  size_t n = symx_libc_strlen(s) + 1; copy_shadow((u64)d, (u64)s, n); memcpy(d, s, n); return d + n - 1; }
char *symx_libc_strncpy(char *d, const char *s, size_t m) { CONC(symx_libc_strncpy, 3);
  size_t n = symx_libc_strnlen(s, m); copy_shadow((u64)d, (u64)s, n); memcpy(d, s, n);
  sh_clear((u64)d + n, m - n); memset(d + n, 0, m - n); return d; }
char *symx_libc_strcat(char *d, const char *s) { CONC(symx_libc_strcat, 2); symx_libc_strcpy(d + symx_libc_strlen(d), s); return d; }
char *symx_libc_strncat(char *d, const char *s, size_t m) { CONC(symx_libc_strncat, 3);
  char *e = d + symx_libc_strlen(d); size_t n = symx_libc_strnlen(s, m);
  copy_shadow((u64)e, (u64)s, n); memcpy(e, s, n); sh_clear((u64)e + n, 1); e[n] = 0; return d; }
char *symx_libc_strdup(const char *s) { CONC(symx_libc_strdup, 1);
  size_t n = symx_libc_strlen(s) + 1; char *p = (char *)h_alloc(n); copy_shadow((u64)p, (u64)s, n); memcpy(p, s, n); return p; }
char *symx_libc_strndup(const char *s, size_t m) { CONC(symx_libc_strndup, 2);
  size_t n = symx_libc_strnlen(s, m); char *p = (char *)h_alloc(n + 1); copy_shadow((u64)p, (u64)s, n);
  memcpy(p, s, n); p[n] = 0; sh_clear((u64)p + n, 1); return p; }
static void conc_str(const char *s, const char *why) {
  if (!npages || !s) return;
  for (;; s++) { if (Expr *b = byte_at((u64)s)) concretize(b, why); if (!*s) break; } }
char *symx_libc_strstr(const char *a, const char *b) { CONC(symx_libc_strstr, 2); conc_str(a, "strstr"); conc_str(b, "strstr"); return (char *)strstr(a, b); }
char *symx_libc_strpbrk(const char *a, const char *b) { CONC(symx_libc_strpbrk, 2); conc_str(a, "strpbrk"); return (char *)strpbrk(a, b); }
size_t symx_libc_strcspn(const char *a, const char *b) { CONC(symx_libc_strcspn, 2); conc_str(a, "strcspn"); return strcspn(a, b); }
size_t symx_libc_strspn(const char *a, const char *b) { CONC(symx_libc_strspn, 2); conc_str(a, "strspn"); return strspn(a, b); }
char *symx_libc_strtok(char *a, const char *b) { CONC(symx_libc_strtok, 2); conc_str(a, "strtok"); return strtok(a, b); }
static int case_map(int c, Expr *e, bool up) {
  symx_ret[0] = nullptr;
  if (e && active) {
    u8 lo = up ? 'a' : 'A', hi = up ? 'z' : 'Z';
    Expr *in = mk_bin(AND, mk_cmp(SLE, cst(32, lo), e), mk_cmp(SLE, e, cst(32, hi)));
    symx_ret[0] = ret(mk_ite(in, mk_bin(ADD, e, cst(32, up ? (u64)-32 : 32)), e));
  }
  if (up) return c >= 'a' && c <= 'z' ? c - 32 : c;
  return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
int symx_libc_toupper(int c) { Expr *e = ARG(symx_libc_toupper, 0); TAKEN(symx_libc_toupper); return case_map(c, e, true); }
int symx_libc_tolower(int c) { Expr *e = ARG(symx_libc_tolower, 0); TAKEN(symx_libc_tolower); return case_map(c, e, false); }
int symx_libc_isdigit(int c) { Expr *e = ARG(symx_libc_isdigit, 0); TAKEN(symx_libc_isdigit); symx_ret[0] = nullptr;
  if (e && active) symx_ret[0] = ret(mk_zext(mk_bin(AND, mk_cmp(SLE, cst(32, '0'), e), mk_cmp(SLE, e, cst(32, '9'))), 32));
  return c >= '0' && c <= '9'; }
int symx_libc_ffs(int c) { CONC(symx_libc_ffs, 1); return ffs(c); }
#define STRTO(T, name) T symx_libc_##name(const char *s, char **e, int b) { CONC(symx_libc_##name, 3); conc_str(s, "strtol"); \
  T r = (T)strto##T##_(s, e, b); if (e) sh_clear((u64)e, 8); return r; }
typedef long long ll; typedef unsigned long long ull;
#define strtol_(T) 
long symx_libc_strtol(const char *s, char **e, int b) { CONC(symx_libc_strtol, 3); conc_str(s, "strtol"); if (e) sh_clear((u64)e, 8); return strtol(s, e, b); }
unsigned long symx_libc_strtoul(const char *s, char **e, int b) { CONC(symx_libc_strtoul, 3); conc_str(s, "strtol"); if (e) sh_clear((u64)e, 8); return strtoul(s, e, b); }
ll symx_libc_strtoll(const char *s, char **e, int b) { CONC(symx_libc_strtoll, 3); conc_str(s, "strtol"); if (e) sh_clear((u64)e, 8); return strtoll(s, e, b); }
ull symx_libc_strtoull(const char *s, char **e, int b) { CONC(symx_libc_strtoull, 3); conc_str(s, "strtol"); if (e) sh_clear((u64)e, 8); return strtoull(s, e, b); }
long symx_libc___isoc23_strtol(const char *s, char **e, int b) { CONC(symx_libc___isoc23_strtol, 3); conc_str(s, "strtol"); if (e) sh_clear((u64)e, 8); return strtol(s, e, b); }
unsigned long symx_libc___isoc23_strtoul(const char *s, char **e, int b) { CONC(symx_libc___isoc23_strtoul, 3); conc_str(s, "strtol"); if (e) sh_clear((u64)e, 8); return strtoul(s, e, b); }
ll symx_libc___isoc23_strtoll(const char *s, char **e, int b) { CONC(symx_libc___isoc23_strtoll, 3); conc_str(s, "strtol"); if (e) sh_clear((u64)e, 8); return strtoll(s, e, b); }
ull symx_libc___isoc23_strtoull(const char *s, char **e, int b) { CONC(symx_libc___isoc23_strtoull, 3); conc_str(s, "strtol"); if (e) sh_clear((u64)e, 8); return strtoull(s, e, b); }
int symx_libc_atoi(const char *s) { CONC(symx_libc_atoi, 1); conc_str(s, "atoi"); return atoi(s); }
long symx_libc_atol(const char *s) { CONC(symx_libc_atol, 1); conc_str(s, "atoi"); return atol(s); }
void symx_libc___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  char m[512]; snprintf(m, sizeof m, "assertion failed in code: %s (%s)", e, fn);
  if (repfd < 0) { fprintf(stderr, "%s %s:%u\n", m, file, line); abort(); }
  violation_now(m);
}
void symx_libc_abort(void) { if (repfd < 0) abort(); violation_now("abort() called"); }
static void (*exit_hook)(int);
void symx_on_exit(void (*fn)(int)) { exit_hook = fn; }
static void try_exit_hook(int c) {
  if (!exit_hook) return;
  auto f = exit_hook; exit_hook = nullptr;
  symx_tag = nullptr; f(c); end_path("exit");
}
void symx_libc_exit(int c) { CONC(symx_libc_exit, 1); if (repfd < 0) exit(c); try_exit_hook(c); char m[64]; snprintf(m, sizeof m, "exit(%d) called", c); violation_now(m); }
void symx_libc__exit(int c) { CONC(symx_libc__exit, 1); if (repfd < 0) _exit(c); try_exit_hook(c); char m[64]; snprintf(m, sizeof m, "_exit(%d) called", c); violation_now(m); }

// Formatted output: only string arguments can carry symbolic data through
// memory, and those bytes are fixed one value per path.
static void conc_fmt(const char *fmt, va_list ap0) {
  if (!npages || no_pin) return;
  conc_str(fmt, "format string");
  va_list ap; va_copy(ap, ap0);
  for (const char *p = fmt; *p; p++) {
    if (*p != '%') continue;
    p++;
    if (*p == '%') continue;
    int prec = -1; int lng = 0; bool Ld = false;
    for (;; p++) {
      if (*p == '*') (void)va_arg(ap, int);
      else if (*p == '.') { prec = 0; if (p[1] == '*') { prec = va_arg(ap, int); p++; } }
      else if (*p >= '0' && *p <= '9') { if (prec >= 0) prec = prec * 10 + (*p - '0'); }
      else if (*p == 'l' || *p == 'z' || *p == 'j' || *p == 't') lng++;
      else if (*p == 'L') Ld = true;
      else if (*p == 'h' || *p == '-' || *p == '+' || *p == ' ' || *p == '#') {}
      else break;
    }
    switch (*p) {
    case 's': { const char *s = va_arg(ap, const char *);
      if (s) for (int i = 0; prec < 0 || i < prec; i++) {
        if (Expr *b = byte_at((u64)s + i)) concretize(b, "printf %s");
        if (!s[i]) break; }
      break; }
    case 'e': case 'f': case 'g': case 'a': case 'E': case 'G':
      if (Ld) (void)va_arg(ap, long double); else (void)va_arg(ap, double); break;
    case 0: p--; break;
    default: if (lng) (void)va_arg(ap, long); else (void)va_arg(ap, int);
    }
  }
  va_end(ap);
}
int symx_libc_vsnprintf(char *b, size_t n, const char *f, va_list ap) { CONC(symx_libc_vsnprintf, 3); conc_fmt(f, ap); int r = vsnprintf(b, n, f, ap); if (n) sh_clear((u64)b, std::min<size_t>(n, (size_t)std::max(r, 0) + 1)); return r; }
int symx_libc_snprintf(char *b, size_t n, const char *f, ...) { CONC(symx_libc_snprintf, 3); va_list ap; va_start(ap, f); conc_fmt(f, ap); int r = vsnprintf(b, n, f, ap); va_end(ap); if (n) sh_clear((u64)b, std::min<size_t>(n, (size_t)std::max(r, 0) + 1)); return r; }
int symx_libc_vsprintf(char *b, const char *f, va_list ap) { CONC(symx_libc_vsprintf, 2); conc_fmt(f, ap); int r = vsprintf(b, f, ap); sh_clear((u64)b, r + 1); return r; }
int symx_libc_sprintf(char *b, const char *f, ...) { CONC(symx_libc_sprintf, 2); va_list ap; va_start(ap, f); conc_fmt(f, ap); int r = vsprintf(b, f, ap); va_end(ap); sh_clear((u64)b, r + 1); return r; }
int symx_libc_vasprintf(char **b, const char *f, va_list ap) { CONC(symx_libc_vasprintf, 2); conc_fmt(f, ap); int r = vasprintf(b, f, ap); sh_clear((u64)b, 8); return r; }
int symx_libc_asprintf(char **b, const char *f, ...) { CONC(symx_libc_asprintf, 2); va_list ap; va_start(ap, f); conc_fmt(f, ap); int r = vasprintf(b, f, ap); va_end(ap); sh_clear((u64)b, 8); return r; }
int symx_libc_vfprintf(FILE *b, const char *f, va_list ap) { CONC(symx_libc_vfprintf, 2); conc_fmt(f, ap); return vfprintf(b, f, ap); }
int symx_libc_fprintf(FILE *b, const char *f, ...) { CONC(symx_libc_fprintf, 2); va_list ap; va_start(ap, f); conc_fmt(f, ap); int r = vfprintf(b, f, ap); va_end(ap); return r; }

// File contents keep their shadows, keyed by (device, inode, offset)
struct FKey { u64 ino, off; bool operator<(const FKey &o) const { return ino < o.ino || (ino == o.ino && off < o.off); } };
#include <sys/stat.h>
static std::map<FKey, std::pair<Expr *, u8>> fshadow;
static u64 fino(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISREG(st.st_mode) ? st.st_ino : 0; }
static void fsh_write(u64 ino, u64 off, u64 a, u64 n) {
  if (!ino) { for (u64 i = 0; i < n; i++) if (Expr *b = byte_at(a + i)) concretize(b, "write"); return; }
  for (u64 i = 0; i < n; i++) { u8 ix; Expr *e = npages ? sh_get(a + i, &ix) : nullptr;
    if (e) fshadow[{ino, off + i}] = {e, ix}; else if (!fshadow.empty()) fshadow.erase({ino, off + i}); }
}
static void fsh_read(u64 ino, u64 off, u64 a, u64 n) {
  sh_clear(a, n);
  if (fshadow.empty() || !ino) return;
  for (u64 i = 0; i < n; i++) { auto it = fshadow.find({ino, off + i}); if (it != fshadow.end()) sh_set(a + i, it->second.first, it->second.second); }
}
ssize_t symx_libc_read(int fd, void *b, size_t n) { CONC(symx_libc_read, 3); off_t o = lseek(fd, 0, SEEK_CUR); ssize_t r = read(fd, b, n); if (r > 0) fsh_read(fino(fd), o, (u64)b, r); return r; }
ssize_t symx_libc_write(int fd, const void *b, size_t n) { CONC(symx_libc_write, 3); off_t o = lseek(fd, 0, SEEK_CUR); if (npages) fsh_write(fino(fd), o, (u64)b, n); return write(fd, b, n); }
size_t symx_libc_fread(void *b, size_t s, size_t n, FILE *f) { CONC(symx_libc_fread, 4); long o = ftell(f); size_t r = fread(b, s, n, f); fsh_read(fino(fileno(f)), o, (u64)b, r * s); return r; }
size_t symx_libc_fwrite(const void *b, size_t s, size_t n, FILE *f) { CONC(symx_libc_fwrite, 4); if (npages) { long o = ftell(f); fsh_write(o < 0 ? 0 : fino(fileno(f)), o, (u64)b, s * n); } return fwrite(b, s, n, f); }
char *symx_libc_fgets(char *b, int n, FILE *f) { CONC(symx_libc_fgets, 3); long o = ftell(f); char *r = fgets(b, n, f); if (r) fsh_read(o < 0 ? 0 : fino(fileno(f)), o, (u64)b, strlen(b) + 1); return r; }
int symx_libc_fgetc(FILE *f) { CONC(symx_libc_fgetc, 1); long o = fshadow.empty() ? 0 : ftell(f); int r = fgetc(f);
  if (r != EOF && !fshadow.empty()) { auto it = fshadow.find({fino(fileno(f)), (u64)o}); if (it != fshadow.end()) symx_ret[0] = ret(mk_zext(mk_extract(it->second.first, it->second.second * 8, 8), 32)); }
  return r; }
int symx_libc_getc(FILE *f) { int r = symx_libc_fgetc(f); return r; }
int symx_libc_fputc(int c, FILE *f) { Expr *e = ARG(symx_libc_fputc, 0); TAKEN(symx_libc_fputc); symx_ret[0] = nullptr;
  if (e) { long o = ftell(f); u64 ino = o < 0 ? 0 : fino(fileno(f)); Expr *b = mk_extract(e, 0, 8); if (!ino) concretize(b, "fputc"); else if (!isc(b)) fshadow[{ino, (u64)o}] = {b, 0}; }
  return fputc(c, f); }
int symx_libc_putc(int c, FILE *f) { Expr *e = ARG(symx_libc_putc, 0); TAKEN(symx_libc_putc); symx_ret[0] = nullptr;
  if (e) { long o = ftell(f); u64 ino = o < 0 ? 0 : fino(fileno(f)); Expr *b = mk_extract(e, 0, 8); if (!ino) concretize(b, "fputc"); else if (!isc(b)) fshadow[{ino, (u64)o}] = {b, 0}; }
  return fputc(c, f); }
int symx_libc_fputs(const char *s, FILE *f) { CONC(symx_libc_fputs, 2); if (npages) { size_t n = symx_libc_strlen(s); long o = ftell(f); fsh_write(o < 0 ? 0 : fino(fileno(f)), o, (u64)s, n); } return fputs(s, f); }

// qsort/bsearch with instrumented comparison callbacks: insertion sort
typedef int (*cmp_t)(const void *, const void *);
static int call_cmp(cmp_t f, const void *a, const void *b) {
  symx_tag = nullptr; symx_ret[0] = nullptr;
  int r = f(a, b);
  Expr *e = symx_ret[0];
  if (e && active) { branch(mk_cmp(SLT, e, cst(32, 0)), r < 0, "qsort", 1); branch(mk_eq(e, cst(32, 0)), r == 0, "qsort", 2); }
  return r;
}
void symx_libc_qsort(void *base, size_t n, size_t sz, cmp_t f) {
  CONC(symx_libc_qsort, 4);
  char *b = (char *)base; u8 *tmp = (u8 *)malloc(sz * 2);
  if (!npages) { free(tmp); qsort(base, n, sz, f); return; }
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && call_cmp(f, b + (j - 1) * sz, b + j * sz) > 0; j--) {
      u64 x = (u64)b + (j - 1) * sz, y = (u64)b + j * sz;
      copy_shadow((u64)tmp, x, sz); memcpy(tmp, (void *)x, sz);
      copy_shadow(x, y, sz); memcpy((void *)x, (void *)y, sz);
      copy_shadow(y, (u64)tmp, sz); memcpy((void *)y, tmp, sz);
    }
  sh_clear((u64)tmp, sz);
  free(tmp);
}
void *symx_libc_bsearch(const void *k, const void *base, size_t n, size_t sz, cmp_t f) {
  CONC(symx_libc_bsearch, 5);
  size_t lo = 0, hi = n;
  while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)base + m * sz;
    int r = call_cmp(f, k, p);
    if (r == 0) { symx_ret[0] = nullptr; return (void *)p; }
    if (r < 0) hi = m; else lo = m + 1; }
  symx_ret[0] = nullptr;
  return nullptr;
}
static u64 dbits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
#define M1(n) double symx_libc_##n(double a) { Expr *x = ARG(symx_libc_##n, 0); TAKEN(symx_libc_##n); double r = n(a); \
  symx_ret[0] = symx_fintr(#n, 64, x, dbits(a), nullptr, 0, dbits(r)); return r; }
#define M2(n) double symx_libc_##n(double a, double b) { Expr *x = ARG(symx_libc_##n, 0), *y = ARG(symx_libc_##n, 1); TAKEN(symx_libc_##n); double r = n(a, b); \
  symx_ret[0] = symx_fintr(#n, 64, x, dbits(a), y, dbits(b), dbits(r)); return r; }
M1(sin) M1(cos) M1(exp) M1(exp2) M1(log) M1(sqrt) M2(pow) M2(fmod)

void harness(void);
int main(int argc, char **argv) {
  (void)argc; (void)argv;
  symx_tag = nullptr;
  harness();
  symx_end();
  return 0;
}

} // extern "C"
