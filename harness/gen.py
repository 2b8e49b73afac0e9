"""Generators of VHDL test benches (called by run.py before each unit)."""
import os

def w(tmp, name, text):
    with open(os.path.join(tmp, name), "w") as f:
        f.write(text)

OPS = {"+": 0, "-": 1, "*": 2, "/": 3, "mod": 4, "rem": 5}

def bench(name, decls, pre, arms, uses="", pkg="", group=12):
    """process: PRE, then exactly one of ARMS, chosen symbolically.  A few
    arms make a procedure, as only what is called is compiled on each path"""
    procs = calls = ""
    for k in range(0, len(arms), group):
        body = "".join(f"            when {i} =>\n{a}"
                       for i, a in enumerate(arms) if k <= i < k + group)
        procs += f"""    procedure group{k // group}(arm : integer) is
{decls}
    begin
{pre}
        case arm is
{body}
            when others => null;
        end case;
    end procedure;
"""
        calls += f"            when {k // group} => group{k // group}(arm);\n"
    return f"""{pkg}
use work.sx.all;
{uses}
entity {name} is generic (LO : integer := 0; HI : integer := {len(arms) - 1}); end entity;
architecture a of {name} is
{procs}
begin
    process is
        variable arm : integer;
    begin
        arm := pick(nd_int(LO, HI));
        case arm / {group} is
{calls}
            when others => null;
        end case;
        reach("end");
        done;
    end process;
end architecture;
"""

def arith_const(tmp, tier, repo):
    """One operand is the other operand or a constant known when compiling"""
    lo, hi = -2**31, 2**31 - 1
    cs = ["integer'low", -3, -2, -1, 0, 1, 2, 3, 8, 10, "integer'high"]
    val = {"integer'low": lo, "integer'high": hi}
    arms = []
    for op, n in OPS.items():
        lim = "" if op in "+-" else "assume(conj(a >= -40000, a <= 50000));\n"
        arms.append(f"orc_op({n}, a, a); r := a {op} a; orc_done(r);\n"
                    if op != "*" else
                    f"{lim}orc_op({n}, a, a); r := a {op} a; orc_done(r);\n")
        for c in cs:
            e = c if isinstance(c, str) or c >= 0 else f"({c})"
            arms.append(f"orc_op({n}, a, {e}); r := a {op} {e}; orc_done(r);\n")
            small = ""
            if n >= 3 and val.get(c, c) not in (0,):
                small = "assume(conj(a >= -20, a <= 20));\n"
            arms.append(f"{small}orc_op({n}, {e}, a); r := {e} {op} a; orc_done(r);\n")
            # the constant reaches the operator through a local variable
            if n < 3:
                arms.append(f"v := {e}; orc_op({n}, a, {e}); r := v {op} a; r := a {op} v; orc_done(r);\n"
                            if n != 1 else
                            f"v := {e}; orc_op({n}, a, {e}); r := a {op} v; orc_done(r);\n")
    for e in ("integer'low", "-1", "integer'high"):
        arms.append(f"orc_op(6, {e}, 0); v := {e}; r := abs v; orc_done(r);\n")
        arms.append(f"orc_op(7, {e}, 0); v := {e}; r := -v; orc_done(r);\n")
    for e in (0, 1, 2, 3):
        arms.append(f"assume(conj(a >= -2000, a <= 2000)); orc_op(8, a, {e}); r := a ** {e}; orc_done(r);\n")
    for e in (-2, -1, 0, 1, 2, 3, 4, 10):
        arms.append(f"a := pick(nd_int(-1, 40)); orc_op(8, {e}, a); r := ({e}) ** a; orc_done(r);\n")
    w(tmp, "arith_const.vhd", bench(
        "arith_const", "        variable a, r, v : integer;\n",
        "        a := nd_int(integer'low, integer'high);\n"
        "        orc_range(integer'low, integer'high);\n",
        arms, "use work.arith_orc.all;"))

def arith_rng(tmp, tier, repo):
    """Operands and results of small subtypes, where the compiler knows the
    range of every operand and leaves out checks it finds redundant"""
    ranges = [(-1, 10), (0, 7), (-3, 4), (-5, -2), (1, 3), (-5, 2), (2, 2),
              (-4, 0)]
    def ev(op, a, b):
        if op in (3, 4, 5) and b == 0: return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if op in (3, 4, 5) else 0
        return [lambda: a + b, lambda: a - b, lambda: a * b, lambda: q,
                lambda: a % b, lambda: a - q * b, lambda: abs(a), lambda: -a,
                lambda: a ** b if b >= 0 else None,
                lambda: min(a, b), lambda: max(a, b)][op]()
    def expr(op, x, y):
        if op == 6: return f"abs ({x})"
        if op == 7: return f"-({x})"
        if op == 9: return f"minimum({x}, {y})"
        if op == 10: return f"maximum({x}, {y})"
        return f"({x}) {['+', '-', '*', '/', 'mod', 'rem', 0, 0, '**'][op]} ({y})"
    def second(op, y):
        # nonlinear operations: the ends of the range and around zero
        if op < 2 or op > 5 or tier == "thorough": return f"nd_int({y[0]}, {y[1]})"
        vs = sorted({y[0], y[1], *[v for v in (-1, 0, 1) if y[0] <= v <= y[1]]})
        if len(vs) == 1: return str(vs[0])
        return f"one_of(({', '.join(map(str, vs))}))"
    fns, arms, n = [], [], 0
    def case(x, y, op, then):
        nonlocal n
        # all results, and the range of the target around them
        vals = []
        for a in range(x[0], x[1] + 1):
            for b in range(y[0], y[1] + 1):
                v = ev(op, a, b)
                if v is not None and then: v = ev(then[0], v, then[1])
                if v is not None: vals.append(v)
        if not vals: return
        lo, hi = min(vals), max(vals)
        for dl, dh in [(1, 0), (0, -1)] if tier != "thorough" else [(0, 0), (1, -1), (5, 0), (0, -5)]:
            l, h = lo + dl, hi + dh
            if l > h: l = h = lo
            e = expr(op, "x", "y")
            if then: e = expr(then[0], e, str(then[1]))
            arms.append(
                f"a := nd_int({x[0]}, {x[1]}); b := {second(op, y)};\n"
                f"orc_range({l}, {h}); orc_op({op}, a, b);\n"
                + (f"orc_then({then[0]}, {then[1]});\n" if then else "") +
                f"orc_done(f{len(fns)}(a, b));\n")
            fns.append(
                f"function f{len(fns)}(x, y : integer) return integer is\n"
                f"  function g(x : r{x[0] % 100}_{x[1] % 100}; y : r{y[0] % 100}_{y[1] % 100}) return integer is\n"
                f"    subtype t is integer range {l} to {h};\n    variable r : t;\n"
                f"  begin r := {e}; return r; end function;\n"
                f"begin return g(x, y); end function;\n")
        n += 1
    for op in range(0, 6):
        for x in ranges:
            for y in ranges: case(x, y, op, None)
    for op in (9, 10):
        for x, y in zip(ranges, ranges[3:] + ranges[:3]): case(x, y, op, None)
    for y in ((0, 3), (2, 2)):
        for x in ranges: case(x, y, 8, None)
    for op in (6, 7):
        for x in ranges: case(x, (0, 0), op, None)
    for i, th in enumerate([(6, 0), (7, 0), (4, 3), (4, -3), (5, 4), (3, 2), (3, -2), (2, -2), (0, 5), (1, 5)]):
        for j, op in enumerate((0, 1, 2, 4, 5)):
            case(ranges[(i + j) % 8], ranges[(i * 3 + j * 5 + 1) % 8], op, th)
    subs = "".join(f"    subtype r{x[0] % 100}_{x[1] % 100} is integer range {x[0]} to {x[1]};\n"
                   for x in ranges + [(0, 3), (0, 0)])
    text = bench("arith_rng", "    variable a, b : integer;\n",
                 "", arms, "use work.arith_orc.all;\nuse work.rng_pkg.all;", group=20)
    pkg = ("use work.sx.all;\npackage rng_pkg is\n" + subs
           + "    type int_vec is array (natural range <>) of integer;\n"
             "    impure function one_of(v : int_vec) return integer;\n"
           + "".join(f"    function f{i}(x, y : integer) return integer;\n" for i in range(len(fns)))
           + "end package;\npackage body rng_pkg is\n"
           "    impure function one_of(v : int_vec) return integer is\n"
           "    begin return v(v'left + pick(nd_int(0, v'length - 1))); end function;\n" + "\n".join(fns) + "end package body;\n")
    text = pkg + text
    w(tmp, "arith_rng.vhd", text)

def real_const(tmp, tier, repo):
    cs = ["0.0", "-0.0", "1.0", "-1.0", "2.0", "0.5", "3.25", "1.0e300"]
    arms = []
    for n, op in enumerate("+-*/"):
        arms.append(f"orc_real({n}, x, x); r := x {op} x; orc_rdone(r);\n")
        arms.append(f"orc_real({n}, x, y); r := x {op} y; orc_rdone(r);\n")
        for c in cs:
            e = f"({c})"
            if c == "-0.0":
                e = "v"
                arms.append(f"v := 0.0; v := -v; orc_real({n}, x, v); r := x {op} v; orc_rdone(r);\n")
                arms.append(f"v := 0.0; v := -v; orc_real({n}, v, x); r := v {op} x; orc_rdone(r);\n")
                continue
            if not (op == "/" and c == "0.0"):
                arms.append(f"orc_real({n}, x, {e}); r := x {op} {e}; orc_rdone(r);\n")
            arms.append(f"orc_real({n}, {e}, x); r := {e} {op} x; orc_rdone(r);\n")
            arms.append(f"v := {e}; orc_real({n}, v, x); r := v {op} x; orc_rdone(r);\n")
    arms.append("orc_real(4, x, x); r := -x; orc_rdone(r);\n")
    arms.append("orc_real(5, x, x); r := abs x; orc_rdone(r);\n")
    for e in ("x", "y", "0.0", "1.0"):
        arms.append(f"orc_rrel(x, {e}, x < {e}, x <= {e}, x = {e}, x /= {e}, x >= {e}, x > {e});\n")
    w(tmp, "real_const.vhd", bench(
        "real_const", "        variable x, y, r, v : real;\n",
        "        x := nd_real; y := nd_real;\n", arms, "use work.arith_orc.all;"))
