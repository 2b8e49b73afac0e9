# Which harnesses decide which property.  See vlib/run.py for Unit.
import gen
UNITS = {}
def add(prop, *units):
    UNITS.setdefault(prop, []).extend(units)

W = dict(c=("vhdl.c", "wave_orc.c"), vhdl=("vhdl/p_wave.vhd",), reach=("end",))
add("P01",
    Unit("wave1", top="wave1", telab="-gMAXT=9", **W),
    Unit("wave_el", top="wave_el", elab="-gMAXT=2", telab="-gMAXT=3", **W),
    Unit("wave_vec", top="wave_vec", **W),
    Unit("wave_split", top="wave_vec", elab="-gSPLIT=true -gK=1", telab="-gSPLIT=true", **W),
    Unit("wave_wide", top="wave_wide", telab="-gK=2", **W),
    Unit("wave_16", top="wave_wide", elab="-gN=4", telab="-gN=4 -gK=2", **W),
    Unit("wave_null", top="wave_null", **W),
)

A = dict(c=("vhdl.c", "attr_orc.c"), vhdl=("vhdl/p_attr.vhd",), reach=("end",))
add("P02",
    Unit("attr1", top="attr1", **A),
    Unit("attr2", top="attr2", telab="-gLESS=0", **A),
    Unit("attr3", top="attr3", **A),
    Unit("attr4", top="attr4", telab="-gK=3", **A),
)

R = dict(c=("vhdl.c", "arith_orc.c"), vhdl=("vhdl/p_arith.vhd",), reach=("end", "error"))
add("P08",
    Unit("arith32", top="arith32", **R),
    Unit("arith64", top="arith64", **R),
    Unit("arith_sub", top="arith_sub", **R),
    Unit("arith_phys", top="arith_phys", **R),
    Unit("arith_const", top="arith_const", gen=gen.arith_const,
         **dict(R, vhdl=R["vhdl"] + ("@arith_const.vhd",))),
    Unit("arith_rng", top="arith_rng", gen=gen.arith_rng,
         **dict(R, vhdl=R["vhdl"] + ("@arith_rng.vhd",))),
    Unit("real", top="real_const", gen=gen.real_const,
         **dict(R, vhdl=R["vhdl"] + ("@real_const.vhd",), reach=("end",))),
)

T = dict(c=("vhdl.c", "attr_orc.c"), vhdl=("vhdl/p_attr.vhd", "vhdl/p_wait.vhd"), reach=("end",))
add("P03",
    Unit("wait1", top="wait1", elab="-gGAP=2", telab="-gSECOND=3 -gLESS=0", **dict(T, reach=("end", "never"))),
    Unit("wait2", top="wait2", **T),
    Unit("wait4", top="wait4", telab="-gMAXT=5", **dict(T, reach=("end", "third"))),
    Unit("wait3", top="wait3", telab="-gN=4", **T),
    Unit("wait_all_fn", top="wait4", **T),
)

C = dict(c=("vhdl.c", "cycle_orc.c"), vhdl=("vhdl/p_cycle.vhd",), reach=("end",))
add("P06",
    Unit("cycle1", top="cycle1", telab="-gW=2", **C),
    Unit("cycle2", top="cycle2", run="--stop-delta=10", **dict(C, reach=("end", "error"))),
    Unit("cycle3", top="cycle3", elab="-gLAST=0", **C),
    Unit("cycle3b", top="cycle3", elab="-gFIRST=1 -gLAST=1", **C),
    Unit("cycle3c", top="cycle3", elab="-gFIRST=2 -gLAST=2", **C),
    Unit("cycle3d", top="cycle3", elab="-gFIRST=3 -gLAST=3", **C),
    Unit("stop1", top="stop1", run="--stop-time=5fs", **dict(C, reach=("final",))),
)

S = dict(c=("vhdl.c", "res_orc.c"), vhdl=("vhdl/p_res.vhd",), reach=("end",))
add("P04",
    Unit("res1", top="res1", telab="-gLOW3=0 -gHIGH3=8", **S),
    Unit("res2", top="res2", telab="-gLOW1=0 -gHIGH1=8", **S),
    Unit("res3", top="res3", telab="-gK=2", **S),
    Unit("res4", top="res4", **S),
    Unit("res5", top="res5", **S),
    Unit("res6", top="res6", **S),
    Unit("res7", top="res7", **S),
)

S = dict(c=("vhdl.c", "res_orc.c"), vhdl=("vhdl/p_res.vhd", "vhdl/p_force.vhd"), reach=("end",))
add("P05",
    Unit("force1", top="force1", telab="-gK=3", **S),
    Unit("force2", top="force2", telab="-gK=2", **S),
    Unit("force3", top="force3", **S),
    Unit("force4", top="force4", **S),
)

S = dict(c=("vhdl.c", "res_orc.c"), vhdl=("vhdl/p_res.vhd", "vhdl/p_port.vhd"), reach=("end", "leaf"))
add("P07",
    Unit("port1", top="port1", telab="-gK=2", **S),
    Unit("port2", top="port2", **dict(S, reach=("end",))),
    Unit("port3", top="port3", **S),
    Unit("port4", top="port4", **S),
    Unit("port5", top="port5", **dict(S, reach=("end", "leaf"))),
)

S = dict(c=("vhdl.c",), vhdl=("vhdl/p_ctl.vhd",), reach=("end",))
add("P10",
    *[Unit(f"ctl1_{i}", top="ctl1", elab=f"-gSECT={i}", **S) for i in range(1, 11)],
    *[Unit(f"ctl2_{i}", top="ctl2", elab=f"-gSECT={i}", **S) for i in range(1, 8)],
    Unit("ctl2_8", top="ctl2", elab="-gSECT=8", env={"NVC_VECTOR_INTRINSICS": "0"}, **S),
    Unit("ctl2_9", top="ctl2", elab="-gSECT=9", **S),
    Unit("ctl3", top="ctl3", **dict(S, reach=("end", "watch"))),
)

S = dict(c=("vhdl.c",), vhdl=("vhdl/p_bounds.vhd",), reach=("end", "error"))
add("P09",
    Unit("bounds1", top="bounds1", **S),
    Unit("bounds2", top="bounds2", **S),
    Unit("bounds3", top="bounds3", **S),
    Unit("bounds_rec", top="bounds5", **dict(S, reach=("end",))),
    Unit("bounds_wave", top="bounds6", **dict(S, reach=("end",))),
    Unit("bounds_sub", top="bounds7", **dict(S, reach=("end",))),
    Unit("bounds_seq", top="bounds8", **S),
    Unit("bounds_copyback", top="bounds4", **dict(S, reach=("end",))),
)

S = dict(c=("vhdl.c",), vhdl=("vhdl/p_arr.vhd",), reach=("end",))
add("P11",
    *[Unit(f"arr1_{i}", top="arr1", elab=f"-gSECT={i}", **S) for i in range(1, 7)],
    *[Unit(f"arr2_{i}", top="arr2", elab=f"-gSECT={i}", **S) for i in range(1, 9)],
    *[Unit(f"arr3_{i}", top="arr3", elab=f"-gSECT={i}", **S) for i in range(1, 9)],
    Unit("arr_alias", top="arr3", elab="-gSECT=10", **S),
    Unit("arr_null", top="arr1", elab="-gSECT=10", **S),
)

S = dict(c=("vhdl.c", "num_orc.c"), vhdl=("vhdl/p_num.vhd",), reach=("end",), run="--ieee-warnings=off")
add("P12",
    *[Unit(f"num1_{i}", top="num1", elab=f"-gSECT={i}", **S) for i in range(1, 12)],
    *[Unit(f"num2_{i}", top="num2", elab=f"-gSECT={i}", **S) for i in range(1, 8)],
    *[Unit(f"num{k}_{i}", top=f"num{k}", elab=f"-gSECT={i}", **S) for k in (3, 4) for i in (0, 1)],
)

S = dict(c=("vhdl.c", "assert_orc.c"), vhdl=("vhdl/p_assert.vhd",), reach=("final",), exit=None)
add("P13",
    *[Unit(f"assert_{i}", top="assert1", elab=f"-gLEVEL={i}", run="" if i == 3 else f"--exit-severity={n}", **S)
      for i, n in enumerate(("note", "warning", "error", "failure"))],
    Unit("assert_env", top="assert1", elab="-gMODE=1", **S),
    Unit("assert_conc", top="assert1", elab="-gMODE=2 -gLEVEL=3", **S),
    Unit("assert_fin", top="assert1", elab="-gMODE=3", **S),
    Unit("assert_prep", top="assert2", **S),
)

S = dict(c=("vhdl.c", "psl_orc.c"), vhdl=("vhdl/p_psl.vhd",), reach=("final",), exit=None)
add("P14",
    *[Unit(f"psl{i}", top="psl1", elab=f"-gSECT={i}",
           **(dict(S, reach=()) if i in (18, 19, 45, 59) or 20 <= i <= 30 or i in (38, 40) or 46 <= i <= 50 or i in (60, 61) else S))
      for i in range(1, 69) if i not in (28, 33, 36, 55)],
)
