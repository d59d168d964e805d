#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decides one property of /repo's working tree."""
import concurrent.futures as cf
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Check, Config, Infra, Job
import gen_vec, gen_mat, gen_pack, gen_sparse, gen_solve, gen_conc

IB = ("internal", "blas")
VEC_ALL = [("double", IB), ("float", IB), ("cdouble", IB), ("ldouble", ("internal",)), ("int", IB)]
VEC_REAL = [("double", IB), ("float", IB), ("ldouble", ("internal",)), ("int", IB)]


def more(ck, elems):
    """thorough: further element types"""
    return elems + ([("cfloat", ("internal", "blas") if any("blas" in b for _, b in elems) else ("internal",)), ("cldouble", ("internal",))] if ck.thorough else [])


def thr(ck): return (1, 2, 3, 4, 8) if ck.thorough else (1, 4)


def V01(ck):
    ck.traces_of(gen_vec.jobs(ck, "elementwise", more(ck, VEC_ALL) + [("uint", ("internal",))] * ck.thorough, 120, 30, thr(ck)) +
                 gen_vec.jobs(ck, "elementwise", [("double", ("accel",))] + [("cfloat", ("accel",))] * ck.thorough, 30, 30, (2,)))
    gen_vec.replay(ck, "MC_Vec_V01_deep.cfg" if ck.thorough else "MC_Vec_V01.cfg", 2, [Config("vec", "double", "internal"), Config("vec", "float", "blas")])


def V02(ck):
    ck.traces_of(gen_vec.jobs(ck, "reduction", VEC_REAL + [("cdouble", IB)], 160, 30, thr(ck)))
    gen_vec.replay(ck, "MC_Vec_V02.cfg", 3, [Config("vec", "double", "internal"), Config("vec", "float", "blas")])
    gen_vec.replay(ck, "MC_Vec_V02b.cfg", 2, [Config("vec", "double", "internal"), Config("vec", "double", "blas")])


def V03(ck):
    ck.traces_of(gen_vec.jobs(ck, "mismatch", more(ck, VEC_ALL), 160, 40, (1, 4)) + gen_mat.jobs(ck, "bad", [("double", ("internal",))], 40, 30, (1,)))
    gen_vec.replay(ck, "MC_Vec_V03.cfg", 2, [Config("vec", "double", "internal"), Config("vec", "double", "blas")])


def V04(ck):
    ck.traces_of(gen_vec.jobs(ck, "value", more(ck, VEC_ALL), 160, 40, (1, 4)))
    gen_vec.replay(ck, "MC_Vec_V04_deep.cfg" if ck.thorough else "MC_Vec_V04.cfg", 2, [Config("vec", "double", "internal"), Config("vec", "float", "internal")])


MAT = [("double", IB), ("float", IB), ("cdouble", IB), ("ldouble", ("internal",))]


def mat(*c): return [Config("mat", e, b) for e, b in (x.split("-") for x in c)]


def M01(ck):
    ck.traces_of(gen_mat.jobs(ck, "values", more(ck, [("double", ("internal",)), ("float", ("blas",)), ("cdouble", ("internal",)), ("ldouble", ("internal",))]), 160, 50, (1,)))
    gen_mat.replay(ck, "MC_Mat_M01.cfg", "2 3 4 8 0", mat("double-internal", "float-blas"))


def M02(ck):
    ck.traces_of(gen_mat.jobs(ck, "arithmetic", more(ck, MAT), 200, 40, thr(ck)))
    gen_mat.replay(ck, "MC_Mat_M02_deep.cfg" if ck.thorough else "MC_Mat_M02.cfg", "2 2 3 8 0", mat("double-internal", "double-blas", "float-blas"))


def M03(ck):
    ck.traces_of(gen_mat.jobs(ck, "gemm", more(ck, MAT), 160, 20, thr(ck)))
    gen_mat.replay(ck, "MC_Mat_M03_deep.cfg" if ck.thorough else "MC_Mat_M03.cfg", "2 2 3 8 0", mat("double-internal", "double-blas", "float-internal"))
    gen_mat.replay(ck, "MC_Mat_M03b.cfg", "3 2 2 8 0", mat("double-internal", "double-blas", "float-blas"))


def M04(ck):
    ck.traces_of(gen_mat.jobs(ck, "gemv", more(ck, MAT), 160, 25, thr(ck)))
    gen_mat.replay(ck, "MC_Mat_M04.cfg", "2 2 3 8 0", mat("double-internal", "double-blas", "float-blas"))


def M05(ck):
    ck.traces_of(gen_mat.jobs(ck, "inverse", more(ck, MAT), 160, 25, (1,)))
    gen_mat.replay(ck, "MC_Mat_M05.cfg", "2 3 4 8 -2", mat("double-internal", "float-blas"))


PACK = [("double", ("internal",)), ("float", ("internal",)), ("cdouble", ("internal",)), ("ldouble", ("internal",))]


def pack(*c): return [Config("pack", e, "internal") for e in c]


def B01(ck):
    ck.traces_of(gen_pack.jobs(ck, "tri", more(ck, PACK), 160, 50))
    gen_pack.replay(ck, "MC_Pack_B01.cfg", pack("double", "float"))


def B02(ck):
    ck.traces_of(gen_pack.jobs(ck, "hess", more(ck, PACK), 160, 50))
    gen_pack.replay(ck, "MC_Pack_B02.cfg", pack("double", "float"))


def B03(ck):
    ck.traces_of(gen_pack.jobs(ck, "upper", more(ck, PACK), 160, 50))
    gen_pack.replay(ck, "MC_Pack_B03.cfg", pack("double", "float"))


def B04(ck):
    ck.traces_of(gen_pack.jobs(ck, "lower", more(ck, PACK), 160, 50))
    gen_pack.replay(ck, "MC_Pack_B04.cfg", pack("double", "float"))


SP = [("double", ("internal", "blas")), ("float", ("internal",)), ("cdouble", ("internal",)), ("ldouble", ("internal",))]


def sparse(*c): return [Config("sparse", e, b) for e, b in (x.split("-") for x in c)]


def S01(ck):
    ck.traces_of(gen_sparse.jobs(ck, "coo", more(ck, SP), 150, 40))
    for c in ["S01", "S01b"] + (["S01_deep"] if ck.thorough else []): gen_sparse.replay(ck, f"MC_Sparse_{c}.cfg", sparse("double-internal", "float-internal"))


def S02(ck):
    ck.traces_of(gen_sparse.jobs(ck, "sum", more(ck, SP), 150, 25))
    for c in ["S02"] + (["S02_deep"] if ck.thorough else []): gen_sparse.replay(ck, f"MC_Sparse_{c}.cfg", sparse("double-internal"))


def S03(ck):
    ck.traces_of(gen_sparse.jobs(ck, "csr", more(ck, SP), 150, 40))
    for c in ["S03", "S03b", "S03_deep"] + (["S03_deepb"] if ck.thorough else []): gen_sparse.replay(ck, f"MC_Sparse_{c}.cfg", sparse("double-internal", "float-internal"))


def S04(ck):
    ck.traces_of(gen_sparse.jobs(ck, "prod", more(ck, [("double", IB), ("float", IB), ("cdouble", IB), ("ldouble", ("internal",))]), 150, 30, thr(ck)))
    for c in ["S04", "S04b"] + (["S04_deep"] if ck.thorough else []): gen_sparse.replay(ck, f"MC_Sparse_{c}.cfg", sparse("double-internal", "double-blas"))


IBL = ("internal", "lapack")
SOLVE = [("double", IBL), ("float", IBL), ("ldouble", ("internal",))]


def solve(*c): return [Config("solve", e, b) for e, b in (x.split("-") for x in c)]


def X01(ck):
    ck.traces_of(gen_solve.jobs(ck, "tri", SOLVE, 200, 30))
    gen_solve.replay(ck, "MC_Solve_X01.cfg", solve("double-internal", "float-internal", "double-lapack"))


def X02(ck):
    ck.traces_of(gen_solve.jobs(ck, "chol", SOLVE, 160, 14) + gen_solve.jobs(ck, "herm", [("cdouble", ("lapack",)), ("cfloat", ("lapack",))], 80, 6))
    gen_solve.replay(ck, "MC_Solve_X02.cfg", solve("double-internal", "float-lapack"))


def X03(ck):
    ck.traces_of(gen_solve.jobs(ck, "mod", SOLVE, 160, 12))
    gen_solve.replay(ck, "MC_Solve_X03.cfg", solve("double-internal", "float-internal"))


def X04(ck):
    ck.traces_of(gen_solve.jobs(ck, "ilu", SOLVE, 160, 14))
    for c in ["X04"] + (["X04_deep"] if ck.thorough else []): gen_solve.replay(ck, f"MC_Solve_{c}.cfg", solve("double-internal", "float-internal"))


def X05(ck):
    ck.traces_of(gen_solve.jobs(ck, "gmres", [("double", IBL), ("float", ("internal",)), ("ldouble", ("internal",))], 160, 14, thr(ck)))
    for c in ["X05"] + (["X05_deep"] if ck.thorough else []): gen_solve.replay(ck, f"MC_Solve_{c}.cfg", solve("double-internal", "double-lapack"), gm=True)


def X06(ck):
    ck.traces_of(gen_solve.jobs(ck, "cgs", [("double", IB), ("float", ("internal",)), ("ldouble", ("internal",))], 300, 12))
    for c in "abc": gen_solve.replay_cgs(ck, f"MC_Cgs_{c}.cfg", solve("double-internal", "float-internal", "double-blas"))


def C02(ck):
    ck.model("MC_ParFor", "MC_ParFor_deep.cfg" if ck.thorough else "MC_ParFor.cfg")
    ck.model("MC_Calls", "MC_Calls.cfg")
    for module, cfg in (("MC_ParFor", "MC_ParFor_carried.cfg"), ("MC_Calls", "MC_Calls_shared.cfg")): ck.must_fail(module, cfg)
    try: ck.traces_of(gen_conc.schedule_jobs(ck, 60 if ck.thorough else 25, (1, 2, 3, 4, 7)))
    except Infra as e:
        if "cannot build" not in str(e): raise
        ck.notes.append("element-wise operations do not take the recording element type")
    # the same history with every number of threads
    js = []
    ths = (1, 2, 3, 4, 5, 8, 16) if ck.thorough else (1, 2, 3, 8)
    for elem, b in (("double", "internal"), ("float", "blas"), ("cdouble", "internal")) + ((("double", "blas"), ("cfloat", "blas"), ("ldouble", "internal")) if ck.thorough else ()):
        for what in ("elementwise",) + (("reduction",) if elem == "double" else ()): js += gen_vec.jobs(ck, what, [(elem, (b,))], 60, 30, ths)
    for what in ("arithmetic", "gemm", "gemv"): js += gen_mat.jobs(ck, what, [("double", ("internal",))], 40, 25, ths[::3] if not ck.thorough else ths)
    # teams smaller than asked for
    js += [Job(j.label, j.spec, j.cfg, j.script, 8, env) for j in js if j.threads == 8 for env in ({"OMP_THREAD_LIMIT": "3"}, {"OMP_DYNAMIC": "TRUE"}, {"OMP_MAX_ACTIVE_LEVELS": "0"})]
    strict = {j.label for j in js if "elementwise" in j.label or "arithmetic" in j.label}
    ck.agreement(js, strict)
    # concurrent user threads: shared inputs, and everything at once on objects of their own
    js = gen_conc.par_jobs(ck, [("double", "internal"), ("double", "blas"), ("cdouble", "internal")] + ([("float", "internal"), ("float", "blas")] if ck.thorough else []), 25 if ck.thorough else 8)
    js += gen_conc.alone_jobs(ck, [("double", "internal"), ("double", "lapack")] + ([("float", "lapack")] if ck.thorough else []), (2, 8) if ck.thorough else (6,))
    ck.agreement(js)


def C01(ck):
    for elem in ("double", "float") + (("cdouble", "cfloat") if ck.thorough else ("cdouble",)): ck.agreement(gen_conc.backend_jobs(ck, elem))


ASAN = ("-O1", "-DNO_GUARD", "-UNDEBUG", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero,signed-integer-overflow,shift", "-fno-sanitize-recover=all")


def C03(ck):
    ck.model("MC_Memory", "MC_Memory.cfg")
    for v in ("leak", "share"): ck.must_fail("MC_Memory", f"MC_Memory_{v}.cfg")
    th = ck.thorough
    D, L = [("double", IB)], [("double", IBL)]
    js = []
    for what in ("elementwise", "reduction", "mismatch", "value"): js += gen_vec.jobs(ck, what, D + [("cdouble", ("internal",))] * th, 40, 30, (1,))
    for what in ("values", "arithmetic", "gemm", "gemv", "inverse", "bad"): js += gen_mat.jobs(ck, what, D + [("cdouble", ("internal",))] * th, 30, 25, (1,))
    for what in ("tri", "hess", "upper", "lower"): js += gen_pack.jobs(ck, what, [("double", ("internal",))] + [("cdouble", ("internal",))] * th, 40, 40)
    for what in ("coo", "sum", "csr", "prod"): js += gen_sparse.jobs(ck, what, [("double", IB if what == "prod" else ("internal",))] + [("cdouble", ("internal",))] * th, 40, 30)
    for what in ("tri", "chol", "mod", "ilu", "gmres", "cgs"): js += gen_solve.jobs(ck, what, L if what not in ("ilu", "cgs") else [("double", ("internal",))], 40, 12)
    js = [j for j in js if j.threads == 1]
    mem = [Job(j.label, ("MemTrace", "MemTrace.cfg"), j.cfg, j.script, 1, {"MEM": "1"}) for j in js]
    ck.traces_of(mem)
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:allocator_may_return_null=1:use_sigaltstack=0:symbolize=0:max_allocation_size_mb=8192"}
    ck.traces_of([Job(j.label, j.spec, Config(j.cfg.driver, j.cfg.elem, j.cfg.backend, ASAN), j.script, t, env) for j in js for t in ((1, 4) if j.cfg.driver == "vec" else (1,))])


CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] in "VMBSXC" and callable(v)}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = Check(prop, tier, seed)
    vlib.prune_build()
    try:
        CHECKS[prop](ck)
    except Infra as e:
        if ck.violations: return ck.finish()
        print(f"ERROR: {e}", file=sys.stderr); return 2
    except Exception:
        traceback.print_exc(); return 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
