"""The checks: property -> scenarios, executors, models."""
import models as M
import pyscen
import scen

ASSUME = ["the exact-rational executor runs the library's own generic code, so rounding is only examined where noted",
          "results that leave the range of 128-bit rationals are skipped and counted"]
NUMS = ("rat", "f64", "f32")
NOMC = {"quick": []}


def P(gen, nums=("rat",), mc=NOMC, **k):
    return {"gen": gen, "nums": list(nums), "mc": mc, **k}


L, R_, Q = ("linear",), ("nearest",), ("cubic",)


def both(*fs):
    """Design models: each a function of deep."""
    return {"quick": [f(False) for f in fs], "thorough": [f(True) for f in fs]}


def ax(invs):
    return lambda deep: M.axis(invs, deep)


def it(invs, methods=("linear", "nearest", "cubic")):
    return lambda deep: M.interp(invs, methods, deep)


def fl(methods):
    return lambda deep: M.flat(methods, deep)


def plain(t):
    return lambda deep: t


PROPS = {
    "C01": P(scen.c01, NUMS, mc=both(ax("HitsNodes"), it("AtNode")), models=[M.model_values("C01", ["node"])]),
    "C02": P(scen.c02, NUMS, mc=both(ax("KeepsLines PiecesMeet"), it("Tensor Blend", L), fl(L)), models=[M.model_values("C02", ["value"], L)]),
    "C03": P(scen.c03, NUMS, mc=both(ax("NearestIsNearest"), it("PerAxis", R_)), models=[M.model_values("C03", ["value"], R_)]),
    "C04": P(scen.c04, NUMS, mc=both(ax("IsHermite SlopesRight"), it("Tensor", Q), fl(Q)), models=[M.model_values("C04", ["inside"], Q)]),
    "C05": P(scen.c05, NUMS, mc=both(ax("Extrapolates"), it("Tensor", Q)), models=[M.model_values("C05", ["outside"], Q)]),
    "C06": P(scen.c06, NUMS, mc=both(ax("PiecesMeet PiecesUsed"), it("Smooth"))),
    "C07": P(scen.c07, NUMS, mc=both(ax("KeepsLines KeepsSquares"), it("Reproduced"))),
    "C08": P(scen.c08, NUMS, mc=both(ax("KindsAgree"), it("AsRect"), fl(L + Q))),
    "C09": P(scen.c09, NUMS, mc={"quick": [M.calls()]}, models=[M.call_histories("C09", ["value"], 300, 3000)]),
    "C10": P(scen.c10, NUMS, mc=both(ax("FootHolds"), it("Local"))),
    "C11": P(scen.c11, NUMS, mc=both(ax("LinearInData ConstantKept Between"), it("Combines Constant Range")), models=[M.model_values("C11", ["range"], L + R_)]),
    "C12": P(scen.c12, NUMS, mc=both(it("AxesSwap Slices Extrudes"))),
    "C13": P(scen.c13, NUMS, mc=both(ax("MirrorSame MoveSame"), it("Moves"))),
    "C14": P(scen.c14, NUMS, mc={"quick": [M.calls()]}, models=[M.call_histories("C14", ["value"], 600, 5000)]),
    "C15": P(scen.c15, NUMS, mc={"quick": [M.calls()]}, models=[M.call_histories("C15", ["value"], 300, 3000)]),
    "C16": P(scen.c16, NUMS, mc=both(M.bounds), models=[M.model_bounds("C16")]),
    "C17": P(scen.c17, NUMS, mc=both(lambda deep: M.oned("LookupRight HoldsRight HoldsMean LikeNd Mirrored", deep)), models=[M.model_oned("C17", ["left", "right", "nearest"], False)]),
    "C18": P(scen.c18, NUMS, mc=both(lambda deep: M.oned("LookupRight LinearRight LikeNd Meets", deep)), models=[M.model_oned("C18", ["linear", "hold"], True)]),
    "C19": P(scen.c19, ("f64", "f32"), mc={"quick": [M.calls()]}, models=[M.call_histories("C19", ["noalloc"], 300, 3000, nums=("f64", "f32"))]),
    "C20": P(scen.c20, ("f64", "f32", "f64+fma", "f32+fma", "rat+fma"), mc=both(lambda deep: M.rounding(24, deep), plain(M.rational())), models=[M.model_values("C20", ["value"], nums=("f64", "f32", "f64+fma", "f32+fma"))]),
    "C21": P(pyscen.c21, ("py",), trace="PyTrace", mc={"quick": [M.pyworld(3)], "thorough": [M.pyworld(5)]}, models=[M.py_histories("C21", 120, 2000)]),
    "C22": P(pyscen.c22, ("py",), trace="PyTrace", mc={"quick": [M.pyworld(3)], "thorough": [M.pyworld(5)]}, models=[M.py_histories("C22", 120, 2000)]),
    "C23": P(pyscen.c23, ("py",), trace="PyTrace", mc={"quick": [M.pyworld(3)], "thorough": [M.pyworld(5)]}, models=[M.py_histories("C23", 120, 2000)]),
    "C24": P(pyscen.c24, ("py",), trace="PyTrace", mc={"quick": [M.pyworld(3)], "thorough": [M.pyworld(5)]}, models=[M.py_histories("C24", 120, 2000)]),
    "C25": P(pyscen.c25, ("py",), trace="PyTrace", mc={"quick": [M.pyworld(3)], "thorough": [M.pyworld(5)]}, models=[M.py_histories("C25", 120, 2000)]),
    "C26": P(scen.c26, ("rat", "f64", "f32"), mc=both(M.helpers), models=[M.model_helpers("C26")]),
}
