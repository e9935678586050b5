"""What each property's check runs."""
import threading
import xk
from xk import Target as T, SYM

# ---- targets ----
def k1600(v, tool="x86_64"):
    return T(v.replace("K1600-", "") + ("" if tool == "x86_64" else "@" + tool), tool, v)

K1600_ALL = [k1600(f"K1600-{v}") for v in (
    "ref-64bits ref-32bits compact plain-32bits-inplace plain-64bits-u6 plain-64bits-ua plain-64bits-lcu6 plain-64bits-lcua "
    "plain-64bits-lcua-shld x86-64 x86-64-shld AVX2 AVX512 AVX512-C").split()]
K1600_ARM = [k1600("K1600-ARMv6M-u2", "armv6"), k1600("K1600-ARMv7A-NEON", "armv7a"), k1600("K1600-plain-64bits-ua", "aarch64")]
K1600_MORE = [k1600("K1600-ARMv6M-u1", "armv6"), k1600("K1600-ARMv7M-inplace", "armv7a"), k1600("K1600-ARMv8A", "aarch64"),
              k1600("K1600-plain-32bits-inplace", "i686"), k1600("K1600-ref-32bits", "i686"), k1600("K1600-compact", "i686"),
              k1600("K1600-plain-64bits-u6", "i686"), k1600("K1600-plain-32bits-inplace", "armv6"), k1600("K1600-ARMv6M-inplace", "armv6t2")]
K1600_SET = K1600_ALL + K1600_ARM

# parallel groups (kind, degree): each implementation with any single-state implementation beside it
def par(v, tool="x86_64"):
    # the parallel Xoodoo sources include Xoodoo.h, which comes with any single-state implementation
    return T(v + ("" if tool == "x86_64" else "@" + tool), tool, v + (" Xoodoo-plain-ua" if v.startswith("Xoodoo") else ""))

PAR = {
    ("K", 2): [par("K1600x2-SSSE3-u2"), par("K1600x2-SSSE3-ua"), par("K1600x2-AVX512-u4"), par("K1600x2-AVX512-u12"),
               par("K1600x2-AVX512-ua"), par("K1600x2-ARMv7A-NEON", "armv7a")],
    ("K", 4): [par("K1600x4-AVX2-u6"), par("K1600x4-AVX2-u12"), par("K1600x4-AVX2-ua"), par("K1600x4-AVX512-u4"),
               par("K1600x4-AVX512-u12"), par("K1600x4-AVX512-ua")],
    ("K", 8): [par("K1600x8-AVX512-u4"), par("K1600x8-AVX512-u12"), par("K1600x8-AVX512-ua")],
    ("X", 4): [par("Xoodoox4-SSSE3"), par("Xoodoox4-AVX512"), par("Xoodoox4-ARMv7A-NEON", "armv7a")],
    ("X", 8): [par("Xoodoox8-AVX2"), par("Xoodoox8-AVX512")],
    ("X", 16): [par("Xoodoox16-AVX512")],
}
FAST12_PAR = {2: ["AVX512"], 4: ["AVX2", "AVX512"], 8: ["AVX512"]}
FAST24_PAR = {2: ["SSSE3", "AVX512"], 4: ["AVX2", "AVX512"], 8: ["AVX512"]}
XOODOO_N = [T(v.replace("Xoodoo-", "xoodoo-"), "x86_64", v) for v in ("Xoodoo-ref", "Xoodoo-plain-ua", "Xoodoo-SSE2", "Xoodoo-AVX512")]
XOODOO_ARM = [T("xoodoo-ARMv6", "armv6", "Xoodoo-ARMv6"), T("xoodoo-ARMv7A-NEON", "armv7a", "Xoodoo-ARMv7A-NEON"),
              T("xoodoo-plain@aarch64", "aarch64", "Xoodoo-plain-ua")]
XOODOO_MORE = [T("xoodoo-ARMv6M", "armv6", "Xoodoo-ARMv6M"), T("xoodoo-ARMv7M", "armv7a", "Xoodoo-ARMv7M"), T("xoodoo-plain@i686", "i686", "Xoodoo-plain-ua")]
XOODOO_SET = XOODOO_N + XOODOO_ARM

PLANS = {}


def plan(pid):
    def reg(fn):
        PLANS[pid] = fn
        return fn
    return reg


def n(run, quick, thorough):
    return quick if run.quick else thorough


def gen(run, name, module, choose, apply, inv, behaviors, steps, slots, replay, clone=25, seed=0, invariants=("InstancesOK",), **consts):
    c = dict(Seed=run.seed + seed, Behaviors=behaviors, MaxSteps=steps, Slots=slots, CloneOf=clone, **consts)
    return dict(name=name, module=module, consts=c, subst=dict(GChoose=choose, GApply=apply, GInv=inv), replay=replay,
                invariants=invariants)


HUGE = dict(GChoose="HugeChoose", GApply="HugeApply", GInv="HugeInv")


def huge(run, name, fam, only, longs, replay, seed=0, workers=2):
    """Scripts `only` of a family of GenHuge, with strings of just over 2^L bytes for every L of longs."""
    c = dict(Seed=run.seed + seed, Behaviors=len(only) * len(longs), MaxSteps=9, Slots=1, CloneOf=0, T=4177920, Chunk=8192, Fam=f'"{fam}"',
             Longs="{" + ", ".join(map(str, longs)) + "}", Only="{" + ", ".join(map(str, only)) + "}")
    return dict(name=name, module="GenHuge", consts=c, subst=HUGE, replay=replay, con=False, workers=workers, heap="4g")


def long(run, fam, only, targets, high, ops, name="long"):
    return huge(run, name, fam, only, n(run, (13, 16, 21), (9, 11, 13, 15, 16, 18, 20, 21, 22, 23, 24, 25)), [dict(targets=targets, high=high, ops=ops)])


MC_SNP = dict(SymWidth=4, LaneLen=2, P=2)


def mc_snp(run, **kw):
    return dict(module="MCSnP", consts=dict(SymWidth=4, LaneLen=2, P=2, MaxOps=n(run, 2, 3), **kw), subst=dict(SYM, LaneB="SymLane"),
                invariants=["TypeOK", "Refines", "Bijective", "Extracts", "FastAgree"], workers=3)


def snp(run, name, choose, kind, par, behaviors, steps, targets, rounds, fast="both", seed=0):
    c = dict(Seed=run.seed + seed, Behaviors=behaviors, MaxSteps=steps, Slots=1, CloneOf=0, Kind=f'"{kind}"', Par=par)
    return dict(name=name, module="GenSnP", consts=c,
                subst=dict(GChoose=choose, GApply="SnpApply", GInv="SnpInv", LaneB="CLaneB", Rounds="R_" + rounds, FastRounds="F_" + fast),
                replay=[dict(targets=targets, high="common", ops="snp")], workers=4, heap="4g")


def primitives(run):
    """The definitions of the permutations against the accelerated operators that every other run uses."""
    k = dict(consts=dict(Samples=n(run, 2, 12)), workers=1)
    a, b = xk.must(xk.tlc("MCPrim", **k)), xk.must(xk.tlc("MCPrim", overrides=False, **k))
    vals = [[l for l in r["out"].splitlines() if l.startswith("<<")] for r in (a, b)]
    if len(vals[0]) < 3 * n(run, 2, 12) or vals[0] != vals[1]:
        raise xk.ToolError("the TLA+ definitions and the Java operators differ")
    run.log(f"TLC MCPrim: {len(vals[0])} groups of values agree between the TLA+ definitions and the Java operators, {b['wall']} s")
    run.mc.append({k: b[k] for k in ("module", "states", "transitions", "depth", "wall", "consts")})


@plan("C01")
def c01(run):
    g = [snp(run, "perm.K1", "PermChoose", "K", 1, n(run, 2600, 9000), n(run, 12, 60), K1600_SET, "1to24")]
    g.append(snp(run, "perm.K1more", "PermChoose", "K", 1, n(run, 1700, 6000), n(run, 9, 40), K1600_MORE, "1to24", seed=3))
    for p in (2, 4, 8):
        g.append(snp(run, f"perm.K{p}", "PermChoose", "K", p, n(run, 900, 6000), 1 + p + 3 * (p + 1), PAR["K", p], "K"))
    return dict(custom=[primitives], gen=g)


@plan("C02")
def c02(run):
    g = [snp(run, "perm.X1", "PermChoose", "X", 1, n(run, 1500, 9000), n(run, 12, 60), XOODOO_N, "1to12"),
         snp(run, "perm.X1arm", "PermChoose", "X", 1, n(run, 1000, 9000), n(run, 12, 60), XOODOO_ARM[:2] + XOODOO_MORE[:2], "X"),
         snp(run, "perm.X1aarch64", "PermChoose", "X", 1, n(run, 1000, 9000), n(run, 12, 60), XOODOO_ARM[2:] + XOODOO_MORE[2:], "1to12")]
    for p in (4, 8, 16):
        g.append(snp(run, f"perm.X{p}", "PermChoose", "X", p, n(run, 900, 6000), 1 + p + 3 * (p + 1), PAR["X", p], "X"))
    return dict(custom=[primitives], gen=g)


@plan("C03")
def c03(run):
    return dict(mc=[mc_snp(run)], gen=[
        snp(run, "all.K1", "AllChoose", "K", 1, 200, 1010, K1600_SET + K1600_MORE, "1to24"),
        snp(run, "all.X1", "AllChoose", "X", 1, 48, 260, XOODOO_SET + XOODOO_MORE, "X"),
        snp(run, "mix.K1", "MixChoose", "K", 1, n(run, 1500, 20000), 24, K1600_SET + K1600_MORE, "1to24"),
        snp(run, "mix.X1", "MixChoose", "X", 1, n(run, 1500, 20000), 24, XOODOO_SET + XOODOO_MORE, "X")])


@plan("C04")
def c04(run):
    g = []
    for (k, p), ts in PAR.items():
        g.append(snp(run, f"mix.{k}{p}", "MixChoose", k, p, n(run, 1000, 15000), 26, ts, k))
        if not run.quick:
            w = 200 if k == "K" else 48
            g.append(snp(run, f"all.{k}{p}", "AllChoose", k, p, w * p, 5 * w + 10, ts, k))
    return dict(mc=[mc_snp(run)], gen=g)


@plan("C05")
def c05(run):
    fast1 = [t for t in K1600_ALL if any(x in t.name for x in ("plain-64bits", "AVX2", "AVX512"))]
    g = [snp(run, "fast.K1", "FastChoose", "K", 1, n(run, 2000, 20000), 7, fast1, "K"),
         snp(run, "fast.K1aarch64", "FastChoose", "K", 1, n(run, 300, 3000), 7, [k1600("K1600-plain-64bits-ua", "aarch64")], "K")]
    for p in (2, 4, 8):
        t24 = [t for t in PAR["K", p] if any(x in t.name for x in FAST24_PAR[p])]
        t12 = [t for t in PAR["K", p] if any(x in t.name for x in FAST12_PAR[p])]
        g.append(snp(run, f"fast24.K{p}", "FastChoose", "K", p, n(run, 1000, 10000), 1 + 2 * p + 1, t24, "K", fast="24"))
        g.append(snp(run, f"fast12.K{p}", "FastChoose", "K", p, n(run, 1000, 10000), 1 + 2 * p + 1, t12, "K", fast="12", seed=7))
    return dict(mc=[mc_snp(run)], gen=g)


@plan("C06")
def c06(run):
    return dict(
        mc=[dict(module="MCSponge", consts=dict(SymWidth=3, MaxM=n(run, 7, 10), MaxO=n(run, 6, 9),
                                                 Delims="{0, 1, 2, 6, 64, 128, 129, 255}"),
                 subst=SYM, invariants=["Inv"], properties=["Refused", "Sealed"], workers=2)],
        gen=[gen(run, "sponge", "GenSponge", "SpChoose", "SpApply", "SpGInv", n(run, 3000, 60000), 16, 2,
                 [dict(targets=K1600_SET, high="KeccakSponge", ops="sponge")]),
             long(run, "keccak", (1, 2, 17), K1600_SET, "KeccakSponge", "sponge")])

@plan("C07")
def c07(run):
    return dict(
        mc=[dict(module="MCHash", consts=dict(SymWidth=3, MaxN=n(run, 26, 44), MaxO=6, Delims="{1, 2, 6, 31, 128}", Fixed="{0, 16}"),
                 subst=SYM, invariants=["Inv"], properties=["Refused"], workers=3)],
        gen=[gen(run, "hash", "GenHash", "HashChoose", "HashApply", "HashInv", n(run, 3000, 60000), 14, 2,
                 [dict(targets=K1600_SET, high="FIPS202", ops="hash")]),
             long(run, "keccak", (7, 15, 16), K1600_SET, "FIPS202", "hash")])


@plan("C08")
def c08(run):
    return dict(
        mc=[dict(module="MCSponge", consts=dict(SymWidth=3, MaxM=n(run, 8, 11), MaxO=n(run, 7, 10),
                                                 Delims="{0, 1, 7, 31, 127, 128, 255}"),
                 subst=SYM, invariants=["Inv"], properties=["Refused", "Sealed"], workers=2)],
        gen=[gen(run, "turbo", "GenTurbo", "TsChoose", "TsApply", "TsInv", n(run, 3000, 60000), 16, 2,
                 [dict(targets=K1600_SET, high="TurboSHAKE", ops="turbo")]),
             long(run, "keccak", (3, 18), K1600_SET, "TurboSHAKE", "turbo")])


@plan("C09")
def c09(run):
    return dict(
        mc=[dict(module="MCDuplex", consts=dict(SymWidth=2, MaxH=2, MaxCalls=n(run, 3, 4), Delims="{0, 1, 2, 31, 128, 255}"),
                 subst=SYM, invariants=["Inv", "Outputs", "Masked"], properties=["Refused"], workers=4)],
        gen=[gen(run, "duplex", "GenDuplex", "DuChoose", "DuApply", "DuGInv", n(run, 3000, 60000), 16, 2,
                 [dict(targets=K1600_SET, high="KeccakDuplex", ops="duplex")])])


@plan("C10")
def c10(run):
    return dict(
        mc=[dict(module="MCPRG", consts=dict(SymWidth=3, MaxIn=3, MaxOut=4, MaxCalls=n(run, 4, 5)),
                 subst=SYM, invariants=["Inv"], properties=["Refused", "Forgets"], workers=4)],
        gen=[gen(run, "prg", "GenPRG", "PrgChoose", "PrgApply", "PrgGInv", n(run, 3000, 60000), 16, 2,
                 [dict(targets=K1600_SET, high="KeccakPRG", ops="prg")]),
             long(run, "keccak", (14,), K1600_SET, "KeccakPRG", "prg")])

# ---- SP 800-185 ----
MODES_SET = [t for t in K1600_SET if t.name in ("ref-64bits", "ref-32bits", "compact", "plain-32bits-inplace", "plain-64bits-ua", "plain-64bits-lcu6",
             "x86-64", "AVX2", "AVX512", "ARMv6M-u2@armv6", "ARMv7A-NEON@armv7a")]
PARALLEL_SET = [  # every parallel implementation, in the combinations of the named targets and a few others
    T("p.none", "x86_64", "K1600-plain-64bits-ua"), T("p.SSSE3", "x86_64", "K1600-plain-64bits-ua K1600x2-SSSE3-u2"),
    T("p.SSSE3ua", "x86_64", "K1600-x86-64 K1600x2-SSSE3-ua"),
    T("p.AVX2", "x86_64", "K1600-AVX2 K1600x2-SSSE3-u2 K1600x4-AVX2-u12"), T("p.AVX2u6", "x86_64", "K1600-plain-64bits-lcua K1600x4-AVX2-u6"),
    T("p.AVX2ua", "x86_64", "K1600-plain-64bits-u6 K1600x2-SSSE3-u2 K1600x4-AVX2-ua"),
    T("p.AVX512", "x86_64", "K1600-AVX512 K1600x2-AVX512-u12 K1600x4-AVX512-u12 K1600x8-AVX512-u12"),
    T("p.AVX512u4", "x86_64", "K1600-AVX512-C K1600x2-AVX512-u4 K1600x4-AVX512-u4 K1600x8-AVX512-u4"),
    T("p.AVX512ua", "x86_64", "K1600-AVX512 K1600x2-AVX512-ua K1600x4-AVX512-ua K1600x8-AVX512-ua"),
    T("p.x8only", "x86_64", "K1600-plain-64bits-ua K1600x8-AVX512-ua"),
    T("p.ARMv7A", "armv7a", "K1600-ARMv7A-NEON K1600x2-ARMv7A-NEON"), T("p.32bits", "i686", "K1600-plain-32bits-inplace"),
]


def sp(run, fam, behaviors, steps, targets, seed=0, exp=31):
    return gen(run, fam + str(exp), "GenSP", "SpxChoose", "SpxApply", "SpxInv", behaviors, steps, 2,
               [dict(targets=targets, high="SP800-185", ops="sp800")], seed=seed, Fam=f'"{fam}"', MaxExp=exp, Raw=False)


def sp_raw(run, fam):
    """Unused bits of the last byte of a customization string or key: see known_findings.txt."""
    g = gen(run, "raw." + fam, "GenSP", "RawChoose", "SpxApply", "SpxInv", 20, 1, 1,
            [dict(targets=[T("ref-64bits", "x86_64", "K1600-ref-64bits")], high="SP800-185", ops="sp800")], Fam=f'"{fam}"', MaxExp=31, Raw=True)
    g["finding"] = "unused-bits-" + fam
    return g


@plan("C11")
def c11(run):
    return dict(
        mc=[dict(module="MCCShake", consts=dict(SymWidth=6, Rb=4, Sizes="{0, 3, 8, 13, 24, 32}", Outs="{0, 3, 8, 40}", MaxCalls=n(run, 4, 6), MaxBits=n(run, 56, 90)),
                 subst=SYM, invariants=["Inv"], properties=["Refused", "Phases"], workers=4)],
        gen=[sp(run, "cs", n(run, 2200, 40000), 14, MODES_SET), sp(run, "km", n(run, 1500, 30000), 12, MODES_SET, 1),
             sp_raw(run, "cs"), sp_raw(run, "km"),
             long(run, "keccak", (8, 9, 10, 20), MODES_SET, "SP800-185", "sp800")])


@plan("C12")
def c12(run):
    return dict(
        mc=[dict(module="MCTuple", consts=dict(SymWidth=6, Rb=5, Outs="{0, 3, 8, 48}", MaxCalls=n(run, 3, 4), MaxElem=n(run, 2, 4), MaxBits=64),
                 subst=SYM, invariants=["Inv"], properties=["Refused"], workers=4)],
        gen=[sp(run, "th", n(run, 2500, 40000), 14, MODES_SET), sp_raw(run, "th"),
             long(run, "keccak", (11, 12), MODES_SET, "SP800-185", "sp800")])


@plan("C13")
def c13(run):
    return dict(
        mc=[dict(module="MCParallel", consts=dict(SymWidth=5, Rb=3, Outs="{0, 3, 16, 32}", MaxCalls=n(run, 4, 6), MaxIn=n(run, 17, 24), MaxBits=48),
                 subst=SYM, invariants=["Inv"], properties=["Refused"], workers=4)],
        gen=[sp(run, "ph", n(run, 2000, 30000), 12, PARALLEL_SET), sp_raw(run, "ph"),
             sp(run, "ph", n(run, 300, 3000), 10, [t for t in PARALLEL_SET if t.tool == "x86_64"], 3, exp=63),
             long(run, "keccak", (6, 13, 21), PARALLEL_SET, "SP800-185", "sp800")])

@plan("C14")
def c14(run):
    return dict(
        mc=[dict(module="MCKT", consts=dict(SymWidth=5, Rb=3, Chunk=4, Lane=1, MaxIn=n(run, 17, 41), MaxC=n(run, 3, 9), MaxO=5, MaxCalls=n(run, 4, 5),
                                            Widths='{"none", "two", "eight"}'),
                 subst=SYM, invariants=["Inv"], properties=["Refused"], workers=4),
            dict(module="MCKT", consts=dict(SymWidth=6, Rb=4, Chunk=8, Lane=2, MaxIn=n(run, 20, 60), MaxC=n(run, 4, 9), MaxO=7, MaxCalls=n(run, 3, 5),
                                            Widths='{"none", "four"}'),
                 subst=SYM, invariants=["Inv"], properties=["Refused"], workers=4)],
        gen=[gen(run, "kt", "GenKT", "KtChoose", "KtApply", "KtGInv", n(run, 600, 6000), 9, 2,
                 [dict(targets=PARALLEL_SET, high="KangarooTwelve", ops="kt")], Chunk=8192, Lane=8, Big=18),
             long(run, "keccak", (4, 5, 19), PARALLEL_SET, "KangarooTwelve", "kt")])


# ---- Farfalle ----
# documented in KravatteModes.c and Xoofff.c for processors on which a misaligned 64-bit access traps (ldrd)
ALIGNED = ["-DNO_MISALIGNED_ACCESSES"]
# each Xoodoo target with the parallel implementations that can go with it
XOOFFF_SET = [
    T("x.ref", "x86_64", "Xoodoo-ref"), T("x.plain", "x86_64", "Xoodoo-plain-ua"), T("x.SSE2", "x86_64", "Xoodoo-SSE2 Xoodoox4-SSSE3"),
    T("x.AVX2", "x86_64", "Xoodoo-SSE2 Xoodoox4-SSSE3 Xoodoox8-AVX2"), T("x.x8only", "x86_64", "Xoodoo-plain-ua Xoodoox8-AVX2"),
    T("x.AVX512", "x86_64", "Xoodoo-AVX512 Xoodoox4-AVX512 Xoodoox8-AVX512 Xoodoox16-AVX512"),
    T("x.x16only", "x86_64", "Xoodoo-plain-ua Xoodoox16-AVX512"), T("x.x4x16", "x86_64", "Xoodoo-SSE2 Xoodoox4-AVX512 Xoodoox16-AVX512"),
    T("x.ARMv6", "armv6", "Xoodoo-ARMv6", ALIGNED), T("x.ARMv7A", "armv7a", "Xoodoo-ARMv7A-NEON Xoodoox4-ARMv7A-NEON", ALIGNED),
    T("x.i686", "i686", "Xoodoo-plain-ua"), T("x.aarch64", "aarch64", "Xoodoo-plain-ua"),
]
KRAVATTE_SET = [T(t.name, t.tool, " ".join(t.low), ALIGNED) if t.tool == "armv7a" else t for t in PARALLEL_SET]
FAR = {"K": (KRAVATTE_SET, "Kravatte", "kravatte"), "X": (XOOFFF_SET, "Xoofff", "xoofff")}
FARSUB = dict(SYM, RollC="SRollC", RollE="SRollE")


def far(run, kd, fam, behaviors, steps, blk, seed=0):
    ch = {"deck": "Dk", "sane": "Se", "sanse": "Se", "wbc": "Wbc"}[fam]
    targets, high, ops = FAR[kd]
    g = gen(run, f"{fam}.{kd}", "GenDeck", ch + "Choose", ch + "Apply", ch + "GInv", behaviors, steps, 2, [dict(targets=targets, high=high, ops=ops)],
            seed=seed, Kd=f'"{kd}"', Fam=f'"{fam}"', MaxBlk=blk, TagA=16, TagS=32, Tred=128, Ell=8)
    g["subst"].update(RollC="CRollC", RollE="CRollE")
    return g


def mc_deck(run):
    return dict(module="MCDeck", consts=dict(SymWidth=2, MaxS=n(run, 12, 20), MaxT=5, MaxStr=3, MaxO=3, MaxCalls=3), subst=FARSUB,
                invariants=["Inv"], properties=["Refused"], workers=4)


def mc_far(run, mode):
    return dict(module="MCFarModes", consts=dict(SymWidth=4, Mode=f'"{mode}"', MaxP=9, MaxA=9, MaxCalls=0 if mode == "wbc" else n(run, 2, 3),
                                                 Lens="{0}" if mode == "wbc" else n(run, "{0, 1, 7, 8, 14}", "{0, 1, 6, 7, 14}"), TagA=3, TagS=3, Tred=16, Ell=8), subst=FARSUB,
                invariants=[] if mode == "wbc" else ["Inv"], properties=[] if mode == "wbc" else ["Outputs"], workers=4)


@plan("C15")
def c15(run):
    return dict(mc=[mc_deck(run)], gen=[far(run, "K", "deck", n(run, 1200, 20000), 12, 24), long(run, "kra", (1, 2), *FAR["K"], name="long.K")])


@plan("C16")
def c16(run):
    return dict(mc=[mc_deck(run)], gen=[far(run, "X", "deck", n(run, 1500, 30000), 12, 40), long(run, "xof", (1, 2), *FAR["X"], name="long.X")])


@plan("C17")
def c17(run):
    return dict(mc=[mc_far(run, "sane")], gen=[far(run, "K", "sane", n(run, 700, 10000), 8, 18), far(run, "X", "sane", n(run, 900, 10000), 8, 34), long(run, "kra", (3, 4), *FAR["K"], name="long.K"), long(run, "xof", (3, 4), *FAR["X"], name="long.X")])


@plan("C18")
def c18(run):
    return dict(mc=[mc_far(run, "sanse")], gen=[far(run, "K", "sanse", n(run, 700, 10000), 8, 18), far(run, "X", "sanse", n(run, 900, 10000), 8, 34), long(run, "kra", (5,), *FAR["K"], name="long.K"), long(run, "xof", (5,), *FAR["X"], name="long.X")])


@plan("C19")
def c19(run):
    return dict(mc=[mc_far(run, "wbc")], gen=[far(run, "K", "wbc", n(run, 500, 8000), 8, 12), far(run, "X", "wbc", n(run, 700, 8000), 8, 34), long(run, "kra", (6, 7, 8), *FAR["K"], name="long.K"), long(run, "xof", (6, 7, 8), *FAR["X"], name="long.X")])


# ---- Xoodyak ----
XK = dict(Rhash=16, Rkin=44, Rkout=24, LRatchet=16)
XOODYAK_SET = XOODOO_SET + [t for t in XOODOO_MORE if t.name != "xoodoo-ARMv6M"] + [XOODOO_MORE[0]]


def mc_xk(run, keyed):
    return dict(module="MCXoodyak", consts=dict(SymWidth=7, Rhash=2, Rkin=5, Rkout=3, LRatchet=2, Keyed=keyed, MaxCalls=n(run, 2, 3) if keyed else n(run, 3, 4),
                                                Lens=n(run, "{0, 1, 2, 3, 5, 7}", "{0, 1, 2, 3, 4, 5, 6, 11}"), KLens="{1, 3}" if keyed else "{0}"),
                subst=SYM, invariants=["Inv", "Outputs", "Commits"] + (["Ratchets"] if keyed else []), workers=4)


def xoodyak(run, fam, behaviors, steps):
    return gen(run, "xk." + fam, "GenXoodyak", "XkChoose", "XkApply", "XkGInv", behaviors, steps, 2,
               [dict(targets=XOODYAK_SET, high="Xoodyak", ops="xoodyak")], Fam=f'"{fam}"', **XK)


@plan("C20")
def c20(run):
    return dict(mc=[mc_xk(run, False)], gen=[xoodyak(run, "hash", n(run, 2500, 50000), 16), long(run, "xoodyak", (3,), XOODYAK_SET, "Xoodyak", "xoodyak")])


@plan("C21")
def c21(run):
    return dict(mc=[mc_xk(run, True)], gen=[xoodyak(run, "keyed", n(run, 3000, 50000), 18), long(run, "xoodyak", (1, 2), XOODYAK_SET, "Xoodyak", "xoodyak")])

# ---- refused calls ----
FEW = [T("f.ref64", "x86_64", "K1600-ref-64bits"), T("f.AVX2", "x86_64", "K1600-AVX2 K1600x2-SSSE3-u2 K1600x4-AVX2-u12"),
       T("f.AVX512", "x86_64", "K1600-AVX512 K1600x2-AVX512-u12 K1600x4-AVX512-u12 K1600x8-AVX512-u12"), T("f.32bits", "i686", "K1600-plain-32bits-inplace"),
       T("f.ARMv7A", "armv7a", "K1600-ARMv7A-NEON K1600x2-ARMv7A-NEON", ALIGNED)]
FEWX = [XOOFFF_SET[0], XOOFFF_SET[3], XOOFFF_SET[5], XOOFFF_SET[9]]


@plan("C22")
def c22(run):
    k = n(run, 1, 15)
    mcs = [dict(c06(run)["mc"][0]), dict(c07(run)["mc"][0]), dict(c09(run)["mc"][0]), dict(c10(run)["mc"][0]), dict(c11(run)["mc"][0]),
           dict(c12(run)["mc"][0]), dict(c13(run)["mc"][0]), dict(c14(run)["mc"][0]), mc_deck(run)]
    if run.quick:
        mcs = [dict(m, workers=2) for m in mcs]
        mcs[0]["consts"] = dict(mcs[0]["consts"], MaxM=5, MaxO=4)
        mcs[1]["consts"] = dict(mcs[1]["consts"], MaxN=18)
        mcs[3]["consts"] = dict(mcs[3]["consts"], MaxCalls=3)

    def w(name, module, pre, apply, inv, behaviors, high, ops, targets=FEW, **kw):
        return gen(run, "wild." + name, module, pre + "Wild", apply, inv, behaviors * k, 16, 2, [dict(targets=targets, high=high, ops=ops)], **kw)
    g = [w("sponge", "GenSponge", "Sp", "SpApply", "SpGInv", 1000, "KeccakSponge", "sponge"),
         w("turbo", "GenTurbo", "Ts", "TsApply", "TsInv", 700, "TurboSHAKE", "turbo"),
         w("hash", "GenHash", "Hash", "HashApply", "HashInv", 1000, "FIPS202", "hash"),
         w("duplex", "GenDuplex", "Du", "DuApply", "DuGInv", 1000, "KeccakDuplex", "duplex"),
         w("prg", "GenPRG", "Prg", "PrgApply", "PrgGInv", 500, "KeccakPRG", "prg"),
         w("kt", "GenKT", "Kt", "KtApply", "KtGInv", 120, "KangarooTwelve", "kt", Chunk=8192, Lane=8, Big=6)]
    for fam, m in (("cs", 500), ("km", 400), ("th", 400), ("ph", 400)):
        g.append(w(fam, "GenSP", "Spx", "SpxApply", "SpxInv", m, "SP800-185", "sp800", Fam=f'"{fam}"', MaxExp=31, Raw=False))
    for kd in "KX":
        for fam, pre in (("deck", "Dk"), ("sane", "Se"), ("sanse", "Se")):
            f = far(run, kd, fam, 200 * k, 9, 6)
            f["name"] = "wild." + f["name"]
            f["subst"]["GChoose"] = pre + "Wild"
            f["replay"][0]["targets"] = FEW if kd == "K" else FEWX
            g.append(f)
    for x in g:
        x["workers"], x["heap"] = 2, "3g"
    return dict(mc=mcs, gen=g)



# ---- all families together ----
ALLHIGH = "All TurboSHAKE"
ALLOPS = "sponge turbo hash duplex prg sp800 kt kravatte xoofff xoodyak"


def families(run, k, clone=25, big=6, wild=False):
    """Generators of every family, for replay in one program; k scales the number of behaviours."""
    ch = "Wild" if wild else "Choose"

    def g(name, module, pre, apply, inv, behaviors, **kw):
        return gen(run, name, module, pre + "Choose", apply, inv, max(1, int(behaviors * k)), 12, 2, [], clone=clone, seed=11, **kw)
    out = [g("sponge", "GenSponge", "Sp", "SpApply", "SpGInv", 400), g("turbo", "GenTurbo", "Ts", "TsApply", "TsInv", 300),
           g("hash", "GenHash", "Hash", "HashApply", "HashInv", 400), g("duplex", "GenDuplex", "Du", "DuApply", "DuGInv", 400),
           g("prg", "GenPRG", "Prg", "PrgApply", "PrgGInv", 250),
           g("kt", "GenKT", "Kt", "KtApply", "KtGInv", 80, Chunk=8192, Lane=8, Big=big)]
    for fam, m in (("cs", 250), ("km", 200), ("th", 250), ("ph", 250)):
        out.append(g(fam, "GenSP", "Spx", "SpxApply", "SpxInv", m, Fam=f'"{fam}"', MaxExp=31, Raw=False))
    for kd in "KX":
        for fam, pre, m in (("deck", "Dk", 150), ("sane", "Se", 120), ("sanse", "Se", 120), ("wbc", "Wbc", 120)):
            f = far(run, kd, fam, max(1, int(m * k)), 8, 8, seed=11)
            f["consts"]["CloneOf"] = clone
            out.append(f)
    for fam in ("hash", "keyed"):
        f = xoodyak(run, fam, int(400 * k), 14)
        f["consts"].update(CloneOf=clone, Seed=run.seed + 11)
        out.append(f)
    for f in out:
        f.pop("replay")
        f["workers"], f["heap"] = 2, "3g"
    return out


def named(names, tool="x86_64", extra=()):
    return [T(nm + ("" if tool == "x86_64" else "@" + tool), tool, nm, extra) for nm in names.split()]


NAMED = named("reference reference32bits compact generic32 generic32lc generic64 generic64lc SSSE3 AVX AVX2 AVX2noAsm AVX512 AVX512noAsm")
NAMED_ARM = named("ARMv6", "armv6", ALIGNED) + named("ARMv7A ARMv7M", "armv7a", ALIGNED) + named("ARMv8A", "aarch64")
NAMED_MORE = named("ARMv6M", "armv6", ALIGNED) + named("reference32bits compact generic32", "i686") + named("generic64 reference", "aarch64") \
    + named("reference compact generic32", "armv7a", ALIGNED) + named("generic64 SSSE3 AVX2 AVX512", "clang") + named("generic64 AVX512", "native")


def merged(name, gens, *replays):
    return dict(name=name, gens=gens, replay=[dict(high=ALLHIGH, ops=ALLOPS, **r) for r in replays])


@plan("C27")
def c27(run):
    return dict(merged=[merged("mixed", families(run, n(run, 0.8, 12)), dict(targets=NAMED + NAMED_ARM + NAMED_MORE, driver=dict(args=["-i", "6"])))])


@plan("C23")
def c23(run):
    san = named("generic64 generic32 compact reference reference32bits SSSE3 AVX2noAsm AVX512noAsm", "asan")
    msan = named("generic64 generic32 compact reference reference32bits", "msan")
    modes = [dict(targets=NAMED + NAMED_ARM, tag=f" mode {m}", driver=dict(args=["-m", str(m)])) for m in n(run, (1, 2, 9), [1, 2] + list(range(8, 72)))]
    return dict(merged=[merged("memory", families(run, n(run, 0.4, 3)), dict(targets=san, tag=" asan"), dict(targets=msan, tag=" msan"), *modes)])


@plan("C24")
def c24(run):
    st = dict(args=["-s", "-i", "5"], build=dict(watch=True))
    tsan = named("generic64 generic32 compact SSSE3 AVX2noAsm AVX512noAsm", "tsan")
    shared = lambda style: dict(consts=dict(Threads="{1, 2}" if run.quick else "{1, 2, 3}", Slots="{1, 2}", MaxCalls=n(run, 3, 4), Style=f'"{style}"'), workers=2)

    def sensitive(run):
        """The two ways of breaking the property are seen by the invariants."""
        for style in ("build", "scratch"):
            for kw in (dict(invariants=["ResultOK"]), dict(properties=["Sealed"])):
                r = xk.tlc("MCShared", **shared(style), **kw)
                if r["ok"] or "violated" not in r["out"]:
                    raise xk.ToolError(f"MCShared does not see what is wrong with {style}")
    return dict(mc=[dict(module="MCShared", invariants=["ResultOK"], properties=["Sealed"], **shared(style)) for style in ("const", "store")], custom=[sensitive],
                merged=[merged("instances", families(run, n(run, 0.4, 4), clone=4),
                               dict(targets=NAMED, tag=" static data", driver=st),
                               dict(targets=NAMED + NAMED_ARM, tag=" interleaved", driver=dict(args=["-i", "40"])),
                               dict(targets=tsan, tag=" tsan", driver=dict(args=["-j", "4", "-i", "2"])),
                               dict(targets=NAMED, tag=" threads", driver=dict(args=["-j", "8"])))])


SCRIPTS = dict(keccak=21, kra=8, xof=8, xoodyak=3)


def scripts(fam, L):        # the lengths of SpongePRG are unsigned int
    return [k for k in range(1, SCRIPTS[fam] + 1) if (fam, k) != ("keccak", 14) or L < 32]


def streams(run):
    """The arithmetic of long strings: the TLA+ definitions of Streams against the Java operators, and against strings written out."""
    k = dict(consts=dict(Samples=n(run, 1, 6)), invariants=["Numbers"], workers=1)
    a, b = xk.must(xk.tlc("MCStreams", **k)), xk.must(xk.tlc("MCStreams", overrides=False, **k))
    vals = [[l for l in r["out"].splitlines() if l.startswith("<<")] for r in (a, b)]
    if len(vals[0]) < 4 or vals[0] != vals[1]:
        raise xk.ToolError("the TLA+ definitions of streams and the Java operators differ")
    run.log(f"TLC MCStreams: {len(vals[0])} groups of values agree between the TLA+ definitions and the Java operators, {b['wall']} s")
    run.mc.append({k: b[k] for k in ("module", "states", "transitions", "depth", "wall", "consts")})


@plan("C25")
def c25(run):
    fast, rest = named("AVX512"), named("generic64 AVX2 generic64lc SSSE3 AVX2noAsm AVX512noAsm AVX")
    more = named("reference compact generic32 generic32lc reference32bits")
    alone = threading.Lock()        # the deck functions one at a time: their strings take memory
    def rp(targets, fam):
        d = dict(alone=alone) if fam in ("kra", "xof") else {}
        return dict(targets=targets, high=ALLHIGH, ops=ALLOPS, driver=dict(args=["-j", "8"], seconds=n(run, 800, 7000), **d))
    out, st = [], []
    for fam, k in SCRIPTS.items():
        if run.quick:       # some scripts generated now, the others by an earlier thorough run
            m = 3 if fam == "keccak" else 1
            only = sorted({1 + ((run.seed * m + j) % k) for j in range(m)})
            out.append(huge(run, f"live.{fam}", fam, only, (29,), [rp(fast + rest[:2], fam)]))
        else:
            for L in (29, 30, 31, 32):
                out.append(huge(run, f"live.{fam}.{L}", fam, scripts(fam, L), (L,), [rp(fast + rest, fam)] + ([rp(more, fam)] if L == 29 else []), workers=8))
        for L in (29, 32):
            st.append(dict(name=f"stored.{fam}.{L}", file=f"vectors/{L}.{fam}.txt", replay=[rp(fast + rest[:1 if L == 32 else 2], fam)]))
    # the implementations of the permutation each have loops of their own over long strings
    for fam, only in (("keccak", (1,)), ("xoodyak", (1,))):
        st.append(dict(name=f"stored.{fam}.32.more", file=f"vectors/32.{fam}.txt", only=only, replay=[rp(rest[1:], fam)]))
        st.append(dict(name=f"stored.{fam}.29.more", file=f"vectors/29.{fam}.txt", only=only, replay=[rp(more, fam)]))
    return dict(gen=out, stored=st, custom=[streams] + ([] if run.quick else [same_vectors]))


def same_vectors(run):
    """The committed behaviours are those that TLC generates."""
    for fam, k in SCRIPTS.items():
        for L in (29, 32):
            g = huge(run, f"same.{fam}.{L}", fam, range(1, k + 1), (L,), [], workers=8)
            r, p = xk.generate("GenHuge", dict(g["consts"], Seed=1), HUGE, f"{run.pid}.{g['name']}", workers=8, con=False)
            a, b = (sorted(l for l in open(x).read().splitlines() if int(l.split(" ", 1)[0]) in scripts(fam, L)) for x in (p, f"{xk.VERIF}/vectors/{L}.{fam}.txt"))
            if a != b:
                raise xk.ToolError(f"vectors/{L}.{fam}.txt is not what TLC generates")


SA = "Standalone/CompactFIPS202/"
COMPACT_C = [T(f"{nm}@{tool}", tool, "", extra, [SA + "C/" + src]) for nm, src, extra in
             (("readable", "Keccak-readable-and-compact.c", ["-DSHORT_LENGTHS"]), ("more-compact", "Keccak-more-compact.c", []),
              ("readable-LE", "Keccak-readable-and-compact.c", ["-DSHORT_LENGTHS", "-DLITTLE_ENDIAN", "-fno-strict-aliasing"]))
             for tool in ("x86_64", "clang", "i686", "aarch64", "asan", "msan") if (nm, tool) != ("readable-LE", "aarch64")]
TWEET_C = [T(f"tweetable@{tool}", tool, "", (), [SA + "C/TweetableFIPS202.c"]) for tool in ("x86_64", "clang", "i686", "aarch64", "asan", "msan")]
PYTHONS = [xk.Program("Python", "python", SA + "Python/CompactFIPS202.py"), xk.Program("Python numpy", "python", SA + "Python/CompactFIPS202_numpy.py")]
RUST = [xk.Program("Rust", "rust", "Standalone/KangarooTwelve/Rust/k12.rs")]


@plan("C26")
def c26(run):
    def g(what, behaviors, steps, *targets):
        return gen(run, what, "GenCompact", "CoChoose", "CoApply", "CoInv", behaviors, steps, 1,
                   [dict(targets=t, high="", ops=o) for t, o in targets], What=f'"{what}"', Chunk=8192, Lane=8)
    return dict(
        mc=[dict(module="MCCompact", consts=dict(SymWidth=n(run, 4, 6), Chunk=n(run, 3, 5), Lane=1, MaxM=n(run, 14, 30), MaxO=n(run, 9, 15), MaxC=n(run, 11, 21),
                                                 Delims="{1, 6, 31, 128, 139, 255}"), subst=SYM, invariants=["Agrees"], workers=4)],
        gen=[g("keccak", n(run, 900, 12000), 3, (COMPACT_C, "compact"), (PYTHONS, "")),
             g("fn", n(run, 700, 9000), 3, (COMPACT_C, "compact"), (TWEET_C, "tweet"), (PYTHONS, "")),
             g("k12", n(run, 500, 6000), 2, (RUST, "")),
             huge(run, "long", "co", (1, 3), n(run, (11, 16, 20), (12, 17, 20, 22, 24, 27)), [dict(targets=COMPACT_C, high="", ops="compact")]),
             huge(run, "long fn", "co", (2, 4), n(run, (11, 16, 20), (12, 17, 20, 22, 24, 27)), [dict(targets=TWEET_C, high="", ops="tweet"), dict(targets=COMPACT_C, high="", ops="compact")]),
             huge(run, "long Python", "co", (1, 2, 3, 4), n(run, (10, 16), (12, 17, 20)), [dict(targets=PYTHONS, high="", ops="")]),
             huge(run, "long Rust", "co", (5, 6, 7), n(run, (11, 16, 21), (12, 17, 20, 22, 24)), [dict(targets=RUST, high="", ops="")])])


def ksum(targets):
    return [xk.Program(f"KeccakSum {t.name}", "ksum", target=t, high="KeccakSum") for t in targets]


@plan("C28")
def c28(run):
    def g(what, behaviors, steps, targets):
        return gen(run, what, "GenKSum", "KsChoose", "KsApply", "KsInv", behaviors, steps, 1, [dict(targets=targets, high="", ops="")],
                   clone=0, What=f'"{what}"', Chunk=8192, Lane=8)
    san = named("generic64", "asan") + named("generic64", "msan")
    mc = dict(module="MCKSum", consts=dict(SymWidth=4, Chunk=3, Lane=1, MaxArgs=n(run, 4, 5), Bits="{8, 24}", Blks="{8, 64}", MaxDigest=n(run, 4, 5),
                                           ByteVals="{0, 1, 63, 128, 191, 255}"), subst=SYM, invariants=["Denotes", "Readable"], workers=4)
    return dict(mc=[mc], gen=[g("c", n(run, 900, 6000), n(run, 14, 30), ksum(NAMED + NAMED_ARM + san)),
                     g("py", n(run, 240, 1600), n(run, 8, 16), [xk.Program("KeccakSum.py", "pysum", SA + "Python/KeccakSum.py")])])


META = {}
NA = {}
