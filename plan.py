"""Which scenarios decide which property, and within which bounds."""
from dataclasses import dataclass, field, replace

NI = 64
LEVEL = "other"
SHADOW_VEC = ["cache/internal.rs"]
HARNESS_MODULES = ["world", "sworld", "hist", "util", "real", "ready", "blue", "doc", "text", "rt", "proofs"]


@dataclass
class Cfg:
    name: str
    features: list = field(default_factory=list)
    vstd: list = field(default_factory=list)
    model: bool = True
    nofmt: bool = False
    fmtmodel: bool = False


CFG = {c.name: c for c in [
    Cfg("base"),
    Cfg("n4", ["n4"], ["cap4"]),
    Cfg("count", ["count"]),
    Cfg("mutbox", ["mutbox"]),
    Cfg("bomb", ["bomb"]),
    Cfg("diag", ["diag"], nofmt=True),
    Cfg("doc", ["diag", "doc", "mutbox"], nofmt=True),
    Cfg("reg", [], ["reg"]),
    Cfg("regm", ["mutbox"], ["reg"]),
    Cfg("uns", ["unsized"]),
    Cfg("text", ["diag", "doc"], ["fmt_model"], nofmt=True, fmtmodel=True),
]}


@dataclass
class Sc:
    name: str
    cfg: str = "base"
    est: int = 30
    unwind: int = 5
    inner: int = 4
    rec: int = 0
    timeout: int = 800
    panic_only: bool = False
    bounds: str = ""
    hints: tuple = ()


def S(names, cfg="base", **k):
    return [Sc(n, cfg, **k) for n in names.split()]


GCH = ((r"::invalidate_by_id\.2$", 2), (r"::garbage_collection\.0$", 4), (r"::collect_leaf_builders\.0$", 4))
GC1H = ((r"::invalidate_by_id\.2$", 5), (r"::garbage_collection\.0$", 2), (r"::collect_leaf_builders\.0$", 2))
GCS = S("gc1_2", hints=GCH, est=110) + S("gc2_inv gc2_purge gc2_cart", hints=GC1H, est=70)
GCT = S("gc2_dynm gc2_call", hints=GC1H, est=70) + S("gc1_1", hints=GCH, est=100) + S("gc_5", hints=GC1H, est=160) + S("gc_3", hints=GC1H, est=500)
P = {
    "P01": S("h1_inv h1_purge h1_dynm h1_cart h1_call h1_gc h1_dyn h1t_purge h2_inv_inv h2_purge_inv_2 acc_inv"),
    "P02": S("h1_inv h1_purge h1_dynm h1d_inv h1t_inv h1m_inv h1k_inv_1 h1k_inv_2 h2_inv_inv h2_purge_inv h2_inv_purge h2_inv_dynm"),
    "P03": S("h1_inv h1_purge h1_dynm h1d_purge h1t_inv h1m_purge h2_inv_inv h2_inv_inv_2 h2_purge_purge h2_dynm_inv h2_inv_gc_2"),
    "P04": S("h1_lookm h1_getm h2_lookm_inv h2_inv_lookm h2_lookm_gc h2_purge_getm h0_lookm_gc", "mutbox"),
    "P05": S("s1_dynm_inv s1_inv_purge s1_purge_dynm s1_cart_call s1_dyn_cart s1_gc_inv s0_dynm_purge s0_purge_gc s0_dynm_call"),
    "P06": S("t1_dynm t1_purge t1_inv t1_cart t1_call t2_dynm_dynm t2_inv_dynm t2_dynm_purge"),
    "P07": S("fail_1 h1_inv h1_dynm h2_inv_inv h2_purge_inv_2"),
    "P08": S("h2_purge_gc h2_inv_gc h2_cart_gc h2_call_gc h2_dynm_gc h2_cart_inv h2_call_inv h0_inv_gc h0_purge_gc h0_dyn_purge h0_look fail_1", panic_only=True),
    "P09": GCS,
    "P10": GCS,
    "P11": S("reuse_purge reuse_call reuse_inv", "count") + S("reuse_gc", "count", hints=GC1H, est=80),
    "P12": S("h1_inv h1_purge h1_dynm h1_call h1_gc h0_inv_gc h0_purge_gc h0_dyn_purge h2_purge_inv_2"),
    "P13": S("h1_look h1_dyn h0_look h1_gc acc_inv"),
    "P14": S("acc_inv acc_purge h1k_inv_1 h1k_inv_2 h1_look"),
    "P15": S("h1_cart h1_call h2_cart_inv h2_call_inv h2_cart_gc h2_call_gc"),
    "P16": S("h1_inv h1_purge h1_dynm h1_cart h1_call h1_gc h1_lookm h1k_inv_1 h1k_inv_2 h1t_inv h2_inv_inv_2 h0_inv_gc", "doc"),
    "P22": S("text_1 vis_1", "text", inner=24, unwind=10),
    "P17": S("h1_inv h1_purge h1_dynm h1_cart h1_call h2_purge_gc h2_inv_inv h2_inv_inv_2", "diag"),
    "P18": S("can_rc_v can_rc_z can_rc_w can_arc_v can_arc_z can_arc_w can_box_v can_box_z can_box_w"),
    "P19": S("r_rc_inv_l1 r_rc_inv_l3 r_rc_inv_m1 r_rc_inv_d0 r_rc_inv_d3 r_rc_purge_l1 r_rc_purge_m1 r_rc_purge_d0 r_rc_purge_d1 r_rc_purge_d2 r_rc_dynm_m1 r_rc_dynm_m2 r_rc_dynm_d0 r_rc_dynm_d1 r_rc_dynm_d3 r_arc_inv_l1 r_arc_inv_l3 r_arc_inv_m1 r_arc_purge_l1 r_arc_purge_m1 r_arc_dynm_m1 r_arc_dynm_m2", "reg", est=20) + S("r_box_inv_l1 r_box_inv_m4 r_box_purge_d1 r_box_purge_l3 r_box_purge_l4 r_box_dynm_d2 r_box_dynm_m1 r_box_lookm_l1 r_box_lookm_d1  r_box_getm_m3 r_box_getm_d1", "regm", est=20),
    "P20": S("u_fwd_inv u_fwd_pur u_cln_inv u_fgn_inv u_red_inv u_red_pur u_red_inp u_const u_conf u_fun"),
    "P23": S("bp_rc_v bp_rc_z bp_arc_v bp_arc_z bp_dyn_v bp_dyn_z bp_uns_v0 bp_uns_v1 bp_uns_v2 bp_uns_v3 bp_uns_v4 bp_uns_v5 bp_uns_v6 bp_uns_z0 bp_uns_z1 bp_uns_z3 bp_uns_z6 bp_art", "uns"),
    "P24": S("hnd_rc hnd_arc hnd_boxed", "diag"),
    "P25": S("p1_inv_2 p1_inv_1 p1_purge_2 p1_purge_1 p1_purge_0 p1_dynm_0 p2_inv_2 p2_inv_1 p2_inv_0", "bomb", rec=8, est=60) + S("p1_gc_1 p1_gc_2", "bomb", rec=8, hints=GCH, est=80),
    "P21": S("h1_inv h1_purge h1_dynm h1_call h1_cart h2_purge_inv h2_inv_gc s1_dynm_inv s1_purge_dynm s1_cart_call", "count"),
}


# What a thorough run adds.
X = {
    "P01": S("acc_purge h2_inv_inv_2 h2_purge_inv h2_dynm_inv h2_cart_inv h2_call_inv h3_inv h3_ipd", est=60),
    "P02": S("h1d_purge h2_purge_purge h2_dynm_inv h2_cart_inv h2_call_inv h2_purge_inv_2 h2_inv_inv_2 h3_inv h3_ipd h3_pgi h3_gip", est=60) + S("h1_inv h1_purge h2_inv_inv", "n4", est=300),
    "P03": S("h1d_inv h2_inv_purge h2_purge_inv h2_inv_dynm h2_cart_inv h2_purge_inv_2 h3_inv h3_ipd h3_pgi h3_gip", est=60) + S("h1_inv h1_purge h2_inv_inv", "n4", est=300),
    "P04": S("h2_getm_getm", "mutbox", est=320),
    "P07": S("h2_inv_inv_2 h2_dynm_inv h2_cart_inv h3_inv", est=60),
    "P08": S("h1_inv h1_purge h1_dynm h2_inv_gc_2 h3_pgi h3_gip h3_ipd", est=60, panic_only=True),
    "P09": GCT, "P10": GCT,
    "P12": S("h2_purge_purge h2_inv_inv h3_ipd h3_pgi h3_gip", est=60) + GCS + GCT,
    "P13": S("h0_inv_gc acc_purge", est=60),
    "P15": S("h1_inv", est=60),
    "P16": S("h1_inv h1_purge h1_dynm h1_cart h1_call h1_gc h1_lookm h1k_inv_1 h1k_inv_2 h2_inv_inv_2 h0_inv_gc", "doc"),
    "P17": S("h2_inv_inv_2 h2_purge_inv h1_gc h2_inv_gc", "diag", est=60),
    "P19": S("r_box_getm_l1 r_box_getm_l4", "regm", est=200),
    "P25": S("p1_inv_0 p1_dynm_1 p1_dynm_2 p2_purge_0 p2_purge_1 p2_purge_2 p2_dynm_0 p2_dynm_1 p2_dynm_2", "bomb", rec=8, est=60) + S("p1_gc_0 p2_gc_1", "bomb", rec=8, hints=GCH, est=120),
    "P21": S("h2_inv_inv h2_dynm_inv h2_cart_inv h2_call_inv", "count", est=60),
}


def scenarios(prop, tier):
    r = list(P[prop])
    if tier == "thorough":
        have = {(s.name, s.cfg) for s in r}
        r += [replace(s, timeout=6000) for s in X.get(prop, []) if (s.name, s.cfg) not in have]
    return r


UNW = " Loop bounds are checked by unwinding assertions, never assumed."
BOUNDS = ("Bounds: 3 builders (4 where the configuration says n4) whose dependencies form an arbitrary, solver-chosen acyclic graph "
          "that may change from build to build, with arbitrary failures; histories of 1 to 3 requests and 1 to 3 other operations in the order the "
          "scenario name gives, on solver-chosen builders; every iteration order of every hash map and set." + UNW)
STATES = ("Bounds: 3 builders in a solver-chosen acyclic graph that may change from build to build, with solver-chosen 8-bit states and failures; "
          "histories of 2 or 3 requests with one or two other operations and state accesses in between; every iteration order of every hash map and set." + UNW)
PER = {
    "P05": STATES, "P06": STATES,
    "P18": "Bounds: one value in a can at a time (with a solver-chosen 8-bit field, zero-sized, or of two fields), up to three strong and two weak references, dropped in a solver-chosen order." + UNW,
    "P19": ("Bounds: two builders, one possibly depending on the other, behind real Rc, Arc and Box cans; one operation of the kind and through the kind of blueprint the scenario "
            "name gives, then a request; what is shared, kept and dropped is compared. What the builders do is fixed per scenario, too; values are solver-chosen." + UNW),
    "P20": "Bounds: one utility builder around one inner builder with solver-chosen artifacts, failures and states; three requests with one operation of the kind the scenario name gives before each but the first." + UNW,
    "P22": "Bounds: 4 solver-chosen events on 2 builders and 2 artifacts, every combination of options, Debug texts of one solver-chosen character, with std::fmt replaced by a model that classifies what is written." + UNW,
    "P23": "Bounds: two builders of one type (with a solver-chosen field, or zero-sized), up to four blueprints of one of them made by every conversion there is, dropped in a solver-chosen order." + UNW,
    "P25": ("Bounds: 3 builders in a solver-chosen acyclic graph that may change from build to build, with solver-chosen failures; one build, the builder given by the scenario, panics after "
            "having resolved any choice of its dependencies, in the first or second request; then one operation on a solver-chosen builder and another request. What follows the panic is executed at the point of "
            "the panic, on the cache as it is there; a replay unwinds." + UNW),
    "P24": "Bounds: two builders and their artifacts, with Rc, Arc and Box cans, their handles compared and hashed pairwise; builders and artifacts are solver-chosen." + UNW,
}


def bounds(prop):
    return PER.get(prop, BOUNDS)


def explain(prop):
    return ("Every scenario is a program over the real crate: /repo/src is copied on each run, compiled by Kani to a goto program with MIR "
            "inlining, and decided by CBMC with a SAT solver for all values of the symbolic inputs. A check is a reachability goal of the "
            "negated property; UNSAT for all of them, for every panic site of the crate, for every model limit and for every unwinding assertion "
            "means the scenario is discharged. Witness goals that must be reachable guard against vacuity. Counterexamples are replayed against "
            "the unmodified crate with the real standard library before they are reported. " + bounds(prop))


def level_note(prop):
    return ("Bounded: the solver's verdict over all values within the bounds; nothing is claimed outside. " + bounds(prop) +
            " Trusted: Kani's MIR-to-goto translation and CBMC; the bounded model of std's HashMap/HashSet/Vec (vstd/), "
            "which over-approximates iteration order and reports anything outside its limits as inconclusive; the reference model in harness/src.")


ASSUMPTIONS = [
    "Dependencies are acyclic (daab documents cycles as unsupported) and builders do not unwind (except in P25).",
    "std's HashMap, HashSet and Vec behave as the model in vstd/ (map semantics, arbitrary iteration order, no allocation failure).",
    "Builder identity is an address; distinct live builders have distinct addresses.",
    "The artifact and builder cans are the harness's own implementations of the Can traits, except where the scenario says otherwise; they obey the traits' contracts.",
    "Kani's translation from MIR and CBMC's symbolic execution and SAT solving are correct.",
]
