"""What is explored for each property: worlds from TLC families, generators, and how answers are judged."""
from dataclasses import dataclass

import gen, labs, profiles, rename, tweak


@dataclass
class Camp:
    kind: str            # prof | lab | fam | sched (schedules of Cache.tla)
    name: str
    mode: str = "agree"
    quick: int = 0       # worlds in the quick tier (prof, lab); for fam 1 = in the quick tier
    thorough: int = 1    # rounds share of the thorough tier (prof, lab); fam: 1
    spec: float = 0.15   # share of the worlds on which the statement of Props.tla is evaluated too
    nres: int = 2
    side: float = 0.03
    blend: float = 0.2   # share of the worlds of a profile that have some features of the others too


def prof(name, n, mode="agree", **k):
    return Camp("prof", name, mode, n, **k)


def lab(name, n, mode="agree", **k):
    return Camp("lab", name, mode, n, **k)


def fam(name, mode="agree", quick=1, **k):
    k.setdefault("spec", 1.0)
    return Camp("fam", name, mode, quick, **k)


def sched(name, n):
    """Schedules that TLC enumerates: a sample of n in the quick tier, all (at most 150000) in the thorough one; n = 0: thorough only."""
    return Camp("sched", name, "exact", n, spec=0)


PLAN = {
    "C01": [fam("links", "file"), fam("forms", "file"), prof("C01", 4000, "file"), prof("C04", 600, "file"), prof("C10", 600, "file"), prof("ALL", 1500, "file"), lab("linkcopy", 600, "file"), lab("moving", 1000, "file", spec=0), lab("moving", 400, "agree", spec=0), lab("retarget", 1000, "agree", spec=0), lab("bytes_", 500, "file", spec=0)],
    "C02": [fam("knot", "total", spec=0), lab("knots", 4000, "total", spec=0), lab("junk", 6000, "total", spec=0), prof("C02", 8000, "total", spec=0), prof("ALL", 4000, "total", spec=0), lab("condlab", 1500, "total", spec=0),
            lab("maplab", 1500, "total", spec=0), prof("C23", 2000, "total", spec=0), lab("smallfresh", 400, "total", spec=0), lab("forest", 60, "total", spec=0), lab("deep", 300, "total", spec=0), fam("forms5", "total", spec=0), fam("inside", "total", spec=0)],
    "C03": [fam("forms"), fam("ts"), prof("C03", 4500, spec=0.06)],
    "C04": [fam("ext"), prof("C04", 4500), lab("bytes_", 800, spec=0)],
    "C05": [fam("main"), lab("mainchain", 250, spec=0), lab("forks", 150, spec=0), prof("C05", 4500)],
    "C06": [fam("nm"), prof("C06", 4500, spec=0.08)],
    "C07": [fam("exports"), prof("C07", 4500)],
    "C08": [fam("keys"), fam("ikeys"), fam("keys3", quick=0), fam("ikeys3", quick=0), lab("maplab", 5000)],
    "C09": [fam("conds"), lab("condlab", 8000)],
    "C10": [fam("inside"), fam("inside5", quick=0), prof("C10", 4500), lab("maplab", 1000)],
    "C11": [fam("imports"), lab("importschain", 250, spec=0), fam("ikeys"), prof("C11", 4500)],
    "C12": [fam("alias"), lab("aliaschain", 250, spec=0), lab("forks", 250, spec=0), prof("C12", 4500, spec=0.08)],
    "C13": [fam("browser"), lab("browserchain", 250, spec=0), prof("C13", 4500, spec=0.08)],
    "C14": [fam("beside", "same", spec=0.2), lab("prefer", 3000, "same"), prof("C14", 3000)],
    "C15": [fam("ts"), fam("ts3", quick=0), prof("C15", 4500, spec=0.08), lab("bytes_", 300, spec=0)],
    "C16": [fam("desc", "exact"), fam("effects", "exact"), prof("C16", 4500, "exact", side=0.4)],
    "C17": [fam("lives", "same", spec=0), fam("marks", "same", spec=0), fam("lives12", "same", quick=0, spec=0), lab("smallfresh", 2500, "same", spec=0), lab("fresh", 1200, "same", spec=0), lab("moving", 1500, "same", spec=0), lab("smallfresh", 600, "agree", spec=0), lab("moving", 600, "agree", spec=0), lab("retarget", 1000, "agree", spec=0), lab("retarget", 800, "same", spec=0)],
    "C18": [fam("orders", "same", spec=0), fam("orders8", "same", quick=0, spec=0), lab("smallhistory", 3500, "same", spec=0), lab("history", 3000, "same", spec=0), lab("smallhistory", 600, "agree", spec=0)],
    "C19": [fam("shares", "same", spec=0), fam("shares8", "same", quick=0, spec=0), lab("smallshared", 3500, "same", spec=0), lab("shared", 3000, "same", spec=0), lab("smallshared", 600, "agree", spec=0)],
    "C21": [fam("desc", "message"), fam("exports", "message"), fam("imports", "message"), fam("conds", "message"), fam("forms", "message"), fam("ikeys", "message"), fam("keys", "message"), prof("C21", 4500, "message"), prof("C16", 800, "message"), lab("condlab", 800, "message")],
    "C22": [fam("links"), prof("C22", 3000), lab("linkcopy", 4000, "copy", spec=0), lab("linkcopy", 600), lab("normal", 1500, spec=0), lab("retarget", 500, spec=0), lab("bytes_", 300, spec=0)],
    "C23": [fam("forms"), prof("C23", 4500), lab("drives", 500, spec=0)],
    "C27": [fam("bare"), lab("defaults", 3000, spec=0)],
    "C24": [fam("desc"), lab("deepdf", 1500, spec=0), prof("C24", 4500, side=0.4)],
    "C20": [sched("two", 16000), sched("turns", 16000), sched("third", 0), lab("race", 5000, "exact", spec=0), lab("crowd", 1500, "exact", spec=0), lab("stress", 700, "exact", spec=0), lab("hammer", 600, "exact", spec=0)],
    "C26": [fam("norm", "helper"), lab("normal", 2000, "helper"), prof("ALL", 3000, "helper", spec=0), prof("C03", 1500, "helper", spec=0), lab("bytes_", 400, "helper", spec=0)],
    "C25": [fam("additions", "same", spec=0.08), lab("pairs", 5000, "same", spec=0.06)],
}


def scenarios(camp, prop, r, n):
    if camp.kind == "prof":
        f = gen.ALL if camp.name == "ALL" else profiles.PR[camp.name]
        scs = [gen.world(r, profiles.blend(r, f) if i >= n * camp.spec and r.random() < camp.blend else f, f"{camp.name}-{i}", nres=r.randint(1, camp.nres), side=camp.side) for i in range(n)]
    else:
        scs = [getattr(labs, camp.name)(r, f"{camp.name}-{i}") for i in range(n)]
    names = rename.NAMES if camp.kind == "prof" else rename.PLAIN
    scs = [tweak.padded(r, s) if r.random() < 0.05 else s for s in scs]
    return [rename.renamed(r, s, rename.STARS if camp.name == "C15" and r.random() < 0.3 else names) if r.random() < 0.2 else s for s in scs]


SPECIAL = {}         # property -> a further part of its check, judged in another way
