"""Specifications checked by TLC on their own, before any code is run."""
import judge


def tlc(module, cfg, what, env=None, thorough=False, broken=None):
    """A model that must hold, or, with `broken`, a faulty design of it in which TLC must find that invariant violated."""
    def go(rep):
        if thorough and rep.tier != "thorough":
            return
        rc, text = judge.tlc(module, cfg=cfg, env=env or {}, timeout=800)
        gen, dist = judge.states(text)
        if broken:
            if f"Invariant {broken} is violated" not in text:
                raise judge.ToolError(f"{module} {env}: TLC finds no fault in a faulty design\n" + text[-2000:])
        elif rc:
            raise judge.SpecError(f"{module} {env}: " + text[-3000:])
        rep.states, rep.transitions = rep.states + dist, rep.transitions + gen
        rep.parts.append({"part": f"model {module}", "what": what, **(env or {}), "states": dist, "transitions": gen, "exhaustive": not broken})
    return go


def cache(setup, thorough=False):
    return tlc("Cache", "CacheMC.cfg", "calls answer from a tree during them; what is remembered is not newer than it looks; all calls return", {"VP_SETUP": setup}, thorough)


def faulty(variant, setup, invariant):
    return tlc("Cache", "CacheMC.cfg", "a faulty design, rejected", {"VP_SETUP": setup, "VP_VARIANT": variant}, broken=invariant)


SEARCH = "the search through rewrites ends within its bounds, whatever leads to what"
KEYS = "the walk down the tree of keys finds the key that FindKey names"

MODELS = {
    "C02": [tlc("Search", "Search.cfg", SEARCH, {"VP_SETUP": "small"}), tlc("Search", "Search.cfg", SEARCH, {"VP_SETUP": "wide"}),
            tlc("Search", "Search.cfg", SEARCH, {"VP_SETUP": "deep"}, True)]
           + [tlc("Search", "Search.cfg", "a faulty design, rejected", {"VP_SETUP": "small", "VP_VARIANT": v}, broken="Bounded") for v in ("goon", "nobudget")],
    "C08": [tlc("KeySearch", "KeySearch.cfg", KEYS), tlc("KeySearch", "KeySearchEnds.cfg", KEYS + " and ends"),
            tlc("KeySearch", "KeySearchFour.cfg", KEYS, thorough=True)],
    "C20": [cache("small"), cache("mixed"), cache("deep", True), cache("names", True),
            faulty("readfirst", "small", "Remembered"), faulty("older", "small", "Linear"), faulty("anyname", "mixed", "Linear")],
}


def run(rep):
    for m in MODELS.get(rep.prop, []):
        m(rep)
    return True
