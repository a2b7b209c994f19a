"""Which worlds each property is judged on.  Profiles keep unrelated features out, so that a property
is not blamed for a change elsewhere."""
from gen import *

PR = {}


def blend(r, f):
    """The profile with some features that it leaves out: those met on the way to the property, or after it."""
    return P({**f, **{k: max(f[k], ALL[k]) for k in ALL if r.random() < 0.35}, "oddopt": 0.15})

rich = dict(ALL)

PR["C01"] = P({**rich, "vialink": 0.2, "links": 0.7, "osym": 0.45, "messy": 0.35, "odddir": 0.7, "ots": 0.1, "badjson": 0.0, "badmap": 0.0, "nm": 1.0})
PR["C02"] = P({**rich, "junk": 0.15, "badjson": 0.05, "badmap": 0.12, "nullmap": 0.1, "badts": 0.35, "ots": 0.3, "extends": 0.6, "oalias": 0.5, "links": 0.3, "badse": 0.4, "se": 0.3})
PR["C03"] = prof(qfkey=0.35, qf=0.85, main2=0.1, bf=0.3, obf=0.3, exports=0.15, imports=0.25, internal=0.15, oalias=0.3, opr=0.25, ots=0.25, nm=0.9, filemod=0.2, bare=0.4, cond=0.05, junk=0.05, plain=0.1)
PR["C04"] = prof(nm=0.3, bare=0.15, oext=0.85, oenf=0.5, pkgjson=0.3, main=0.3, filemod=0.3, absolute=0.1, qf=0.05)
PR["C05"] = prof(maindir=0.35, badjson=0.07, pkgjson=0.85, main=0.9, main2=0.4, omf=0.5, omfd=0.6, oext=0.3, nested=0.6, junkmain=0.25, bare=0.3, junk=0.05, odddir=0.2, deepnm=0.2, qf=0.03)
PR["C06"] = prof(nmnm=0.12, nm=2.0, bare=0.85, filemod=0.25, deepnm=0.6, pkgjson=0.4, main=0.3, exports=0.18, nested=0.3, odddir=0.4, oext=0.2, absolute=0.02, qf=0.03, messy=0.1)
PR["C07"] = prof(nm=1.3, exports=0.8, pkgjson=0.9, name=0.8, main=0.4, selfref=0.2, bare=0.6, nested=0.5, ocond=0.4, cond=0.15, arr=0.15, nullmap=0.06, badtarget=0.05, deepnm=0.3, messy=0.08, qf=0.03, oext=0.15)
PR["C10"] = prof(nm=1.3, exports=0.7, imports=0.7, pkgjson=0.95, badtarget=0.55, bare=0.45, internal=0.35, messy=0.5, qf=0.0, ocond=0.2, arr=0.25, selfref=0.1, osym=0.3)
PR["C11"] = prof(nm=1.1, imports=0.85, pkgjson=0.9, exports=0.25, internal=0.75, bare=0.1, cond=0.15, arr=0.15, nullmap=0.06, badtarget=0.08, deepnm=0.3, nested=0.5, ocond=0.3, messy=0.08, qf=0.05)
PR["C12"] = prof(again=0.12, nm=1.2, oalias=1.0, bare=0.45, exports=0.08, internal=0.03, imports=0.1, opr=0.1, filemod=0.3, deepnm=0.3, absolute=0.08, qf=0.05, plain=0.05)
PR["C13"] = prof(again=0.12, nm=1.1, bf=0.9, obf=0.92, pkgjson=0.95, main=0.5, omfd=0.2, bare=0.4, exports=0.08, imports=0.15, internal=0.08, oalias=0.2, ots=0.06, nested=0.5, deepnm=0.2, oext=0.2, messy=0.1, qf=0.03, omf=0.2)
PR["C14"] = prof(nm=1.0, bare=0.5, plain=0.25, oext=0.2, exports=0.15, imports=0.2, internal=0.1, oalias=0.2, bf=0.2, obf=0.3, absolute=0.06, selfref=0.05, junk=0.1, qf=0.1)
PR["C15"] = prof(style=0.35, again=0.12, nm=1.0, ots=1.0, badts=0.08, extends=0.35, bare=0.45, plain=0.25, oext=0.1, exports=0.1, qf=0.08, oalias=0.1, opr=0.05, filemod=0.2)
PR["C16"] = prof(nm=1.0, se=0.8, badse=0.3, badjson=0.12, badmap=0.15, exports=0.2, imports=0.2, pkgjson=0.8, nested=0.6, links=0.2, odddir=0.6, bare=0.4, deepnm=0.3)
PR["C21"] = P({**rich, "again": 0.25, "badmap": 0.1, "badjson": 0.06, "qf": 0.25, "oalias": 0.3, "opr": 0.25, "ots": 0.1, "nullmap": 0.1, "exports": 0.4, "imports": 0.4, "badts": 0.3})
PR["C22"] = prof(vialink=0.3, nm=1.2, links=1.0, bare=0.45, osym=0.3, main=0.4, exports=0.12, odddir=0.5, messy=0.3, deepnm=0.4, oext=0.1)
PR["C23"] = prof(nm=1.0, junk=0.25, plain=0.2, absolute=0.2, bare=0.3, odddir=0.9, messy=0.35, pkgjson=0.4, main=0.2, imports=0.2, internal=0.08, qf=0.08, filemod=0.3, opr=0.1)
PR["C24"] = prof(nm=1.1, df=0.6, odf=0.9, pkgjson=0.9, main=0.6, exports=0.25, imports=0.2, bf=0.25, obf=0.4, se=0.4, bare=0.45, internal=0.08, selfref=0.08, nested=0.5, absolute=0.1)
