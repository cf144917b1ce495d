"""Prover jobs: name -> (module, function, args); PROPS: property -> jobs and which obligations of a job count for it."""
POLY = ["CP", "LeP", "LaP", "HoPpro", "HoPphy"]
ELM = ["ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish", "ELMReLU"]
JOBS = {}
for f in POLY:
    JOBS["c.poly_hint." + f] = ("cbf", "poly_hint", [f])
    JOBS["c.poly_rd." + f] = ("cbf", "poly_rd", [f])
JOBS["c.fs_hint"] = ("cbf", "fs_hint", ["FS"])
for f in ELM:
    JOBS["c.elm_hint." + f] = ("cbf", "elm_hint", [f])
JOBS["c.basis_H"] = ("cbf", "basis_H", [])
JOBS["c.basis_xla"] = ("cbf", "basis_xla", [])
for f in ELM:
    JOBS["c.nelm_hint.n" + f] = ("cbf", "nelm_hint", ["n" + f])
JOBS["c.nelm_nhint"] = ("cbf", "nelm_nhint", [])
JOBS["c.nbasis_H"] = ("cbf", "nbasis_H", [])
JOBS["c.nbasis_xla"] = ("cbf", "nbasis_xla", [])
for d in (1, 2, 3, 4):
    JOBS[f"c.nbasis_num.{d}"] = ("cbf", "nbasis_num", [d])
    JOBS[f"c.nbasis_rec.{d}"] = ("cbf", "nbasis_rec", [d])
    JOBS[f"c.nbasis_nhint.{d}"] = ("cbf", "nbasis_nhint", [d])
JOBS["c.accessors.ELM"] = ("cbf", "accessors", ["ELM"])
JOBS["c.accessors.nELM"] = ("cbf", "accessors", ["nELM"])
for f in POLY + ["FS"] + ELM:
    JOBS["c.ctor." + f] = ("cbf", "ctor", [f])
for f in ["CP", "LeP", "FS"] + ELM:
    for d in (1, 2, 3):
        JOBS[f"c.nd_ctor.n{f}.{d}"] = ("cbf", "nd_ctor", ["n" + f, d])
JOBS["c.xla_wrapper"] = ("cbf", "xla_wrapper", [])

for f in POLY:
    JOBS["py.poly_hint." + f] = ("cpy", "poly_hint", [f])
JOBS["py.fs_hint"] = ("cpy", "fs_hint", [])
for f in ELM:
    JOBS["py.elm_hint." + f] = ("cpy", "elm_hint", [f])
for f in POLY + ["FS"] + ELM:
    JOBS["py.basis_H." + f] = ("cpy", "basis_H", [f])
JOBS["py.elm_state.ELM"] = ("cpy", "elm_state", ["ELMSin", [0]])
JOBS["py.elm_state.nELM"] = ("cpy", "elm_state", ["nELMSin", [1, 2, 3]])
for f in ELM:
    for d in (1, 2, 3, 4):
        JOBS[f"py.nelm_hint.n{f}.{d}"] = ("cpy", "nelm_hint", ["n" + f, d])
for d in (1, 2, 3):
    JOBS[f"py.nelm_H.{d}"] = ("cpy", "nelm_H", [d])
for d in (1, 2, 3, 4):
    JOBS[f"py.ntp_num.{d}"] = ("cpy", "ntp_num", [d])
    JOBS[f"py.ntp_H.nCP.{d}"] = ("cpy", "ntp_H", ["nCP", d])
for f in ("nLeP", "nFS"):
    for d in (1, 2, 3):
        JOBS[f"py.ntp_H.{f}.{d}"] = ("cpy", "ntp_H", [f, d])

UB = ["CP", "LeP", "FS"] + ELM
for f in UB:
    JOBS["py.utfc_init." + f] = ("cjax", "utfc_init", [f])
    JOBS[f"py.mtfc_init.{f}.2"] = ("cjax", "mtfc_init", [f, 2])
for f in ("CP", "FS", "ELMSin"):
    for d in (1, 3):
        JOBS[f"py.mtfc_init.{f}.{d}"] = ("cjax", "mtfc_init", [f, d])
for nm in ("utfc_methods", "utfc_jvp", "utfc_lower", "hybrid"):
    JOBS["py." + nm] = ("cjax", nm, [])
for nm in ("mtfc_methods", "mtfc_jvp", "mtfc_lower"):
    for d in (1, 2, 3):
        JOBS[f"py.{nm}.{d}"] = ("cjax", nm, [d])
UINIT = [j for j in JOBS if j.startswith("py.utfc_init")]
MINIT = [j for j in JOBS if j.startswith("py.mtfc_init")]

for f in ("TFCDict", "TFCDictRobust"):
    for nm in ("d_init", "d_flat", "d_update", "d_tree"):
        JOBS[f"py.{nm}.{f}"] = ("cdict", nm, [f])
    for op in ("__add__", "__sub__", "__iadd__", "__isub__"):
        JOBS[f"py.d_arith.{f}.{op}"] = ("cdict", "d_arith", [f, op])

for kind in ("arr", "dict", "robust"):
    for f in ("LS", "LsClass"):
        JOBS[f"py.ls.{f}.{kind}"] = ("csolve", "ls", [f, kind])
    for f in ("NLLS", "NllsClass"):
        JOBS[f"py.nlls.{f}.{kind}"] = ("csolve", "nlls", [f, kind])
for n in (1, 2, 3, 4):
    JOBS[f"py.pe.{n}"] = ("csolve", "pe", ["pe", n])
for n in (1, 2, 3):
    JOBS[f"py.pejit.{n}"] = ("csolve", "pe", ["pejit", n])
for f in ("egrad", "egradRobust"):
    JOBS["py." + f] = ("csolve", "egrad", [f])
JOBS["py.step"] = ("csolve", "step", [])

for f in ("values", "history", "check"):
    JOBS["py.ce_" + f] = ("csym", f, [])
for f in ("Constrained", "Recurrence", "Derivatives", "Acyclic"):
    JOBS["lean." + f.lower()] = ("leanjob", "lean", [f + ".lean"])

for f in ("graph", "refuse"):
    JOBS["py.graph" if f == "graph" else "py.graph_refuse"] = ("cgraph", f, [])

PPOLY = ["py.poly_hint." + f for f in POLY]
PELM = ["py.elm_hint." + f for f in ELM]
PNELM = [j for j in JOBS if j.startswith("py.nelm_hint")]
PNH = [j for j in JOBS if j.startswith("py.nelm_H")]


def PH(fams):
    return ["py.basis_H." + f for f in fams]


for d in (1, 2, 3):
    JOBS[f"py.mtfc_nc.CP.{d}"] = ("cjax", "mtfc_nc", ["CP", d])
for d in (1, 2, 3, 4):
    JOBS[f"py.print_function.{d}"] = ("cprint", "print_function", [d])
    JOBS[f"py.print_derivative.{d}"] = ("cprint", "print_derivative", [d])
for d in (1, 2, 3):
    JOBS[f"py.print_subs.{d}"] = ("cprint", "print_subs", [d])
JOBS["py.print_type"] = ("cprint", "print_type", [])
JOBS["py.print_names"] = ("cprint", "print_names", [])
for n, al, pd in ((1, 0, 0), (2, 1, 1), (5, 0, 1), (6, 0, 0), (8, 1, 0)):
    JOBS[f"py.save_graphs.{n}.{al}{pd}"] = ("csave", "save", [n, bool(al), bool(pd)])
for c in (0, 1):
    for r in (0, 1):
        JOBS[f"py.latex.{c}{r}"] = ("clatex", "table", [bool(c), bool(r)])
JOBS["py.scaled_qr.vector"] = ("cqr", "scaled_qr", [False])
JOBS["py.scaled_qr.columns"] = ("cqr", "scaled_qr", [True])
BGROUP = {"poly": POLY, "FS": ["FS"], "ELM": ELM, "ntp": ["nCP", "nLeP", "nFS"], "nELM": ["n" + f for f in ELM]}
for g, fs in BGROUP.items():
    JOBS["bind.ctor." + g] = ("cbind", "bind_ctor", [" ".join(fs)])
    JOBS["bind.H." + g] = ("cbind", "bind_H", [" ".join(fs)])
for b in ("BasisFunc", "nBasisFunc"):
    JOBS["bind.attrs." + b] = ("cbind", "bind_attrs", [b])
for b in ("ELM", "nELM"):
    JOBS["bind.weights." + b] = ("cbind", "bind_weights", [b])


def BI(*gs):
    return [f"bind.{w}.{g}" for g in gs for w in ("ctor", "H")]


BALL = [j for j in JOBS if j.startswith("bind.")]
CPOLY = [j for j in JOBS if j.startswith("c.poly_")]
CELM = [j for j in JOBS if j.startswith("c.elm_hint")]
CNELM = [j for j in JOBS if j.startswith("c.nelm_hint")] + ["c.nelm_nhint"]
ND = ["c.nbasis_H", "c.nbasis_xla"]
TP = lambda ds: [f"c.nbasis_{w}.{d}" for w in ("num", "rec", "nhint") for d in ds]
CT = lambda fs: ["c.ctor." + f for f in fs]
NCT = lambda fs, ds: [f"c.nd_ctor.n{f}.{d}" for f in fs for d in ds]
TPF = ["CP", "LeP", "FS"]
ACC = ["c.accessors.ELM", "c.accessors.nELM"]
PROPS = {
    "B01": ["lean.recurrence"] + CPOLY + ["c.basis_H", "c.basis_xla"] + CT(POLY) + BI("poly"),
    "B02": ["lean.recurrence"] + PPOLY + PH(POLY),
    "B03": ["lean.derivatives", "c.fs_hint", "c.basis_H", "c.basis_xla", "py.fs_hint"] + PH(["FS"]) + CT(["FS"]) + BI("FS"),
    "B04": ["lean.derivatives"] + CELM + ["c.basis_H", "c.basis_xla"] + PELM + PH(ELM) + CT(ELM) + BI("ELM"),
    "B05": ["c.basis_H", "c.basis_xla"] + ND + TP((2, 3)) + PH(POLY + ["FS", "ELMSin"]) + PNH + CT(["CP", "ELMSin"]) + NCT(["CP", "ELMSin"], (2,)) + ["py.ntp_H.nCP.2", "py.ntp_H.nCP.3", "py.ntp_num.2", "py.utfc_init.CP", "py.mtfc_init.CP.2", "py.mtfc_init.ELMSin.2", "py.mtfc_nc.CP.1", "py.mtfc_nc.CP.2", "py.mtfc_nc.CP.3"] + BI("poly", "ELM", "ntp", "nELM"),
    "B06": ND + TP((1, 2, 3, 4)) + NCT(TPF, (1, 2, 3)) + [j for j in JOBS if j.startswith("py.ntp_")] + BI("ntp"),
    "B07": ["lean.derivatives"] + CNELM + ND + PNELM + PNH + NCT(ELM, (1, 2, 3)) + BI("nELM"),
    "B08": ["lean.derivatives", "c.basis_H", "c.basis_xla"] + ND + ["c.nbasis_nhint.2", "c.nbasis_nhint.3"] + PH(["CP", "FS", "ELMSin"]) + PNH + UINIT + MINIT + CT(POLY + ["FS"] + ELM) + NCT(TPF + ELM, (2, 3)) + ["py.ntp_H.nCP.2", "py.ntp_H.nFS.2", "py.ntp_H.nFS.3"] + ["bind.attrs.BasisFunc", "bind.attrs.nBasisFunc"],
    "B09": ["c.basis_H", "c.basis_xla"] + ND + ["py.utfc_lower"] + [f"py.mtfc_lower.{d}" for d in (1, 2, 3)] + ["c.xla_wrapper"] + CT(["CP", "ELMSin"]) + NCT(["CP", "ELMSin"], (2,)) + ["bind.attrs.BasisFunc", "bind.attrs.nBasisFunc"] + BI("poly", "ntp"),
    "B10": ["py.utfc_methods", "py.utfc_jvp"] + [f"py.mtfc_{w}.{d}" for w in ("methods", "jvp") for d in (1, 2, 3)],
    "G02": [f"py.save_graphs.{c}" for c in ("1.00", "2.11", "5.01", "6.00", "8.10")],
    "L01": ["py.latex.00", "py.latex.01", "py.latex.10", "py.latex.11"],
    "G01": ["py.graph", "py.graph_refuse", "lean.acyclic"],
    "H01": ["py.hybrid"],
    "S01": [j for j in JOBS if j.startswith("py.ls.")] + ["py.pe.2", "py.pe.3"],
    "S02": [j for j in JOBS if j.startswith("py.nlls.")] + ["py.pe.2", "py.pe.3"],
    "S03": [j for j in JOBS if j.startswith("py.pe")],
    "S04": ["py.scaled_qr.vector", "py.scaled_qr.columns"],
    "E01": ["py.ce_values", "py.ce_check", "lean.constrained"],
    "E02": ["py.ce_history", "py.print_names", "py.print_type"] + [f"py.print_{k}.{d}" for k, m in (("function", 4), ("derivative", 4), ("subs", 3)) for d in range(1, m + 1)],
    "U01": ["py.egrad", "py.egradRobust", "py.step"],
    "D01": [j for j in JOBS if j.startswith("py.d_")],
    "B11": CPOLY + ["c.fs_hint"] + CELM + ["c.basis_H", "c.basis_xla"] + CNELM + ND + TP((1, 2, 3)) + ACC + CT(["CP", "LaP", "FS", "ELMSin"]) + NCT(["CP", "ELMSin"], (1, 2, 3)) + ["c.xla_wrapper"] + BALL,
    "B12": ACC + ["py.elm_state.ELM", "py.elm_state.nELM"] + CT(ELM) + NCT(ELM, (2,)) + ["bind.weights.ELM", "bind.weights.nELM"],
}
SAFETY = ("in bounds", "initialised", "delete", "free", "non-negative", "released", "entries", "to hold")


def safety(name):
    return any(s in name for s in SAFETY)


def counts(prop, name):
    """does an obligation of this name belong to the property?"""
    return safety(name) if prop == "B11" else not safety(name)
