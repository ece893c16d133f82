"""The per-property part of DESIGN.md (called by gen.py): harness docstrings and sizes from
the code, oracles and remarks from here."""

import ast
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ORACLE = {
    "C01": "the wave equation itself: jumps of displacement and of stress computed by the public methods, the Helmholtz identity in each layer, and textbook closed forms. Interior amplitudes are abstracted by cut variables (arbitrary complex numbers), which makes each interface obligation independent of the number of layers above it.",
    "C02": "definitions (ratio, inverse, composition); no reference implementation.",
    "C03": "finite displacement differences of the code's own wave field, which determine the derivative exactly because the field is a sum of two exponentials (proved as C01 wave_equation).",
    "C04": "the code against itself on two discretisations of the same column.",
    "C05": "two alias packages, one loaded with numba present (kernels executed as Python source) and one without; the real counterpart loads pystrata with numba blocked.",
    "C06": "the three published definitions of the complex modulus.",
    "C07": "definition of strain-compatible properties from the curves.",
    "C08": "definition of the relative change between successive properties and of the stopping rule, replayed next to the code's own iteration. The response of the column enters only through the peak strain, which is an arbitrary function of the transfer function (uninterpreted: equal arguments, equal values).",
    "C09": "the code against itself with fresh objects.",
    "C10": "bounds stated in the documentation of the three methods.",
    "C11": "sums over the layers.",
    "C12": "sums over the layers; layers are compared by identity.",
    "C13": "integrals of unit weight over depth, hydrostatic pore pressure.",
    "C14": "travel-time sums, written independently.",
    "C15": "the wavelength criterion, and the column (depth, soil, velocity, damping, stress) sampled at arbitrary depths in source and result.",
    "C16": "snapshots of every observable (layer properties, curves at their nodes and at a probe strain) before and after.",
    "C17": "log-linear interpolation written independently.",
    "C18": "the published equations, written independently in harness/models.py.",
    "C19": "the defining sum of the discrete Fourier transform; numpy.fft and pyfftw are replaced by it in the encoding, and the real FFT is used in every replay.",
    "C20": "the integrals over the padded series.",
    "C21": "the single-degree-of-freedom transfer function and its definition on the time series.",
    "C22": "the quarter-wavelength definition with independently written averages; the fixed point is followed for up to `its` iterations of the code's own update and the result must satisfy the defining equations.",
    "C23": "the sum 2Dh/v plus the scattering contribution (arbitrary in the adjustment; encoded on an arbitrary transfer function in `scatter`).",
    "C24": "inverse cumulative rate of Toro's model written independently; draws are arbitrary.",
    "C25": "published correlation and standard deviations written independently; the draw is arbitrary, the arguments given to numpy's generator are checked.",
    "C26": "definitions; draws are arbitrary numbers.",
    "C27": "the column above the new half-space sampled against the source.",
    "C28": "enumeration of all combinations with an independently written validity formula; which conditions alternatives carry is a bounded choice, weights and numbers are symbolic.",
    "C30": "a plain list of what was stored.",
    "C31": "the defining quantity computed from the calculator's public methods.",
    "C32": "the numbers written into the file: each is a text token which the code's own float() conversion maps to a symbolic variable, so losing, swapping or rescaling one is visible for every value.",
    "C33": "the table or JSON content; conservation of depth, travel time and weight for simplification.",
    "C34": "published equations and scaling laws.",
    "C35": "published equations, one per subset of given properties.",
    "C36": "an arbitrary function of the spectrum as peak calculator; the spectra it is called with.",
}


def sizes(v):
    out = []
    for d in v:
        out.append(", ".join(f"{k}={x}" for k, x in d.items()) or "-")
    return "; ".join(out)


def harnesses():
    import sys

    sys.path.insert(0, HERE)
    out = {}
    import importlib

    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from symex import registry

    for f in sorted(os.listdir(HERE + "/harness")):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("harness." + f[:-3])
    return registry.HARNESSES


def section(props):
    hs = harnesses()
    lines = []
    for p in props:
        i = p["id"]
        lines += ["", f"### {i} {p['title']}", ""]
        lines.append(f"Oracle: {ORACLE[i]}")
        lines.append("")
        for h in hs.get(i, []):
            doc = " ".join((h["fn"].__doc__ or "").split())
            lines.append(f"* `{h['name']}`: {doc}. Quick: {sizes(h['quick'])}." + (f" Thorough: {sizes(h['thorough'])}." if h["thorough"] != h["quick"] else ""))
        lines.append("")
        lines.append(p["note"])
    return "\n".join(lines) + "\n"


def seeded():
    import json

    caught = json.load(open(HERE + "/tools/caught.json"))
    out = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for b, r in sorted(caught.items()):
        k = f"{HERE}/seeded/{b}/meta.json"
        if not os.path.exists(k):
            continue
        m = json.load(open(k))
        by = f"`{r['caught_by']}`" if r.get("caught_by") else "missed" if "exit" in r else r.get("error", "")
        out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {by} |")
    return "\n".join(x.replace("\n", " ") for x in out) + "\n"


def findings():
    out = []
    for l in open(HERE + "/known_findings.txt"):
        if l.startswith("fixed:"):
            _, p, c, what = l.strip().split(" ", 3)
            out.append(f"| {c} | {p.split('=')[1]} | {what} |")
    return "\n".join(out) + "\n"
