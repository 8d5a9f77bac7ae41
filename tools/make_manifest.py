#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
EN = "exhaustive enumeration of %s on the real code, stepped against %s"
T = {
    "C01": EN % ("a constructor grammar x rebuild chains x single-leaf changes", "the original object"),
    "C02": EN % ("all operation histories up to a depth over shared objects", "fresh objects (differential, stateless search)"),
    "C03": "stateless model checking: all interleavings of two threads at shared accesses, and all line schedules up to a preemption bound, under a controlled scheduler",
    "C04": "fault-point enumeration: an exception at every executed library line of every operation, followed by every operation, against fresh objects",
    "C05": EN % ("all functions x all transformation chains up to depth two", "eager evaluation"),
    "C06": EN % ("all functions x all parameters x a parameter lattice, in both differentiation modes", "finite differences"),
    "C07": EN % ("both precision modes x all functions x a parameter lattice", "the double precision result"),
    "C08": EN % ("all arrays up to a length over a point alphabet x all functions", "single-point evaluation"),
    "C09": EN % ("a parameter lattice x scale factors", "a closed-form reference model"),
    "C10": EN % ("a parameter lattice x dense scale factors", "a Gauss-Legendre reference model"),
    "C11": EN % ("curvature letters x parameter lattice x scale factors", "the closed forms"),
    "C12": EN % ("a parameter lattice x scale factors", "an independent solution of the growth equation"),
    "C13": EN % ("a parameter lattice with growth index x scale factors", "the defining integral"),
    "C14": EN % ("a parameter lattice x types x wavenumbers", "a transcription of the published formula"),
    "C15": EN % ("a parameter lattice x transfer functions and options x points", "a reference model"),
    "C16": EN % ("a parameter lattice x prescriptions x points", "a reference model of the published fits"),
    "C17": EN % ("a grammar of distributions x redshifts", "the defining densities"),
    "C18": EN % ("bias forms x bin lists x cosmologies x redshifts", "a reference model"),
    "C19": EN % ("all bin lists up to a length in every order x points", "a reference model"),
    "C20": EN % ("all presence/single/list forms of both systematics x bins x points", "a reference model"),
    "C21": EN % ("probe lists in every order and grouping", "a reference Limber integration of the probes' own kernels"),
    "C22": EN % ("all probe lists up to a length x densities x ellipticities", "a reference model"),
    "C23": EN % ("all tracer counts, spectra that identify every index, all options", "Wick's theorem"),
    "C24": EN % ("all small integer covariances x residuals x options", "the Gaussian log density"),
    "C25": EN % ("all small shapes x operand kinds x basis pairs, and all incompatible shape pairs", "dense products"),
    "C26": EN % ("all small integer block matrices", "exact integer determinants"),
    "C27": EN % ("all monomials x interval counts or levels x limit pairs", "closed-form integrals"),
    "C28": EN % ("all small time grids x right-hand sides x state shapes", "closed-form trajectories"),
    "C29": EN % ("all strictly monotonic small tables x basis values x queries", "numpy.interp"),
    "C30": EN % ("all small abscissa sets x orders x end conditions x basis data x queries", "the reference library spline"),
    "C31": EN % ("all small abscissa sets x orders x derivative orders x pairs of limits", "the reference piecewise polynomial"),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(ROOT, "mc", "checks", i.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    src = open(path).read()
    doc = " ".join(src.split('"""')[1].split())
    checks.append(dict(
        property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=T[i], level="model_checking",
        level_note="Every state of the bounded space named in the evidence file is executed on the code in /repo and compared. " + doc
        + " Nothing is claimed outside the stated alphabets and bounds."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Pure Python on an installed JAX: nothing is built; every check imports /repo/jax_cosmo from the working tree in fresh processes. No hooks are added to /repo.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
