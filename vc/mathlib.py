"""The mathematics of the group laws, machine-checked by Lean over Mathlib (vc/lean/*.lean).  It does not depend on
/repo; a lemma that cannot be checked here (no Lean, time limit) falls back to trusted mathematics and is reported so."""
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lean")
USES = {"C12": ("Weierstrass", "Edwards"), "C13": ("Weierstrass",), "C14": ("Edwards",), "C15": ("Weierstrass",),
        "C16": ("Weierstrass", "Edwards"), "C17": ("Weierstrass", "Edwards"),
        "C28": ("Weierstrass", "Isogeny"), "C29": ("Weierstrass", "Edwards", "Model")}
STATEMENT = {
    "Weierstrass": "over every field of characteristic not 2, the points of y^2 = x^3 + a2 x^2 + a4 x + a6 (nonzero discriminant) with "
                   "the chord-and-tangent law are closed and an abelian group; the law, the curve equations and the negation used by the "
                   "contracts (printed from `law`, `eq_affine` and `neg` of vc/specs, b = 1) are these",
    "Edwards": "over every field of characteristic not 2, for a a nonzero square and d not a square, the denominators of the Edwards law "
               "never vanish and the points are closed and an abelian group; the law and the curve equation used by the contracts (printed "
               "from `law` and `eq_affine` of vc/specs) are these",
    "Model": "over every field of characteristic not 2, for a a nonzero square and d not a square, the curve a x^2 + y^2 = 1 + d x^2 y^2 has "
             "as many points as b v^2 = u^3 + A u^2 + u with A = 2 (a + d) / (a - d), b = 4 / (a - d), the point at infinity included",
    "Isogeny": "a map of finite abelian groups that is odd, has fibres of at most N < |G| / 16 elements into a group without elements of "
               "order two, and is additive where the images are nonzero and not equal up to sign, is additive everywhere (its hypotheses "
               "for the published maps: vc/published.py `additive_facts`)",
}
STANDARD = {"propext", "Classical.choice", "Quot.sound"}


def text(f):
    from . import lawtext
    with open(os.path.join(HERE, f + ".lean"), encoding="utf-8") as h:
        return h.read() + lawtext.theorems(f)


def start(pid):
    """processes checking the files `pid` relies on"""
    out = []
    lean = shutil.which("lean")
    for f in USES.get(pid, ()):
        if lean is None:
            out.append((f, None, None, 0))
            continue
        log, src = tempfile.TemporaryFile(), tempfile.NamedTemporaryFile("w+", suffix=".lean", encoding="utf-8")
        try:
            src.write(text(f))
            src.flush()
            p = subprocess.Popen([lean, src.name], stdout=log, stderr=subprocess.STDOUT, cwd=HERE)
        except Exception:       # the law could not be printed: its theorems are then reported as trusted
            p = None
        out.append((f, p, (log, src), time.time()))
    return out


def finish(procs, limit=240):
    """{file: {"status", ...}}"""
    res = {}
    for f, p, log, t in procs:
        if p is None:
            res[f] = {"status": "not checked", "why": "lean could not be started on it", "statement": STATEMENT[f]}
            continue
        try:
            rc = p.wait(max(1, limit - (time.time() - t)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        log, h = log
        log.seek(0)
        txt = log.read().decode(errors="replace")
        h.seek(0)
        src = h.read()
        h.close()
        m = re.findall(r"depends on axioms: \[([^\]]*)\]", txt)
        named = len(m) + txt.count("does not depend on any axioms") == src.count("#print axioms")
        ax = {a.strip() for g in m for a in g.split(",")} if m and named else None
        ok = rc == 0 and "error" not in txt and ax is not None and ax <= STANDARD and not re.search(r"\b(sorry|axiom)\b", src)
        res[f] = {"status": "proved" if ok else "not checked", "back_end": "Lean 4 kernel, Mathlib", "axioms": sorted(ax or []),
                  "seconds": round(time.time() - t, 1), "statement": STATEMENT[f]}
        if not ok:
            res[f]["why"] = "time limit" if rc is None else txt[:300]
    return res
