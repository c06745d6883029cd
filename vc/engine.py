"""Contracts, the verification of function bodies against them, and lemmas over contracts."""
import time
import traceback
from .ctx import Ctx, Infeasible, Unsupported, ProofFailure, Budget
from .exec import Exec
from .values import *
from .names import parse
from . import ext
from .poly import reset_atoms
from . import field as _field
from .lib import compare
from .loops import PathEnd, AuxFailure

CONTRACTS = []       # in order
LEMMAS = []


class Contract:
    """apply(ex, nm, args) is the executable specification; it is what callers rely on.

    cases(nm) lists (label, builder); builder(ex) returns the arguments of one symbolic input class.
    check(ex, nm, args, out) replaces the comparison with apply when the contract is relational."""

    def __init__(self, ident, match, apply, cases, check=None, props=(), private=False, loops=None, pre=None,
                 setup=None):
        self.ident, self.match, self.apply, self.cases = ident, match, apply, cases
        self.check, self.props, self.private, self.loops, self.setup = check, props, private, loops, setup


def contract(ident, match, cases, check=None, props=(), private=False, loops=None, setup=None):
    def deco(f):
        CONTRACTS.append(Contract(ident, match, f, cases, check, props, private, loops, None, setup))
        return f
    return deco


INLINE = {}     # helper contract -> how to run its body (when the contract is not established) on abstract arguments


class Lemma:
    def __init__(self, ident, fn, cases, props):
        self.ident, self.fn, self.cases, self.props = ident, fn, cases, props


def lemma(ident, cases, props=()):
    """a statement over contracts: fn(ex, args) raises ProofFailure when it does not hold"""
    def deco(f):
        LEMMAS.append(Lemma(ident, f, cases, props))
        return f
    return deco


class Table(dict):
    """normalized function name -> handler, resolved lazily against the contract list"""

    def __init__(self, disabled=()):
        super().__init__()
        self.disabled = set(disabled)
        self.of = {}

    def find(self, name):
        if name in self.of:
            return self.of[name]
        try:
            nm = parse(name)
        except ValueError:
            nm = None
        r = None
        if nm is not None:
            for c in CONTRACTS:
                if c.match(nm):
                    r = (c, nm)
                    break
        self.of[name] = r
        return r

    def get(self, name, default=None):
        r = self.find(name)
        if r is None:
            return default
        c, nm = r
        if name in self.disabled:
            h = INLINE.get(c.ident)
            return default if h is None else lambda ex, args: h(ex, nm, args, name)
        return lambda ex, args: c.apply(ex, nm, args)


class Result:
    def __init__(self, task):
        self.task = task
        self.status = "proved"      # proved | failed | unknown
        self.obligation = None
        self.detail = ""
        self.paths = self.normal = 0
        self.obligations = 0
        self.used = set()
        self.inlined = set()
        self.trusted = set()
        self.stats = {"z3": 0, "z3_time": 0.0, "field": 0}
        self.time = 0.0
        self.trace = []
        self.props = None           # the properties the failed obligation belongs to (None: all of the contract's)

    def __repr__(self):
        return f"{self.task}: {self.status} paths={self.paths}({self.normal}) t={self.time:.1f}" + \
            (f" FAILED {self.obligation}: {self.detail}" if self.status != "proved" else "")


MAXPATHS = 3000
EXTRA = 8      # seconds spent on further paths after one that is not established


def explore(task, run, tlimit=300, maxpaths=MAXPATHS):
    """run(cx) for every path; run returns a label 'panic'/'value'"""
    r = Result(task)
    t0 = time.time()
    _field._STATES.clear()
    reset_atoms()       # tasks do not depend on what ran before in this process
    stack = [[]]
    unknown = failed = None     # the first path of each kind: (obligation, detail, trace, props)
    end = None                  # when the search for a definite failure is given up
    while stack:
        prefix = stack.pop()
        if time.time() - t0 > tlimit or r.paths > maxpaths:
            unknown = unknown or ("budget", f"{r.paths} paths, {time.time()-t0:.0f} s", [], None)
            break
        if end is not None and time.time() > end:
            break
        cx = Ctx(prefix, r.stats)
        stop = False
        what = None
        try:
            k = run(cx, r)
            r.paths += 1
            r.obligations += 1
            if k == "value":
                r.normal += 1
        except Infeasible:
            pass
        except PathEnd:
            r.paths += 1
            r.obligations += 1
        except AuxFailure as e:
            what = "unknown", "loop invariant: " + e.what, e.detail, None
        except ProofFailure as e:
            what = "failed", e.what, e.detail, getattr(e, "props", None)
        except Panic as e:
            what = "failed", "no unexpected panic", e.msg, None
        except Budget as e:
            what, stop = ("unknown", "unsupported", str(e), None), True
        except (Unsupported, RecursionError) as e:
            what = "unknown", "unsupported", str(e), None
        except Exception as e:
            what = "unknown", "internal", f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:], None
        stack.extend(cx.alts)
        if what is not None:
            rec = what[1], what[2], list(cx.trace), what[3]
            if what[0] == "failed" and not cx.assumed:
                failed, unknown, stop = rec, None, True
            elif what[0] == "failed":
                # after a loop: the failure counts only if the invariant that was assumed holds
                failed = failed or rec
            else:
                unknown = unknown or rec
            end = end or time.time() + EXTRA
        if stop:
            break
    if unknown is None and failed is not None and end is not None and stack and not stop:
        unknown = failed        # not all obligations of the loop invariants were examined
    if unknown or failed:
        r.status = "unknown" if unknown else "failed"
        r.obligation, r.detail, r.trace, r.props = unknown or failed
    r.time = time.time() - t0
    if r.status == "proved" and r.normal == 0:
        r.status, r.obligation, r.detail = "unknown", "vacuous", "no path returns normally"
    return r


def verify_case(prog, c, name, label, builder, disabled=(), tlimit=300):
    """one function body against its contract on one class of inputs"""
    f = prog.by_name[name]
    nm = parse(name)
    allow_panic_only = label.startswith("!")

    def run(cx, r):
        tab = Table(disabled)
        ex = Exec(prog, cx, tab, ext.natives, skip=prog.recursive_with(name))
        if c.loops:
            c.loops(ex, nm, f)
        try:
            args = builder(ex)
            spec_args = dcopy(args_tuple(args)).f
            spec_args0 = dcopy(args_tuple(args)).f
            pan = None
            out = None
            try:
                out = ex.run(f, list(args))
            except Panic as e:
                pan = e
            if c.check is not None:
                k = c.check(ex, nm, spec_args, args, out, pan)
                return k or ("panic" if pan else "value")
            ex.in_spec = True
            try:
                exp = c.apply(ex, nm, spec_args)
            except Panic:
                if pan is None:
                    raise ProofFailure("refuses the input (panics)", f"returned {out!r}")
                return "value" if allow_panic_only else "panic"
            if pan is not None:
                raise ProofFailure("does not panic", pan.msg)
            compare(ex, out, exp)
            for i, (a, b) in enumerate(zip(args, spec_args)):
                if isinstance(a, Ref) and isinstance(b, Ref):
                    compare(ex, a, b, f"argument {i} after the call")
            return "value"
        finally:
            r.used |= ex.used
            r.inlined |= ex.inlined
            r.trusted |= ex.trusted
    return explore(f"{name} [{label}]", run, tlimit)


def args_tuple(args):
    return Tup(list(args))


def verify_lemma(prog, l, label, builder, disabled=(), tlimit=300):
    def run(cx, r):
        tab = Table(disabled)
        ex = Exec(prog, cx, tab, ext.natives)
        try:
            args = builder(ex)
            return l.fn(ex, *args) or "value"
        finally:
            r.used |= ex.used
            r.inlined |= ex.inlined
            r.trusted |= ex.trusted
    return explore(f"lemma {l.ident} [{label}]", run, tlimit)


def targets(prog, c):
    """the functions of the current source that fall under contract c"""
    out = []
    for n, f in prog.by_name.items():
        if not f["local"] or "{closure" in n:
            continue
        try:
            nm = parse(n)
        except ValueError:
            continue
        for d in CONTRACTS:
            if d.match(nm):
                if d is c:
                    out.append(n)
                break
    return sorted(out)
