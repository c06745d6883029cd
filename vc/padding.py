"""Loop rule for byte strings padded one zero at a time (executed a symbolic number of times).

Inferred invariant: after k rounds the string is the initial one with k zero bytes appended (push) or put in
front (insert at 0), and every counter is its initial value plus k.  It is checked at entry (k = 0) and after
an arbitrary round like any other loop invariant; where it does not fit the loop is reported as unsupported."""
from .values import *
from .bytes_ import Rope
from .poly import P, ZERO
from .ctx import Unsupported
from .loops import natural_loops, install


def calls(f, body):
    out = set()
    for b in body:
        t = f["blocks"][b]["t"]
        if t["t"] == "call" and t["f"]["kind"] != "indirect":
            out.add(t["f"].get("name", "").rsplit("::", 1)[-1])
    return out


class Padding:
    def __init__(self, loc, front, counters, rng, bounds):
        self.loc, self.front, self.counters, self.rng, self.bounds = loc, front, counters, rng, bounds

    def padded(self, k):
        r = self.init.copy()
        z = Rope([("be", ZERO, k)])
        if self.front:
            z.append(r)
            return z
        r.append(z)
        return r

    def enter(self, ex, fr):
        cx = ex.cx
        self.init = fr.L[self.loc].copy()
        self.k = k = P(cx.fresh("k"))
        cx.int_assume("le", -k)
        fr.L[self.loc] = self.padded(k)
        n = self.init.length()
        for b in self.bounds:
            cx.int_assume("le", n + k - b)
        self.start = {}
        for i in self.counters:
            v = fr.L[i]
            self.start[i] = v
            fr.L[i] = Int(v.p + k, v.ty)
        keep = {self.loc} | set(self.counters)
        if self.rng is not None:
            r = fr.L[self.rng]
            a, b = r.f[0], r.f[1]
            cx.int_assume("le", a.p + k - b.p)
            self.rstart = a
            fr.L[self.rng] = Adt(r.ty, r.var, [Int(a.p + k, a.ty), b])
            keep.add(self.rng)
        return keep

    def step(self, ex, fr):
        cx = ex.cx
        k1 = self.k + 1
        got, want = fr.L[self.loc], self.padded(k1)
        ok = isinstance(got, Rope) and cx.int_valid("eq", got.length() - want.length()) and \
            got.copy().equal(cx, want)
        ok = ok and all(cx.int_valid("eq", fr.L[i].p - self.start[i].p - k1) for i in self.counters)
        if ok and self.rng is not None:
            ok = cx.int_valid("eq", fr.L[self.rng].f[0].p - self.rstart.p - k1)
        ok = ok and all(cx.int_valid("le", got.length() - b) for b in self.bounds)
        if not ok:
            raise Unsupported("loop that is not a padding loop")


def padding_hook(ex, f):
    if "_pad" not in f:
        loops = natural_loops(f)
        f["_pad"] = any({"push", "insert"} & calls(f, body) for body in loops.values())
    if not f["_pad"]:
        return None
    loops = natural_loops(f)

    def make(ex, fr, mods):
        ropes = [i for i, v in mods.items() if isinstance(v, Rope) or isinstance(v, Arr) and not v.f]
        rngs = [i for i, v in mods.items() if isinstance(v, Adt) and v.ty.startswith("std::ops::Range<")]
        cnts = [i for i, v in mods.items() if isinstance(v, Int)]
        body = next((b for h, b in loops.items() if {"push", "insert"} & calls(f, b)), None)
        if len(ropes) != 1 or len(rngs) > 1 or body is None:
            return None
        if rngs:
            r = fr.L[rngs[0]]
            if (r.f[1].p - r.f[0].p).is_const() or not ex.cx.le(r.f[0].p, r.f[1].p):
                return None
        v0 = fr.L[ropes[0]]
        n = v0.length() if isinstance(v0, Rope) else ZERO
        bounds = []
        if not rngs:
            bounds = [v.p for i, v in enumerate(fr.L) if isinstance(v, Int) and v.ty == "usize" and i not in mods and
                      ex.cx.int_valid("le", n - v.p)]
            if not bounds or all((b - n).is_const() for b in bounds):
                return None
        if not isinstance(v0, Rope):
            fr.L[ropes[0]] = Rope()
        return Padding(ropes[0], "insert" in calls(f, body), cnts, rngs[0] if rngs else None, bounds)
    install(ex, f, make)
    return ex.loop_hook[f["n"]]
