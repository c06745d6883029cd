"""The loop rule: at a loop head the invariant is checked, the modified locals are replaced by arbitrary
values satisfying it, and the body is executed once; arriving at the head again the invariant is checked
and the path ends."""
from .values import *
from .ctx import Unsupported, ProofFailure


class PathEnd(Exception):
    """the path ended at a loop head with its invariant re-established"""


class AuxFailure(ProofFailure):
    """an auxiliary annotation (loop invariant) does not hold"""


def succ(t):
    k = t["t"]
    if k == "switch":
        return [bb for _, bb in t["br"]] + [t["other"]]
    return [t["target"]] if t.get("target") is not None else []


def natural_loops(f):
    """header -> set of blocks"""
    if "_loops" in f:
        return f["_loops"]
    bl = f["blocks"]
    n = len(bl)
    ss = [[x for x in succ(b["t"]) if x is not None and x < n] for b in bl]
    order, seen = [], set()
    stack = [(0, iter(ss[0]))]
    seen.add(0)
    while stack:
        u, it = stack[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                stack.append((v, iter(ss[v])))
                break
        else:
            order.append(u)
            stack.pop()
    order.reverse()
    preds = {u: [] for u in seen}
    for u in seen:
        for v in ss[u]:
            preds[v].append(u)
    dom = {u: set(seen) for u in seen}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for u in order:
            if u == 0:
                continue
            d = set.intersection(*(dom[q] for q in preds[u])) | {u}
            if d != dom[u]:
                dom[u] = d
                ch = True
    loops = {}
    for u in seen:
        for v in ss[u]:
            if v in dom[u]:
                body = {v, u}
                work = [u] if u != v else []
                while work:
                    x = work.pop()
                    for q in preds[x]:
                        if q not in body:
                            body.add(q)
                            work.append(q)
                loops.setdefault(v, set()).update(body)
    f["_loops"] = loops
    return loops


def modified(f, blocks):
    out = set()

    def rv(r):
        if r[0] in ("ref", "rawptr", "addrof", "addr") and r[1] is True and not any(e[0] == "deref" for e in r[2][1]):
            out.add(r[2][0])
    for b in blocks:
        for s in f["blocks"][b]["s"]:
            if s["s"] == "assign":
                out.add(s["p"][0])
                rv(s["r"])
        t = f["blocks"][b]["t"]
        if t["t"] == "call":
            out.add(t["dest"][0])
    return out


def install(ex, f, make):
    """make(ex, fr, mods: {local: value}) -> invariant object or None"""
    loops = natural_loops(f)
    state = {}

    def hook(ex, fr, bb):
        st = state.setdefault(id(fr), {"prev": None, "active": {}, "fr": fr})
        prev, st["prev"] = st["prev"], bb
        if bb not in loops:
            return
        body = loops[bb]
        if prev in body:
            inv = st["active"].get(bb)
            if inv is not None:
                inv.step(ex, fr)
                raise PathEnd()
            return
        mods = {i: fr.L[i] for i in modified(f, body) if fr.L[i] is not UNINIT and not fr.L[i] is UNIT}
        inv = make(ex, fr, mods)
        if inv is None:
            st["active"].pop(bb, None)
            return
        keep = inv.enter(ex, fr)
        ex.cx.assumed = True
        for i in mods:
            if i not in keep:
                fr.L[i] = UNINIT
        st["active"][bb] = inv
    ex.loop_hook[f["n"]] = hook
