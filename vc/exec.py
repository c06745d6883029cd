"""Symbolic executor for the MIR that mirdump extracts from the current source of the crate."""
import json
import re
from .poly import Poly, P, ZERO, ONE, atom
from .ctx import Ctx, Infeasible, Unsupported, ProofFailure, Budget
from .values import *
from .bytes_ import Rope, Str
from .padding import padding_hook


def norm_name(n):
    n = n.replace("redox_ecc::", "")
    n = re.sub(r"(?:\w+::)*num_bigint::", "num_bigint::", n)
    n = n.replace("{closure@", "{closure@")
    # `a::b::<impl TRAIT for TYPE>::m`
    i = n.find("<impl ")
    if i >= 0 and not n.startswith("<"):
        depth = 0
        for j in range(i, len(n)):
            if n[j] == "<":
                depth += 1
            elif n[j] == ">" and n[j - 1] != "-":
                depth -= 1
                if depth == 0:
                    break
        inner, rest = n[i + 6:j], n[j + 1:]
        k = _top_for(inner)
        if k is None:
            n = inner + rest
        else:
            n = f"<{inner[k + 5:]} as {inner[:k]}>{rest}"
    n = re.sub(r"num_bigint::(?:bigint|biguint|\w+)::(?:\w+::)*(?=<)", "", n)
    return n


def _top_for(s):
    depth = 0
    for i, c in enumerate(s):
        if c == "<":
            depth += 1
        elif c == ">" and s[i - 1] != "-":
            depth -= 1
        elif depth == 0 and s.startswith(" for ", i):
            return i
    return None


INT = {}
for _b in (8, 16, 32, 64, 128):
    INT[f"u{_b}"] = (0, (1 << _b) - 1, _b, False)
    INT[f"i{_b}"] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1, _b, True)
INT["usize"], INT["isize"] = INT["u64"], INT["i64"]
INT["char"] = (0, 0x10ffff, 32, False)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d["fns"]
        self.unsafe_impls = d.get("unsafe_impls", [])
        self.auto = {norm_name(k): v for k, v in d.get("auto", {}).items()}
        self.types = {}
        for k, v in d["types"].items():
            self.types[k] = v
        self.statics = d["statics"]
        self.by_name = {}
        for i, f in self.fns.items():
            f["id"] = i
            f["n"] = norm_name(f["name"])
            f["local"] = not (f["file"].startswith("/") and "/rustlib/" in f["file"])
            self.by_name.setdefault(f["n"], f)
        self._nn = {}
        self._scc = self._kids = None

    def nn(self, n):
        r = self._nn.get(n)
        if r is None:
            r = self._nn[n] = norm_name(n)
        return r

    def recursive_with(self, name):
        """the functions that call each other in a circle with this one (itself included): a contract is never assumed
        for a call that may lead back to the function being verified"""
        if self._scc is None:
            self._scc = strongly_connected({n: self.callees(n) for n in self.by_name})
        return self._scc.get(name, {name})

    def callees(self, name):
        f = self.by_name[name]
        out = set()
        for b in f["blocks"]:
            t = b["t"]
            if t["t"] == "call" and isinstance(t["f"], dict) and t["f"].get("name"):
                out.add(self.nn(t["f"]["name"]))
        if self._kids is None:              # a closure runs when its function runs
            self._kids = {}
            for n in self.by_name:
                i = n.rfind("::{closure#")
                if i >= 0:
                    self._kids.setdefault(n[:i], []).append(n)
        out |= set(self._kids.get(name, ()))
        return {n for n in out if n in self.by_name}

    def fn(self, name):
        f = self.by_name.get(name)
        if f is None:
            raise Unsupported(f"no function {name}")
        return f

    def fields(self, ty, var=0):
        t = self.types.get(ty)
        if not t or not t.get("variants"):
            raise Unsupported(f"layout of {ty}")
        return [f[0] for f in t["variants"][var]["fields"]]

    def ftypes(self, ty, var=0):
        return [f[1] for f in self.types[ty]["variants"][var]["fields"]]


def strongly_connected(g):
    """node -> its component (Kosaraju, without recursion)"""
    order, seen = [], set()
    for r in g:
        if r in seen:
            continue
        seen.add(r)
        stack = [(r, iter(g[r]))]
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(g[v])))
                    break
            else:
                order.append(u)
                stack.pop()
    back = {n: [] for n in g}
    for u in g:
        for v in g[u]:
            back[v].append(u)
    comp = {}
    for r in reversed(order):
        if r in comp:
            continue
        c, work = set(), [r]
        while work:
            u = work.pop()
            if u not in comp:
                comp[u] = c
                c.add(u)
                work += back[u]
    return comp


class Frame:
    __slots__ = ("f", "L", "mv")

    def __init__(self, f):
        self.f = f
        self.L = [UNINIT] * len(f["locals"])


class Exec:
    """executes functions under a path context; `contracts` maps normalized names to handlers"""

    def __init__(self, prog, cx, contracts, natives, skip=()):
        self.prog, self.cx = prog, cx
        self.contracts, self.natives = contracts, natives
        self.skip = set(skip)
        self.depth = 0
        self.calls = {}
        self.used = set()          # contracts relied upon
        self.inlined = set()
        self.trusted = set()       # external functions used
        self.loop_hook = {}
        self.fold_rule = None       # (ex, iterator, start, closure) -> value or None
        cx.ex = self

    # ------------------------------------------------------------ structure helpers
    def adt(self, ty, **kw):
        names = self.prog.fields(ty)
        if set(names) != set(kw):
            raise Unsupported(f"fields of {ty} are {names}")
        return Adt(ty, 0, [kw[n] for n in names])

    def field(self, v, name):
        if not isinstance(v, Adt):
            raise Unsupported(f"field {name} of {v!r}")
        names = self.prog.fields(v.ty, v.var)
        if name not in names:
            raise Unsupported(f"no field {name} in {v.ty}")
        return v.f[names.index(name)]

    def some(self, v, ty="std::option::Option<?>"):
        return Adt(ty, 1, [v])

    def none(self, ty="std::option::Option<?>"):
        return Adt(ty, 0, [])

    def ok(self, v):
        return Adt("std::result::Result<?>", 0, [v])

    def err(self, v):
        return Adt("std::result::Result<?>", 1, [v])

    # ------------------------------------------------------------ calls
    def call(self, fd, args, ret_ty=None):
        """fd: callee descriptor of the dump"""
        if fd["kind"] == "indirect":
            raise Unsupported("indirect call")
        name = self.prog.nn(fd["name"])
        if fd["kind"] == "virtual":
            return self.vcall(name, fd, args)
        return self.call_named(name, args, fd)

    def vcall(self, name, fd, args):
        r = args[0]
        v = r.get() if isinstance(r, Ref) else r
        while isinstance(v, (Ref, Box)):
            v = v.get() if isinstance(v, Ref) else v.cell[0]
            r = ref(v) if not isinstance(r, Ref) else r
        m = re.match(r"<dyn .* as (.*)>::(\w+)$", name) or re.match(r"<dyn .* as (.*)>::(\w+)", name)
        trait = m.group(1) if m else None
        meth = name.rsplit("::", 1)[1]
        args = [ref(v)] + list(args[1:])
        if isinstance(v, Ghost):
            h = v.d.get("methods", {}).get(meth)
            if h is None:
                raise Unsupported(f"method {meth} of an abstract object")
            return h(self, args)
        if not isinstance(v, Adt):
            raise Unsupported(f"virtual call on {v!r}")
        cands = [n for n in self.prog.by_name if n.startswith(f"<{v.ty} as ") and n.endswith(f">::{meth}")]
        if not cands and meth in ("domain", "codomain", "push", "pull", "map"):
            cands = [n for n in self.prog.by_name if n.endswith(f">::{meth}") and n.startswith(f"<{v.ty.split('::')[-1]} as")]
        if len(cands) > 1 and trait:
            t = trait.split("<")[0].split("::")[-1]
            cands = [n for n in cands if t in n] or cands
        if len(cands) != 1:
            raise Unsupported(f"virtual call {name} on {v.ty}: {cands}")
        return self.call_named(cands[0], args, None)

    def call_named(self, name, args, fd=None):
        cx = self.cx
        self.calls[name] = self.calls.get(name, 0) + 1
        if name not in self.skip:
            c = self.contracts.get(name)
            if c is not None:
                if name not in getattr(self.contracts, "disabled", ()):
                    self.used.add(name)
                return c(self, args)
        f = self.prog.fns.get(fd["id"]) if fd is not None else None
        if f is None:
            f = self.prog.by_name.get(name)
        if f is not None and f["local"]:
            self.inlined.add(name)
            return self.run(f, args)
        h = self.natives(name)
        if h is not None:
            self.trusted.add(name)
            return h(self, args, fd)
        if f is not None:
            self.inlined.add(name)
            return self.run(f, args)
        raise Unsupported(f"call of {name}")

    def call_value(self, fv, args):
        """call a function value or closure with the given argument list"""
        while isinstance(fv, (Ref, Box)):
            fv = fv.get() if isinstance(fv, Ref) else fv.cell[0]
        if isinstance(fv, Fn):
            return self.call(fv.f, args)
        if isinstance(fv, Adt):
            t = self.prog.types.get(fv.ty)
            if t and t["k"] == "closure" and t["fn"]:
                body = self.prog.fns.get(t["fn"]["id"])
                if body is None:
                    raise Unsupported("closure body")
                first = body["locals"][1]
                selfarg = ref(fv) if self.prog.types.get(first, {}).get("k") == "ref" else fv
                if body["args"] == 1 + len(args):
                    return self.run(body, [selfarg] + list(args))
                return self.run(body, [selfarg, Tup(list(args))])
        raise Unsupported(f"call of {fv!r}")

    def run(self, f, args):
        cx = self.cx
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        self.depth += 1
        try:
            fr = Frame(f)
            if len(args) == 2 and f["args"] == 2 and isinstance(args[1], Tup) and len(args[1].f) == 1 and \
                    "{closure" in f["n"] and self.prog.types.get(f["locals"][2], {}).get("k") != "tuple":
                args = [args[0], args[1].f[0]]      # rust-call ABI with one argument
            if len(args) != f["args"]:
                if f["args"] == 2 and len(args) > 2:
                    args = [args[0], Tup(list(args[1:]))]
                elif len(args) == 2 and isinstance(args[1], Tup) and f["args"] == 1 + len(args[1].f):
                    args = [args[0]] + list(args[1].f)
                else:
                    raise Unsupported(f"arity of {f['n']}: {len(args)} for {f['args']}")
            for i, a in enumerate(args):
                fr.L[1 + i] = a
            for i, t in enumerate(f["locals"]):
                if fr.L[i] is UNINIT:
                    tt = self.prog.types.get(t)
                    if tt and tt["k"] == "tuple" and not tt["fields"]:
                        fr.L[i] = UNIT
            bb = 0
            hook = self.loop_hook.get(f["n"])
            if hook is None:
                hook = padding_hook(self, f)
            while True:
                cx.steps += 1
                if cx.steps > 200000:
                    raise Budget("too many steps")
                if hook is not None:
                    hook(self, fr, bb)
                b = f["blocks"][bb]
                for s in b["s"]:
                    k = s["s"]
                    if k == "assign":
                        self.store(fr, s["p"], self.rvalue(fr, s["r"], s["p"]))
                    elif k == "setdiscr":
                        v = self.load(fr, s["p"])
                        v.var = s["v"]
                    else:
                        raise Unsupported(s.get("what", k))
                t = b["t"]
                k = t["t"]
                if k == "goto":
                    bb = t["target"]
                elif k == "switch":
                    bb = self.switch(self.operand(fr, t["d"]), t)
                elif k == "return":
                    return fr.L[0]
                elif k == "drop":
                    v = self.load(fr, t["p"], quiet=True)
                    self.drop(v)
                    bb = t["target"]
                elif k == "call":
                    av = [self.operand(fr, a) for a in t["args"]]
                    if t["f"]["kind"] == "indirect":
                        r = self.call_value(self.operand(fr, t["f"]["op"]), av)
                    else:
                        r = self.call(t["f"], av)
                    if t["target"] is None:
                        raise Unsupported(f"diverging call {t['f']['name']} returned")
                    self.store(fr, t["dest"], r)
                    bb = t["target"]
                elif k == "assert":
                    c = self.operand(fr, t["c"])
                    if c == t["exp"]:
                        bb = t["target"]
                    else:
                        raise Panic(t["msg"])
                elif k == "unreachable":
                    raise Infeasible()
                else:
                    raise Unsupported(f"terminator {k}")
        finally:
            self.depth -= 1

    def drop(self, v):
        if isinstance(v, RefMut):
            v.rc.borrowed = False

    # ------------------------------------------------------------ places
    def place(self, fr, p):
        """(container, key)"""
        c, k = fr.L, p[0]
        for e in p[1]:
            kind = e[0]
            v = c[k]
            if kind == "deref":
                if isinstance(v, Ref):
                    if isinstance(v, ByteRef):
                        c, k = v, None
                        # byte references: emulate a container
                        c, k = _ByteCell(v), 0
                    else:
                        c, k = v.c, v.k
                elif isinstance(v, (Box, Arc)):
                    c, k = v.cell, 0
                else:
                    raise Unsupported(f"deref of {v!r}")
            elif kind == "field":
                if isinstance(v, (Adt, Tup)):
                    if isinstance(v, Adt) and e[1] >= len(v.f):
                        raise Unsupported(f"field {e[1]} of {v.ty}")
                    c, k = v.f, e[1]
                elif isinstance(v, Box):
                    # Box internals: pointer fields all lead to the pointee
                    pass
                elif v is UNINIT:
                    nv = self.blank(fr, p, e)
                    c[k] = nv
                    c, k = nv.f, e[1]
                elif isinstance(v, Opaque) and v.what == "maybeuninit":
                    c, k = v.data, 0
                else:
                    raise Unsupported(f"field of {v!r}")
            elif kind == "downcast":
                pass
            elif kind in ("index", "cindex", "constindex"):
                i = fr.L[e[1]] if kind == "index" else e[1]
                if kind == "index":
                    i = i.p
                else:
                    if len(e) > 3 and e[3]:
                        raise Unsupported("index from the end")
                    i = P(i)
                if isinstance(v, Arr):
                    if not i.is_const():
                        raise Unsupported("symbolic index")
                    c, k = v.f, i.cval()
                elif isinstance(v, Rope):
                    c, k = _ByteCell(ByteRef(v, i, self.cx)), 0
                elif isinstance(v, Ghost) and "index" in v.d:
                    c, k = [v.d["index"](self, i)], 0
                else:
                    raise Unsupported(f"index of {v!r}")
            elif kind == "ocast":
                pass
            else:
                raise Unsupported(f"projection {kind}")
        return c, k

    def blank(self, fr, p, e):
        n = e[1] + 1
        return Tup([UNINIT] * max(n, 8))

    def load(self, fr, p, quiet=False):
        if not p[1]:
            return fr.L[p[0]]
        try:
            c, k = self.place(fr, p)
            return c[k]
        except Unsupported:
            if quiet:
                return UNINIT
            raise

    def store(self, fr, p, v):
        if not p[1]:
            fr.L[p[0]] = v
            return
        c, k = self.place(fr, p)
        c[k] = v

    def operand(self, fr, o):
        k = o[0]
        if k == "move":
            return self.load(fr, o[1])
        if k == "copy":
            return clone(self.load(fr, o[1]))
        return self.const(o[1])

    def const(self, c):
        k = c["c"]
        if k == "int":
            return Int(int(c["v"]), c["ty"])
        if k == "bool":
            return bool(c["v"])
        if k == "str":
            return Str([("lit", c["v"])])
        if k == "ref":
            return ref(self.const(c["v"]))
        if k == "arr":
            vs = [self.const(x) for x in c["v"]]
            if vs and isinstance(vs[0], Int) and vs[0].ty == "u8":
                return Rope([("be", x.p, ONE) for x in vs])
            return Arr(vs)
        if k == "tuple":
            return Tup([self.const(x) for x in c["v"]])
        if k == "adt":
            return Adt(c["ty"], c["variant"], [self.const(x) for x in c["v"]])
        if k == "zst":
            t = self.prog.types.get(c["ty"])
            if t and t["k"] == "fndef":
                return Fn(t["fn"])
            if t and t["k"] == "closure":
                return Adt(c["ty"], 0, [])
            if t and t["k"] == "adt":
                return Adt(c["ty"], 0, [])
            return UNIT
        b = c.get("bytes")
        t = self.prog.types.get(c.get("ty"), {})
        if t.get("k") == "adt" and t.get("enum") and b is not None and len(b) == 1 and b[0] is not None:
            return Adt(c["ty"], b[0], [])
        return Opaque("const", c)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r, dest=None):
        k = r[0]
        cx = self.cx
        if k == "use":
            return self.operand(fr, r[1])
        if k in ("ref", "addr"):
            p = r[2] if k == "ref" else r[1]
            c, key = self.place(fr, p)
            if isinstance(c, _ByteCell):
                return c.r
            return Ref(c, key)
        if k == "bin":
            return self.binop(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]))
        if k == "cbin":
            return self.checked(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]))
        if k == "un":
            return self.unop(r[1], self.operand(fr, r[2]))
        if k == "cast":
            return self.cast(r[1], self.operand(fr, r[2]), r[3])
        if k == "discr":
            v = self.load(fr, r[1])
            if isinstance(v, Adt):
                t = self.prog.types.get(v.ty)
                d = v.var
                if t and t.get("variants") and len(t["variants"]) > v.var:
                    d = int(t["variants"][v.var]["discr"])
                return Int(d, "isize")
            raise Unsupported(f"discriminant of {v!r}")
        if k == "len":
            v = self.load(fr, r[1])
            return self.length(v)
        if k == "aggr":
            vs = [self.operand(fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "array":
                if kk[1] == "u8":
                    return Rope([("be", x.p, ONE) for x in vs])
                return Arr(vs)
            if kk[0] == "tuple":
                return Tup(vs)
            if kk[0] == "adt":
                return Adt(kk[1], kk[2], vs)
            if kk[0] == "closure":
                return Adt(kk[1], 0, vs)
            raise Unsupported(f"aggregate {kk}")
        if k == "repeat":
            v = self.operand(fr, r[1])
            n = r[2]
            if isinstance(v, Int) and v.ty == "u8":
                return Rope([("be", v.p, ONE)] * n) if not v.p.is_zero() else Rope([("be", ZERO, P(n))])
            return Arr([clone(v) for _ in range(n)])
        raise Unsupported(f"rvalue {k}")

    def length(self, v):
        if isinstance(v, Arr):
            return Int(len(v.f), "usize")
        if isinstance(v, Rope):
            return Int(v.length(), "usize")
        if isinstance(v, Str):
            return Int(v.length(), "usize")
        if isinstance(v, Ghost) and "len" in v.d:
            return Int(v.d["len"], "usize")
        raise Unsupported(f"length of {v!r}")

    def unop(self, op, a):
        if op == "Not":
            if isinstance(a, bool):
                return not a
            lo, hi, b, s = INT[a.ty]
            return Int(-a.p - 1 if s else P(hi) - a.p, a.ty)
        if op == "Neg":
            return self.wrap(-a.p, a.ty)
        if op == "PtrMetadata":
            return self.length(a.get())
        raise Unsupported(f"unary {op}")

    def in_range(self, p, ty):
        lo, hi, b, s = INT[ty]
        return self.cx.le(lo, p) and self.cx.le(p, hi)

    def wrap(self, p, ty):
        if self.in_range(p, ty):
            return Int(p, ty)
        lo, hi, b, s = INT[ty]
        m = self.cx.mod(p - lo, 1 << b) + lo
        return Int(m, ty)

    def arith(self, op, a, b):
        if op == "Add":
            return a.p + b.p
        if op == "Sub":
            return a.p - b.p
        if op == "Mul":
            return a.p * b.p
        raise Unsupported(op)

    def checked(self, op, a, b):
        r = self.arith(op, a, b)
        if self.in_range(r, a.ty):
            return Tup([Int(r, a.ty), False])
        return Tup([self.wrap(r, a.ty), True])

    def binop(self, op, a, b):
        cx = self.cx
        if isinstance(a, bool):
            b = bool(b)
            return {"Eq": a == b, "Ne": a != b, "BitXor": a != b, "BitAnd": a and b, "BitOr": a or b,
                    "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            return self.checked(op[:3], a, b)
        op = op.replace("Unchecked", "")
        if not isinstance(a, Int) or not isinstance(b, Int):
            if op == "Offset":
                raise Unsupported("pointer arithmetic")
            raise Unsupported(f"{op} on {a!r}, {b!r}")
        if op == "Eq":
            return cx.big_eq(a.p, b.p)
        if op == "Ne":
            return not cx.big_eq(a.p, b.p)
        if op == "Lt":
            return cx.lt(a.p, b.p)
        if op == "Le":
            return cx.le(a.p, b.p)
        if op == "Gt":
            return cx.lt(b.p, a.p)
        if op == "Ge":
            return cx.le(b.p, a.p)
        if op == "Cmp":
            d = -1 if cx.lt(a.p, b.p) else 0 if cx.eq(a.p, b.p) else 1
            return Adt("std::cmp::Ordering", d + 1, [])
        if op in ("Add", "Sub", "Mul"):
            return self.wrap(self.arith(op, a, b), a.ty)
        if op in ("Div", "Rem"):
            if not (INT[a.ty][3]):
                if not cx.int_valid("le", 1 - b.p):
                    raise Unsupported("division by an unbounded value")
                return Int(cx.div(a.p, b.p) if op == "Div" else cx.mod(a.p, b.p), a.ty)
            if a.p.is_const() and b.p.is_const():
                x, y = a.p.cval(), b.p.cval()
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return Int(q if op == "Div" else x - q * y, a.ty)
            if cx.le(0, a.p) and cx.int_valid("le", 1 - b.p):
                return Int(cx.div(a.p, b.p) if op == "Div" else cx.mod(a.p, b.p), a.ty)
            raise Unsupported("signed division")
        if op == "Shr":
            sh = b.p
            if a.p.is_const() and sh.is_const():
                return Int(a.p.cval() >> sh.cval(), a.ty)
            return Int(cx.div(a.p, cx.pow2(sh)), a.ty)
        if op == "Shl":
            return self.wrap(a.p * cx.pow2(b.p), a.ty)
        return self.bitop(op, a, b)

    def bitop(self, op, a, b):
        cx = self.cx
        if a.p.is_const() and b.p.is_const():
            x, y = a.p.cval(), b.p.cval()
            return Int({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op], a.ty)
        if a.p.is_const():
            a, b = b, a
        if b.p.is_const():
            y = b.p.cval()
            if op == "BitAnd" and y >= 0:
                if y == 0:
                    return Int(0, a.ty)
                if y & (y + 1) == 0:
                    return Int(cx.mod(a.p, y + 1), a.ty)
                low = (y & -y).bit_length() - 1
                z = y >> low
                if z & (z + 1) == 0:
                    return Int(cx.mod(cx.div(a.p, 1 << low), z + 1) * (1 << low), a.ty)
            if op in ("BitOr", "BitXor") and y == 0:
                return a
            if op in ("BitOr", "BitXor") and y > 0:
                low = (y & -y).bit_length() - 1
                # the set bits of y are above every bit of a, or a is a multiple of 2^(bits of y)
                if self.small(a.p, 1 << low):
                    return Int(a.p + y, a.ty)
                if cx.mod(a.p, 1 << y.bit_length()).is_zero():
                    return Int(a.p + y, a.ty)
        if op == "BitAnd":
            for x, m in ((a.p, b.p), (b.p, a.p)):
                if cx.log2(m) is not None:              # one bit
                    return Int(cx.mod(cx.div(x, m), 2) * m, a.ty)
                if cx.log2(m + 1) is not None:          # low bits
                    return Int(cx.mod(x, m + 1), a.ty)
        raise Unsupported(f"{op} of {a}, {b}")

    def small(self, p, bound):
        """0 <= p < bound provable (also through a division by a power of two)"""
        cx = self.cx
        if cx.int_valid("le", -p) and cx.int_valid("le", p - bound + 1):
            return True
        a = cx._single(p)
        if a is not None and a.kind == "div":
            n, d = a.args
            if cx.int_valid("le", -n) and cx.int_valid("le", n - d * bound + 1):
                return True
            l, e = cx._lift_of(n), cx.log2(d * bound)
            if l is not None and e is not None:      # n < p < 2^bits(p) <= d * bound
                return cx.int_valid("le", cx.bits(P(l[0])) - e)
        return False

    def cast(self, kind, v, ty):
        cx = self.cx
        if kind == "IntToInt" or kind.startswith("IntToInt"):
            if isinstance(v, bool):
                return Int(int(v), ty)
            if isinstance(v, Adt):
                v = Int(v.var, "isize")
            return self.wrap(v.p, ty)
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("BoxDerefTransmute", "PtrToPtr", "Transmute", "Subtype"):
            if isinstance(v, Box):
                return Ref(v.cell, 0)
            if isinstance(v, Ref):
                return v
            t = self.prog.types.get(ty, {})
            if isinstance(v, Int) and ty in INT:
                return self.wrap(v.p, ty)
            if isinstance(v, bool) and ty in INT:
                return Int(int(v), ty)
        raise Unsupported(f"cast {kind} of {v!r} to {ty}")

    def switch(self, v, t):
        cx = self.cx
        if isinstance(v, bool):
            x = int(v)
            for val, bb in t["br"]:
                if int(val) == x:
                    return bb
            return t["other"]
        if not isinstance(v, Int):
            raise Unsupported(f"switch on {v!r}")
        lo, hi, b, s = INT[v.ty] if v.ty in INT else (0, 0, 64, True)
        for val, bb in t["br"]:
            c = int(val)
            if s and c >= 1 << (b - 1):
                c -= 1 << b
            if cx.big_eq(v.p, P(c)):
                return bb
        return t["other"]


class _ByteCell:
    """container emulation for a single byte of a byte string"""

    def __init__(self, r):
        self.r = r

    def __getitem__(self, i):
        return self.r.get()

    def __setitem__(self, i, v):
        self.r.set(v)
