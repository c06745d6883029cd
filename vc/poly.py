"""Sparse multivariate polynomials over Z with interned atoms.

One class serves two purposes: integer terms (atoms are integer valued) and residues in GF(p)
(atoms are field valued).  Exponents are ints, or integer polynomials (only for field atoms, from
exponentiation with a symbolic exponent)."""
from functools import lru_cache


class Atom:
    __slots__ = ("uid", "kind", "args", "name", "__weakref__")
    _tab = {}
    _all = []

    def __init__(self, uid, kind, args, name):
        self.uid, self.kind, self.args, self.name = uid, kind, args, name

    def __repr__(self):
        return self.name

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


def atom(kind, *args, name=None):
    key = (kind, args)
    a = Atom._tab.get(key)
    if a is None:
        uid = len(Atom._all)
        if name is None:
            name = f"{kind}({', '.join(map(str, args))})" if args else kind
        a = Atom(uid, kind, args, name)
        Atom._tab[key] = a
        Atom._all.append(a)
    return a


def atom_by_uid(u):
    return Atom._all[u]


def reset_atoms():
    Atom._tab.clear()
    Atom._all.clear()
    _factor_cached.cache_clear()


def _exp_key(e):
    return e if isinstance(e, int) else e.key()


class Poly:
    """terms: dict mono -> int, mono = tuple of (uid, exp) sorted by uid, exp != 0"""
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    # ---- construction
    @staticmethod
    def const(c):
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def var(a, e=1):
        return Poly({((a.uid, e),): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, c) for m, c in self.t.items()), key=_mono_sort))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            return self.is_const() and self.cval() == o
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def __bool__(self):
        return bool(self.t)

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) - c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __rsub__(self, o):
        return Poly.const(o) - self

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            return Poly({m: c * o for m, c in self.t.items()})
        a, b = self.t, o.t
        if len(a) > len(b):
            a, b = b, a
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        r, b = ONE, self
        while n:
            if n & 1:
                r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for u, e in m:
                s.add(u)
        return {atom_by_uid(u) for u in s}

    def degree_in(self, a):
        u = a.uid
        d = 0
        for m in self.t:
            for v, e in m:
                if v == u:
                    if not isinstance(e, int):
                        return None
                    d = max(d, e)
        return d

    def has_symexp(self):
        return any(not isinstance(e, int) for m in self.t for _, e in m)

    def coeffs_in(self, a):
        """dict degree -> Poly (integer exponents of a only)"""
        u = a.uid
        out = {}
        for m, c in self.t.items():
            d = 0
            rest = m
            for i, (v, e) in enumerate(m):
                if v == u:
                    d = e
                    rest = m[:i] + m[i + 1:]
                    break
            out.setdefault(d, {})[rest] = c
        return {d: Poly(t) for d, t in out.items()}

    def subst(self, mp):
        """mp: dict Atom -> Poly; integer exponents only for substituted atoms"""
        us = {a.uid: p for a, p in mp.items()}
        if not any(v in us for m in self.t for v, _ in m):
            return self
        cache = {}
        groups = {}
        for m, c in self.t.items():
            keep, sub = [], []
            for v, e in m:
                (sub if v in us else keep).append((v, e))
            groups.setdefault(tuple(sub), {})[tuple(keep)] = c
        r = ZERO
        for sub, t in groups.items():
            f = Poly(t)
            for v, e in sub:
                if not isinstance(e, int):
                    raise SymExp()
                k = (v, e)
                if k not in cache:
                    cache[k] = us[v] ** e
                f = f * cache[k]
            r = r + f
        return r

    def map_coeff(self, f):
        r = {}
        for m, c in self.t.items():
            v = f(c)
            if v:
                r[m] = v
        return Poly(r)

    def evaluate(self, env):
        """env: dict Atom -> int"""
        s = 0
        for m, c in self.t.items():
            for v, e in m:
                c *= env[atom_by_uid(v)] ** e
            s += c
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=_mono_sort)[:40]:
            s = "*".join(atom_by_uid(v).name + ("" if e == 1 else f"^{e}" if isinstance(e, int) else f"^({e})") for v, e in m)
            if not m:
                out.append(f"{c:+d}")
            elif c == 1:
                out.append("+" + s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{c:+d}*{s}")
        if len(self.t) > 40:
            out.append("+...")
        s = " ".join(out)
        return s[1:] if s.startswith("+") else s


class SymExp(Exception):
    pass


def _mono_sort(mc):
    m = mc[0]
    return (-sum(e for _, e in m if isinstance(e, int)), tuple((u, _exp_sort(e)) for u, e in m))


def _exp_sort(e):
    return (0, e, "") if isinstance(e, int) else (1, 0, repr(e))


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    na, nb = len(a), len(b)
    out = []
    while i < na and j < nb:
        ua, ea = a[i]
        ub, eb = b[j]
        if ua == ub:
            e = ea + eb
            if not isinstance(e, int) and e.is_const():
                e = e.cval()
            if not (isinstance(e, int) and e == 0):
                out.append((ua, e))
            i += 1
            j += 1
        elif ua < ub:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return Poly.const(int(x))
    if isinstance(x, Atom):
        return Poly.var(x)
    raise TypeError(x)


# ------------------------------------------------------------------ factorisation through sympy
@lru_cache(maxsize=20000)
def _factor_cached(p):
    from sympy import ring, ZZ
    ats = sorted(p.atoms(), key=lambda a: a.uid)
    if not ats:
        return p.cval(), ()
    R, *gens = ring([f"v{a.uid}" for a in ats], ZZ)
    idx = {a.uid: i for i, a in enumerate(ats)}
    d = {}
    for m, c in p.t.items():
        e = [0] * len(ats)
        for u, k in m:
            e[idx[u]] = k
        d[tuple(e)] = c
    f = R.from_dict({k: ZZ(v) for k, v in d.items()})
    c, fs = f.factor_list()
    out = []
    for g, k in fs:
        t = {}
        for e, cc in g.to_dict().items():
            t[tuple((ats[i].uid, x) for i, x in enumerate(e) if x)] = int(cc)
        q = Poly(t)
        # canonical sign
        q, s = sign_norm(q)
        if s < 0 and k % 2:
            c = -c
        out.append((q, k))
    return int(c), tuple(out)


def sign_norm(q):
    """(canonical representative among q, -q; sign)"""
    if not q.t:
        return q, 1
    m = min(q.t, key=lambda m: _mono_sort((m, 0)))
    if q.t[m] < 0:
        return -q, -1
    return q, 1


def factor(p):
    """integer content with sign, ((irreducible poly, multiplicity), ...). Integer exponents only."""
    if p.is_const():
        return p.cval(), ()
    # pull out monomial content first (cheap)
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for u in list(common):
            if u in d:
                common[u] = min(common[u], d[u])
            else:
                del common[u]
        if not common:
            break
    out = []
    if common:
        q = {}
        for m, c in p.t.items():
            q[tuple((u, e - common.get(u, 0)) for u, e in m if e != common.get(u, 0))] = c
        p = Poly(q)
        out = [(Poly.var(atom_by_uid(u)), k) for u, k in common.items()]
    if p.is_const():
        return p.cval(), tuple(out)
    if len(p.t) == 1:
        raise AssertionError
    c, fs = _factor_cached(p)
    return c, tuple(out) + fs


def exact_div(a, b):
    """a / b if b divides a over Z, else None"""
    from sympy import ring, ZZ
    ats = sorted(a.atoms() | b.atoms(), key=lambda x: x.uid)
    if not ats:
        return P(a.cval() // b.cval()) if b.cval() and a.cval() % b.cval() == 0 else None
    R, *gens = ring([f"v{x.uid}" for x in ats], ZZ)
    idx = {x.uid: i for i, x in enumerate(ats)}

    def conv(p):
        d = {}
        for m, c in p.t.items():
            e = [0] * len(ats)
            for u, k in m:
                e[idx[u]] = k
            d[tuple(e)] = ZZ(c)
        return R.from_dict(d)
    q, r = conv(a).div(conv(b))
    if r:
        return None
    return Poly({tuple((ats[i].uid, x) for i, x in enumerate(e) if x): int(c) for e, c in q.to_dict().items()})
