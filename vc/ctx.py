"""Path context: decisions, integer facts (z3) and facts about GF(p) residues.

A function is executed once per path; nondeterministic decisions are replayed from a recorded prefix.
All booleans met during execution are decided eagerly (two paths when the facts do not settle them)."""
import z3
from .poly import Poly, P, atom, Atom, atom_by_uid, ZERO, ONE, factor, sign_norm, SymExp


class Infeasible(Exception):
    """the facts of this path are contradictory"""


class Unsupported(Exception):
    """the executor does not know this construct"""


class ProofFailure(Exception):
    def __init__(self, what, detail=""):
        Exception.__init__(self, what, detail)
        self.what, self.detail = what, detail


class Budget(Exception):
    pass


class Ctx:
    threads = False     # do other threads use the cells of shared handles at the same time (C30)

    def __init__(self, prefix=(), log=None):
        self.prefix = list(prefix)
        self.taken = []
        self.pt_zero, self.pt_nonzero, self.pt_unsure = [], [], False     # group elements assumed (not) the identity
        self.alts = []
        self.trace = []            # human readable facts of this path
        self.assumed = False       # does this path assume a loop invariant
        self.solver = z3.Solver()
        self.solver.set("timeout", 8000)
        self.fields = {}
        self.zcache = {}
        self.zseen = set()
        self.bools = {}
        self.stats = log if log is not None else {"z3": 0, "z3_time": 0.0, "field": 0}
        self.obligations = []
        self.fresh_n = {}
        self.memo = {}
        self.unit_primes = {}
        self.int_facts_n = 0
        self.steps = 0

    # ---------------------------------------------------------------- fresh atoms
    def fresh(self, name):
        """a fresh integer atom (deterministic per path position)"""
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        nm = name if n == 0 else f"{name}.{n}"
        return atom("var", nm, name=nm)

    def ffresh(self, name):
        n = self.fresh_n.get("f:" + name, 0)
        self.fresh_n["f:" + name] = n + 1
        nm = name if n == 0 else f"{name}.{n}"
        return atom("fvar", nm, name=nm)

    # ---------------------------------------------------------------- decisions
    def choose(self, what, feas_true=True, feas_false=True):
        """nondeterministic choice, explored both ways"""
        if feas_true and not feas_false:
            return True
        if feas_false and not feas_true:
            return False
        if not feas_true and not feas_false:
            raise Infeasible()
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = True
            self.alts.append(self.taken + [False])
        self.taken.append(c)
        if len(self.taken) > 200:
            raise Budget("too many decisions on one path")
        return c

    def note(self, s):
        self.trace.append(s)

    # ---------------------------------------------------------------- integers
    def z(self, p):
        """z3 term of an integer polynomial"""
        p = P(p)
        r = self.zcache.get(p)
        if r is not None:
            return r
        terms = []
        for m, c in p.t.items():
            f = [z3.IntVal(c)] if c != 1 or not m else []
            for u, e in m:
                a = self.zatom(atom_by_uid(u))
                f += [a] * e
            t = f[0]
            for x in f[1:]:
                t = t * x
            terms.append(t)
        r = z3.IntVal(0) if not terms else terms[0] if len(terms) == 1 else z3.Sum(terms)
        self.zcache[p] = r
        return r

    def zatom(self, a):
        r = self.zcache.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "div":
            n, d = a.args
            r = self.z(n) / self.z(d)      # z3 integer div: floor for positive divisor
            if not d.is_const():
                v = z3.Int(f"q{a.uid}")
                r = v
                self.zcache[a] = r
                zn, zd = self.z(n), self.z(d)
                self._zadd(z3.And(zd * v <= zn, zn < zd * v + zd))
        elif k == "mod":
            n, d = a.args
            if d.is_const():
                r = self.z(n) % self.z(d)
            else:
                v = z3.Int(f"m{a.uid}")
                r = v
                self.zcache[a] = r
                self._zadd(z3.And(v >= 0, v < self.z(d)))
        else:
            r = z3.Int(f"{k}_{a.uid}")
        self.zcache[a] = r
        if a not in self.zseen:
            self.zseen.add(a)
            if k == "lift":
                pk, f = a.args
                self._zadd(z3.And(r >= 0, r < self.z(pk)))
            elif k in ("bits", "nbytes", "nd32", "pow2"):
                self._atom_facts(a, r)
        return r

    def _zadd(self, f):
        self.solver.add(f)

    def _atom_facts(self, a, r):
        if a.kind == "bits":
            n = a.args[0]
            self._zadd(z3.And(r >= 0, (r == 0) == (self.z(n) == 0)))
            self._zadd(r <= 2 ** 50)      # an integer in memory (64-bit addresses)
            if self._single(n) is not None:
                self._zadd(z3.Implies(self.z(n) >= 2, r >= 2))
            if self._lift_of(n) is not None:
                pk, _ = self._lift_of(n)
                self._zadd(r <= self.z(self.bits(P(pk))))
        elif a.kind == "nbytes":
            n = a.args[0]
            b = self.z(self.bits(n))
            self._zadd(z3.And(8 * r >= b, 8 * r < b + 8))
        elif a.kind == "nd32":
            n = a.args[0]
            b = self.z(self.bits(n))
            self._zadd(z3.And(32 * r >= b, 32 * r < b + 32))
        elif a.kind == "pow2":
            e = a.args[0]
            self._zadd(r >= 1)
            self._zadd(r > self.z(e))

    def _lift_of(self, n):
        if len(n.t) == 1:
            (m, c), = n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = atom_by_uid(m[0][0])
                if a.kind == "lift":
                    return a.args
        return None

    def bits(self, n):
        n = P(n)
        if n.is_const():
            return P(abs(n.cval()).bit_length())
        return P(atom("bits", n))

    def nbytes(self, n):
        n = P(n)
        if n.is_const():
            return P((abs(n.cval()).bit_length() + 7) // 8)
        return P(atom("nbytes", n))

    def ndigits(self, n):
        n = P(n)
        if n.is_const():
            return P((abs(n.cval()).bit_length() + 31) // 32)
        return P(atom("nd32", n))

    def check(self, *assum):
        import time
        t = time.time()
        self.stats["z3"] += 1
        r = self.solver.check(*assum)
        self.stats["z3_time"] += time.time() - t
        return r

    def zcond(self, op, p):
        t = self.z(p)
        return t <= 0 if op == "le" else t == 0 if op == "eq" else t < 0

    def int_valid(self, op, p):
        p = P(p)
        if p.is_const():
            c = p.cval()
            return c <= 0 if op == "le" else c == 0
        c = self.zcond(op, p)
        return self.check(z3.Not(c)) == z3.unsat

    def int_branch(self, op, p, what=None):
        """decide p <= 0 / p == 0"""
        p = P(p)
        if p.is_const():
            c = p.cval()
            return c <= 0 if op == "le" else c == 0
        c = self.zcond(op, p)
        t = self.check(c)
        if t == z3.unsat:
            return False
        f = self.check(z3.Not(c))
        if f == z3.unsat:
            return True
        r = self.choose(what or f"{p} {'<=' if op == 'le' else '=='} 0")
        self._zadd(c if r else z3.Not(c))
        self.note(f"{p} {'<=' if op == 'le' else '=='} 0" if r else f"not({p} {'<=' if op == 'le' else '=='} 0)")
        return r

    def int_assume(self, op, p, val=True):
        p = P(p)
        if p.is_const():
            c = p.cval()
            ok = c <= 0 if op == "le" else c == 0
            if ok != val:
                raise Infeasible()
            return
        c = self.zcond(op, p)
        self._zadd(c if val else z3.Not(c))
        if self.check() == z3.unsat:
            raise Infeasible()

    def le(self, a, b):
        return self.int_branch("le", P(a) - P(b))

    def lt(self, a, b):
        return self.int_branch("le", P(a) - P(b) + 1)

    def eq(self, a, b):
        return self.int_branch("eq", P(a) - P(b))

    def model_val(self, p, model):
        v = model.eval(self.z(p), model_completion=True)
        return v.as_long()

    def boolvar(self, name):
        if name not in self.bools:
            self.bools[name] = self.choose(name)
            self.note(f"{name} = {self.bools[name]}")
        return self.bools[name]

    # ---------------------------------------------------------------- fields
    def field(self, pk):
        pk = P(pk)
        f = self.fields.get(pk)
        if f is None:
            from .field import FieldCtx
            f = FieldCtx(self, pk)
            self.fields[pk] = f
        return f

    # ---------------------------------------------------------------- integer operations
    def pow2(self, e):
        """2^e for an integer polynomial e >= 0"""
        e = P(e)
        if e.is_const():
            return P(1 << e.cval())
        c = e.cval()
        b = e - c
        key = ("pow2base", b)
        base = self.memo.get(key)
        if base is None or base + c < 0:
            old, base = base, base or 0
            for m in (64, 32, 16, 8, 4, 2, 1):
                if m > base and self.int_valid("le", P(m) - b):
                    if old is not None:     # more is known of b than when 2^(b - old) was named
                        x, y = atom("pow2", b - old), atom("pow2", b - m)
                        self._pow2_axioms(y)
                        self.int_assume("eq", P(x) - P(y) * (1 << (m - old)))
                    base = m
                    break
            self.memo[key] = base
        # atom stands for 2^(b - base); e = (b - base) + (base + c)
        k = base + c
        if k < 0:
            raise Unsupported("power of two with an unbounded exponent")
        a = atom("pow2", b - base)
        self._pow2_axioms(a)
        return P(a) * (1 << k)

    def log2(self, p):
        """e with p = 2^e, or None"""
        if len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        if c <= 0 or c & (c - 1):
            return None
        e = P(c.bit_length() - 1)
        for u, k in m:
            a = atom_by_uid(u)
            if a.kind != "pow2" or not isinstance(k, int):
                return None
            e = e + a.args[0] * k
        return e

    def _pow2_axioms(self, a):
        known = self.memo.setdefault("pow2s", [])
        if a in known:
            return
        za = self.zatom(a)
        ea = self.z(a.args[0])
        for b in known:
            zb, eb = self.zatom(b), self.z(b.args[0])
            d = a.args[0] - b.args[0]
            self._zadd(z3.Implies(ea <= eb, za <= zb))
            self._zadd(z3.Implies(eb <= ea, zb <= za))
            self._zadd(z3.Implies(ea < eb, 2 * za <= zb))
            self._zadd(z3.Implies(eb < ea, 2 * zb <= za))
        known.append(a)

    def bits_axioms(self, n):
        """2^(bits-1) <= n < 2^bits for n > 0"""
        n = P(n)
        key = ("bitsax", n)
        if key in self.memo or n.is_const():
            return
        self.memo[key] = True
        b = self.bits(n)
        if not self.int_valid("le", 1 - b):
            return
        h = self.pow2(b - 1)
        zn, zh = self.z(n), self.z(h)
        self._zadd(z3.And(zh <= zn, zn < 2 * zh))

    def _monomial(self, d):
        if len(d.t) == 1:
            (m, c), = d.t.items()
            return dict(m), c
        return None

    def div(self, n, d):
        """floor(n / d), d > 0"""
        n, d = P(n), P(d)
        q, r = self._divmod(n, d)
        if r.is_const() and d.is_const():
            return q + r.cval() // d.cval()
        if r.is_zero():
            return q
        # 0 <= r < d?
        if self.int_valid("le", -r) and (self._lt(r, d) or self._lift_below(r, d)):
            return q
        if d == 1:
            return q + r
        a = self._single(r)
        if a is not None and a.kind == "div" and d.is_const() and a.args[1].is_const():
            return q + self.div(a.args[0], a.args[1] * d)
        return q + P(atom("div", r, d))

    def _single(self, n):
        if len(n.t) == 1:
            (m, c), = n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return atom_by_uid(m[0][0])
        return None

    def _lift_below(self, n, d):
        """n < p < 2^bits(p) <= d for a canonical representative n"""
        l, e = self._lift_of(n), self.log2(d)
        return l is not None and e is not None and self.int_valid("le", self.bits(P(l[0])) - e)

    def _lt(self, a, b):
        return self.int_valid("le", a - b + 1)

    def _divmod(self, n, d):
        """exact part: n = q*d + r with r without visible multiples of d"""
        mono = self._monomial(d)
        q, r = {}, {}
        if mono is None:
            return ZERO, n
        dm, dc = mono
        for m, c in n.t.items():
            mm = dict(m)
            if all(mm.get(u, 0) >= e for u, e in dm.items()) and m != () or not dm:
                k = c // dc
                rest = c - k * dc
                if k:
                    qm = tuple(sorted((u, e - dm.get(u, 0)) for u, e in mm.items() if e != dm.get(u, 0)))
                    q[qm] = q.get(qm, 0) + k
                if rest:
                    r[m] = rest
            else:
                r[m] = c
        return Poly({m: c for m, c in q.items() if c}), Poly(r)

    def mod(self, n, d):
        """n mod d in [0, d), d > 0"""
        n, d = P(n), P(d)
        q, r = self._divmod(n, d)
        if r.is_const() and d.is_const():
            return P(r.cval() % d.cval())
        if r.is_zero():
            return r
        if self.int_valid("le", -r) and (self._lt(r, d) or self._lift_below(r, d)):
            return r
        k, m = self.log2(r), self.log2(d)
        if k is not None and m is not None:
            if self.int_valid("le", k + 1 - m):          # 2^k < 2^m
                return r
            if self.int_valid("le", m - k):              # 2^m divides 2^k
                return ZERO
        a = self._single(r)
        if a is not None and a.kind == "mod":
            if a.args[1] == d:
                return r
            if d.is_const() and a.args[1].is_const() and a.args[1].cval() % d.cval() == 0:
                return self.mod(a.args[0], d)
        if a is not None and a.kind == "lift" and d == 2:
            pk, f = a.args
            return P(1 if self.field(pk).is_odd(f) else 0)
        return P(atom("mod", r, d))

    # ---------------------------------------------------------------- residues
    def image(self, n, pk):
        """the residue of the integer n modulo pk as a field polynomial"""
        n, pk = P(n), P(pk)
        F = self.field(pk)
        mp = {}
        for a in n.atoms():
            if a.kind == "lift" and a.args[0] == pk:
                mp[a] = a.args[1]
            elif P(a) == pk:
                mp[a] = ZERO
            elif a.kind == "mod" and a.args[1] == pk:
                mp[a] = self.image(a.args[0], pk)
            else:
                mp[a] = P(atom("res", pk, a, name=f"[{a}]"))
        if self._single(pk) is None and not pk.is_const():
            # a modulus like p - 1: eliminate p
            for a in sorted(pk.atoms(), key=lambda a: a.uid):
                if a not in mp or a.kind in ("lift", "mod"):
                    continue
                cs = pk.coeffs_in(a)
                if set(cs) <= {0, 1} and cs[1] == ONE and cs.get(0, ZERO).is_const():
                    mp[a] = -cs.get(0, ZERO)
                    break
        return F.reduce(n.subst(mp))

    def lift(self, pk, f):
        """the canonical representative in [0, pk) of the residue f"""
        pk = P(pk)
        F = self.field(pk)
        f = F.reduce(f)
        if f.is_const():
            c = f.cval()
            if pk.is_const():
                return P(c % pk.cval())
            if c >= 0 and self.int_valid("le", P(c) - pk + 1):
                return P(c)
            if c < 0 and self.int_valid("le", P(-c) - pk):
                return pk + c
        x = self._single(f)
        if x is not None and x.kind == "res" and x.args[0] == pk:
            n = P(x.args[1])
            if self.int_valid("le", -n) and self._lt(n, pk):
                return n            # an integer already in [0, p)
        return P(atom("lift", pk, f, name=f"<{f}>"))

    def relift(self, n):
        """n with its canonical representatives recomputed from the facts known by now"""
        mp = {}
        for a in n.atoms():
            if a.kind == "lift":
                v = self.lift(a.args[0], a.args[1])
                if v != P(a):
                    self.int_assume("eq", P(a) - v)
                    mp[a] = v
            elif ("canonical", a) in self.memo:
                pk = self.memo[("canonical", a)]
                v = self.lift(pk, self.image(P(a), pk))
                if v != P(a):
                    self.int_assume("eq", P(a) - v)
                    mp[a] = v
        return n.subst(mp) if mp else n

    def mod_floor(self, n, m):
        n, m = P(n), P(m)
        if n.is_const() and m.is_const():
            return P(n.cval() % m.cval())
        if self._single(m) is None and not m.is_const():
            if self.int_valid("le", -n) and self._lt(n, m):
                return n
        return self.lift(m, self.image(n, m))

    def residue(self, n, pk):
        """(field polynomial) if n is provably canonical, i.e. 0 <= n < pk, else None"""
        n, pk = P(n), P(pk)
        a = self._single(n)
        if a is not None and a.kind == "lift" and a.args[0] == pk:
            return a.args[1]
        if self.int_valid("le", -n) and self.int_valid("le", n - pk + 1):
            if a is not None:
                self.memo[("canonical", a)] = pk
            return self.image(n, pk)
        return None

    def big_eq(self, a, b):
        a, b = P(a), P(b)
        if a == b:
            return True
        la, lb = self._lift_of(a), self._lift_of(b)
        if la and lb and la[0] == lb[0]:
            return self.field(la[0]).is_zero(la[1] - lb[1])
        for l, o in ((la, b), (lb, a)):
            if l:
                r = self.residue(o, l[0])
                if r is not None:
                    e = self.field(l[0]).is_zero(l[1] - r)
                    if not e and o.is_zero():
                        self._zadd(self.z(a if o is b else b) >= 1)
                    return e
        return self.eq(self.relift(a), self.relift(b))
