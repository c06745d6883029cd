"""Facts about residues modulo one prime on one path, and their decision procedure.

Residues are polynomials over Z in field atoms; an identity over Z (modulo the rewrite rules that the
facts of the path give) is an identity in GF(p).  Inverses are atoms inv(f) of polynomials f that the
path knows to be nonzero; they are cleared before any test."""
import os
from .poly import (Poly, P, atom, Atom, atom_by_uid, ZERO, ONE, factor, sign_norm, SymExp, exact_div)
from .ctx import Infeasible, Unsupported, ProofFailure


def _primes_of(c):
    c = abs(c)
    out = []
    d = 2
    while d * d <= c and d < 100000:
        while c % d == 0:
            out.append(d)
            c //= d
        d += 1
    if c > 1:
        out.append(c)
    return out


_STATES = {}


def _deep_atoms(p, seen=None):
    """the atoms of p, those under inverses included"""
    seen = set() if seen is None else seen
    for a in p.atoms():
        if a not in seen:
            seen.add(a)
            if a.kind == "inv" and isinstance(a.args[1], Poly):
                _deep_atoms(a.args[1], seen)
    return seen


class FieldCtx:
    def __init__(self, ctx, pk):
        self.ctx, self.pk = ctx, pk
        self.p = pk.cval() if pk.is_const() else None
        self.units = set()          # integer primes known to be units (symbolic modulus)
        self.sub = {}               # Atom -> Poly      (atom := poly)
        self.rules = []             # (Atom, k, Poly)   atom^k := poly, k >= 2
        self.nonzero = {}           # canonical irreducible poly -> True
        self.nz_raw = []            # polys known nonzero
        self.zero_raw = []
        self.chi = []               # (poly, bool)  quadratic character of nonzero polys
        self.odd = []               # (poly, bool)
        self.roots = []             # (poly a, poly r): r*r == a
        self.odd_p = self.p is None or self.p % 2 == 1
        self.fresh_cache()

    def fresh_cache(self):
        """normal forms depend on the rewrite rules only: paths in the same state share them"""
        key = (self.pk, frozenset(self.sub.items()), tuple(self.rules), frozenset(self.units))
        self.rc = _STATES.setdefault(key, {})
        self.lc = {}        # forms with symbolic exponents: this path only

    # ---------------------------------------------------------------- normal forms
    def coeff(self, p):
        if self.p is None:
            return p
        h = self.p // 2
        q = self.p

        def f(c):
            c %= q
            return c - q if c > h else c
        return p.map_coeff(f)

    def reduce(self, p):
        r = self.rc.get(p)
        if r is None:
            r = self.lc.get(p)
        if r is not None:
            return r
        q = self.coeff(p)
        q = self._unpow(q)
        for _ in range(60):
            o = q
            if self.sub:
                try:
                    q = self.coeff(q.subst(self.sub))
                except SymExp:
                    q = self._subst_sym(q)
            for a, k, rhs in self.rules:
                q = self._apply_rule(q, a, k, rhs)
            q = self._unpow(q)
            if self.sub or self.rules:
                q = self._refresh_inverses(q)
            if q == o:
                break
        else:
            raise Unsupported("rewriting does not terminate")
        (self.lc if q.has_symexp() or p.has_symexp() else self.rc)[p] = q
        return q

    def _refresh_inverses(self, q):
        """inverse atoms whose argument has a simpler form by now"""
        mp = {}
        for a in q.atoms():
            if a.kind != "inv":
                continue
            f = a.args[1]
            if any(b in self.sub for b in f.atoms()):
                g = self.reduce(f)
                if g.is_zero():
                    raise Infeasible()
                mp[a] = self.inv(g)
        if not mp:
            return q
        try:
            return self.coeff(q.subst(mp))
        except SymExp:
            return q

    def _subst_sym(self, q):
        """substitution when a substituted atom occurs with a symbolic exponent"""
        r = ZERO
        for m, c in q.t.items():
            t = Poly.const(c)
            for u, e in m:
                a = atom_by_uid(u)
                if a in self.sub:
                    if isinstance(e, int):
                        t = t * self.sub[a] ** e
                    else:
                        t = t * self.pow(self.sub[a], e)
                else:
                    t = t * Poly({((u, e),): 1})
            r = r + t
        return self.coeff(r)

    def _unpow(self, q):
        """expand alias atoms that occur with small integer exponents"""
        for a in q.atoms():
            if a.kind == "alias":
                ok = True
                for m in q.t:
                    for u, e in m:
                        if u == a.uid and not isinstance(e, int):
                            ok = False
                if ok:
                    q = q.subst({a: a.args[1]})
                else:
                    r = ZERO
                    for m, c in q.t.items():
                        t = Poly.const(c)
                        for u, e in m:
                            if u == a.uid and isinstance(e, int):
                                t = t * a.args[1] ** e
                            else:
                                t = t * Poly({((u, e),): 1})
                        r = r + t
                    q = r
        return self.coeff(q)

    def _apply_rule(self, q, a, k, rhs):
        u = a.uid
        if not any(v == u and isinstance(e, int) and e >= k for m in q.t for v, e in m):
            return q
        while True:
            hit = {}
            keep = {}
            for m, c in q.t.items():
                for i, (v, e) in enumerate(m):
                    if v == u and isinstance(e, int) and e >= k:
                        n = e // k
                        rest = m[:i] + (((u, e % k),) if e % k else ()) + m[i + 1:]
                        hit.setdefault(n, {})[rest] = c
                        break
                else:
                    keep[m] = c
            if not hit:
                return self.coeff(q)
            r = Poly(keep)
            for n, t in hit.items():
                r = r + Poly(t) * rhs ** n
            q = self.coeff(r)

    def clear(self, p):
        """numerator of p (inverse atoms cleared), together with the list of (den poly, power)"""
        dens = []
        for _ in range(400):
            best = None
            for a in p.atoms():
                if a.kind == "inv":
                    if best is None or a.uid > best.uid:
                        best = a
            if best is None:
                return p, dens
            cs = p.coeffs_in(best)
            d = max(cs)
            f = best.args[1]
            r = ZERO
            fp = ONE
            pw = [ONE]
            for i in range(d):
                pw.append(pw[-1] * f)
            for k, c in cs.items():
                r = r + c * pw[d - k]
            p = self.coeff(r)
            dens.append((f, d))
        raise Unsupported("clear")

    def num(self, p):
        """polynomial without inverse atoms that is zero iff p is, fully reduced"""
        p = self.reduce(p)
        for _ in range(30):
            q, dens = self.clear(p)
            q = self.reduce(q)
            if q == p:
                return q
            p = q
        raise Unsupported("num")

    # ---------------------------------------------------------------- symbolic exponents
    def kbase(self):
        """(class, K as an integer term, K as exponent): p = 4K+3, 8K+5 or 2K+1"""
        key = ("kbase", self.pk)
        r = self.ctx.memo.get(key)
        if r is None:
            c8 = self.pmod(8)
            if c8 in (3, 7) or self.pmod(4) == 3:
                m, c = 4, 3
            elif c8 == 5:
                m, c = 8, 5
            else:
                m, c = 2, 1
            k = self.ctx.div(self.pk, P(m))
            ka = P(atom("kexp", self.pk)) if k.is_const() else k
            r = self.ctx.memo[key] = (c, k, ka)
        return r

    def base_poly(self, a):
        if a.kind == "alias":
            return a.args[1]
        if a.kind == "cbase":
            return P(a.args[0])
        return P(a)

    def _affine(self, e):
        """(alpha, beta) with e = alpha*K + beta, |beta| small, or None"""
        ctx = self.ctx
        key = ("affine", self.pk, e)
        if key in ctx.memo:
            return ctx.memo[key]
        c, k, ka = self.kbase()
        r = None
        if self.p is not None:
            kc = k.cval()
            d = e.coeffs_in(next(iter(ka.atoms())))
            if e.is_const() or all(x.is_const() for x in d.values()) and set(d) <= {0, 1}:
                v = (d.get(0, ZERO).cval() + d.get(1, ZERO).cval() * kc) % (self.p - 1)
                if kc > 10 ** 4:
                    al = (v + kc // 2) // kc
                    be = v - al * kc
                    if abs(be) <= 200:
                        r = (al, be)
        else:
            if e.is_const():
                r = (0, e.cval())
            else:
                q = e - ka * 0
                d = e.coeffs_in(ctx._single(ka)) if ctx._single(ka) is not None else {}
                if d and set(d) <= {0, 1} and all(x.is_const() for x in d.values()):
                    r = (d.get(1, ZERO).cval(), d.get(0, ZERO).cval())
                else:
                    r = self._affine_find(e, k)
        ctx.memo[key] = r
        return r

    def _affine_find(self, e, k):
        import z3
        ctx = self.ctx
        big = ctx.z(k) >= 10 ** 6
        ze = ctx.z(e)
        if ctx.check(big) != z3.sat:
            return None
        m = ctx.solver.model()
        kv, ev = ctx.model_val(k, m), ctx.model_val(e, m)
        al = (ev + kv // 2) // kv
        be = ev - al * kv
        if abs(be) <= 200 and abs(al) <= 200 and ctx.int_valid("eq", e - k * al - be):
            return al, be
        return None

    def imag(self):
        """the square root of -1 (p = 1 mod 4)"""
        a = atom("imag", self.pk, name="i")
        if not any(x[0] is a for x in self.rules):
            self.rules.append((a, 2, P(-1)))
            self.fresh_cache()
            self.nz_raw.append(P(a))
            self._index_nonzero(P(a))
        return P(a)

    def _qchar(self, a, b):
        """b^((p-1)/4) for p = 5 mod 8: a fourth root of unity, a square root of chi(b)"""
        sq = self.is_square(b)
        key = ("qchar", self.pk, a)
        v = self.ctx.memo.get(key)
        if v is None:
            v = self.ctx.memo[key] = self.ctx.choose(f"quartic character of {b}")
        r = ONE if sq else self.imag()
        return r if v else -r

    def _pow_canon(self, a, e):
        """b^e for the base atom a and a non-constant exponent e, as a product of canonical factors;
        None when it is already canonical"""
        ctx = self.ctx
        b = self.base_poly(a)
        if self.known_zero(b):
            return ONE if ctx.eq(e, 0) else ZERO
        c, k, ka = self.kbase()
        ab = self._affine(e)
        if ab is None:
            if self.p is not None or not self.odd_p:
                return None
            r = ctx.mod_floor(e, self.pk - 1)
            if r == e:
                return None
            if self.is_zero(b):
                return ONE if ctx.eq(e, 0) else ZERO
            if self._affine(r) is None:
                return Poly({((a.uid, r),): 1})
            return self.pow(b, r)
        al, be = ab
        if al == 0 and be >= 0:
            return b ** be
        if al == 1 and c != 1 and e == ka + be:
            return None
        if self.is_zero(b):
            return ONE if ctx.eq(e, 0) else ZERO
        r = ONE
        if c == 1:
            # b^K = chi(b)
            if al % 2 and not self.is_square(b):
                r = -r
            al = 0
        elif c == 3:
            q, al = divmod(al, 2)          # b^(2K+1) = chi(b)
            be -= q
            if q % 2 and not self.is_square(b):
                r = -r
        else:
            q, al = divmod(al, 4)          # b^(4K+2) = chi(b)
            be -= 2 * q
            if q % 2 and not self.is_square(b):
                r = -r
            if al >= 2:
                al -= 2
                be -= 1
                r = r * self._qchar(a, b)
        if al:
            r = r * Poly({((a.uid, ka),): 1})
        if be >= 0:
            return r * b ** be
        return r * self.inv(b) ** (-be)

    def normexp(self, p):
        """rewrite symbolic powers by Fermat / Euler"""
        if not p.has_symexp():
            return p
        for _ in range(60):
            hit = None
            for m in p.t:
                for u, e in m:
                    if not isinstance(e, int):
                        s = self._pow_canon(atom_by_uid(u), e)
                        if s is not None:
                            hit = (u, e, s)
                            break
                if hit:
                    break
            if not hit:
                return p
            u, e, s = hit
            r = ZERO
            for m, c in p.t.items():
                t = Poly.const(c)
                for v, k in m:
                    if v == u and k == e:
                        t = t * s
                    else:
                        t = t * Poly({((v, k),): 1})
                r = r + t
            p = self.reduce(r)
        return p

    def pow_any(self, a, e):
        """a^e for a nonzero residue and any integer e"""
        e = P(e)
        if e.is_const():
            n = e.cval()
            return self.pow(a, e) if n >= 0 else self.pow(self.inv(a), -e)
        return self.pow(a, e)

    def pow(self, a, e):
        """a^e for an integer polynomial e (nonnegative unless a is nonzero)"""
        e = P(e)
        a = self.reduce(a)
        ka = None
        if e.is_const():
            n = e.cval()
            if n < 0:
                raise Unsupported("negative exponent")
            if a.is_const() and self.p is not None:
                return P(pow(a.cval(), n, self.p))
            if n <= 64 or a == ZERO or a == ONE:
                return self.reduce(a ** n)
            if self.p is not None:
                if self.is_zero(a):
                    return ZERO
                ab = self._affine(e)
                if ab is None:
                    return P(atom("powc", self.pk, a, n % (self.p - 1)))
                e = self.kbase()[2] * ab[0] + ab[1]
        if a.is_const():
            if a.cval() == 1:
                return ONE
            if a.cval() == 0:
                return ONE if self.ctx.eq(e, 0) else ZERO
            base = atom("cbase", a.cval())
            r = Poly({((base.uid, e),): 1})
        else:
            one = None
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    one = atom_by_uid(m[0][0])
                elif c == 1 and len(m) == 1 and not isinstance(m[0][1], int):
                    return self.normexp(Poly({((m[0][0], m[0][1] * e),): 1}))
            if one is None:
                one = atom("alias", self.pk, a)
            if e.is_const():
                e = e.cval()
                return self.reduce(self.base_poly(one) ** e) if e >= 0 else self.reduce(self.inv(a) ** (-e))
            r = Poly({((one.uid, e),): 1})
        return self.normexp(r)

    # ---------------------------------------------------------------- zero tests
    def const_unit(self, c):
        """True: unit, False: zero, None: unknown"""
        if self.p is not None:
            return c % self.p != 0
        if c == 0:
            return False
        if all(q in self.units for q in _primes_of(c)):
            return True
        # a constant smaller in absolute value than p
        if self.ctx.int_valid("le", P(abs(c)) - self.pk + 1):
            return True
        return None

    def _abstract_sym(self, p):
        """replace symbolic powers by plain atoms so that the polynomial can be factored"""
        if not p.has_symexp():
            return p, {}
        back = {}
        r = {}
        for m, c in p.t.items():
            mm = []
            for u, e in m:
                if isinstance(e, int):
                    mm.append((u, e))
                else:
                    # integer part kept separate: b^(E+n) = b^E * b^n with E without constant term
                    n = e.cval()
                    a = atom("symp", u, e - n)
                    back[a] = Poly({((u, e - n),): 1})
                    mm.append((a.uid, 1))
                    if n:
                        mm.append((u, n))
            d = {}
            for u, e in mm:
                d[u] = d.get(u, 0) + e
            k = tuple(sorted(d.items()))
            r[k] = r.get(k, 0) + c
        # negative exponents: multiply through
        mins = {}
        for k in r:
            for u, e in k:
                mins[u] = min(mins.get(u, 0), e)
        if any(v < 0 for v in mins.values()):
            rr = {}
            for k, c in r.items():
                d = dict(k)
                for u, v in mins.items():
                    if v < 0:
                        d[u] = d.get(u, 0) - v
                rr[tuple(sorted((u, e) for u, e in d.items() if e))] = c
            r = rr
        return Poly({k: c for k, c in r.items() if c}), back

    def factors(self, p):
        """(const, [irreducible factors]) of a reduced polynomial without inverse atoms"""
        q, back = self._abstract_sym(p)
        if len(q.t) > 1500:
            raise Unsupported("polynomial too large to factor")
        c, fs = factor(q)
        if back:
            fs = [(f.subst(back), k) for f, k in fs]
        return c, list(fs)

    def classify(self, p):
        """True: p = 0; False: p != 0; otherwise the list of factors whose status is open"""
        n = self.num(p)
        if n.has_symexp():
            n = self.num(self.normexp(n))
        if n.is_zero():
            return True
        self.ctx.stats["field"] += 1
        if n.is_const():
            u = self.const_unit(n.cval())
            if u is None:
                return [n]
            return not u
        s = sign_norm(n)[0]
        if s in self.nonzero:
            return False
        c, fs = self.factors(n)
        open_ = []
        u = self.const_unit(c)
        if u is False:
            return True
        if u is None:
            open_.append(P(c))
        for f, k in fs:
            f = self.num(f)
            if f.is_zero():
                return True
            if f.is_const():
                if self.const_unit(f.cval()) is not True:
                    open_.append(f)
                continue
            f = sign_norm(f)[0]
            if f in self.nonzero:
                continue
            open_.append(f)
        if not open_:
            return False
        return open_

    def known_zero(self, p):
        return self.classify(p) is True

    def known_nonzero(self, p):
        return self.classify(p) is False

    def is_zero(self, p):
        """decide p = 0, splitting the path when open"""
        for _ in range(30):
            r = self.classify(p)
            if r is True or r is False:
                return r
            f = r[0]
            if f.is_const():
                # divisibility of an integer constant by the modulus
                if self.ctx.choose(f"p divides {f}"):
                    raise Unsupported(f"characteristic dividing {f}")
                for q in _primes_of(f.cval()):
                    self.units.add(q)
                self.fresh_cache()
                continue
            # a forced answer?
            z = self._try(lambda: self.assume_zero(f, probe=True))
            nz = self._try(lambda: self.assume_nonzero(f))
            c = self.ctx.choose(f"{f} = 0 (mod {self.pk})", z, nz)
            if c:
                self.assume_zero(f)
                self.ctx.note(f"{f} = 0 mod {self.pk}")
            else:
                self.assume_nonzero(f)
                self.ctx.note(f"{f} != 0 mod {self.pk}")
        raise Unsupported("is_zero does not settle")

    def _save(self):
        return (dict(self.sub), list(self.rules), dict(self.nonzero), list(self.nz_raw), list(self.zero_raw),
                list(self.chi), list(self.odd), list(self.roots), self.rc, dict(self.lc))

    def _restore(self, s):
        (self.sub, self.rules, self.nonzero, self.nz_raw, self.zero_raw, self.chi, self.odd, self.roots, self.rc, self.lc) = s

    def _try(self, fn):
        """is the assumption consistent (as far as quickly visible)?"""
        s = self._save()
        t, a, n = list(self.ctx.taken), list(self.ctx.alts), list(self.ctx.trace)
        pf = list(self.ctx.prefix)
        try:
            self.ctx.prefix = t       # any nested decision: take the first branch, do not record
            fn()
            return True
        except Infeasible:
            # contradictory only if no nested decision was taken
            return len(self.ctx.taken) != len(t)
        except Unsupported:
            return True
        finally:
            self._restore(s)
            self.ctx.taken, self.ctx.alts, self.ctx.trace, self.ctx.prefix = t, a, n, pf

    # ---------------------------------------------------------------- assumptions
    PREF = {"root": 0, "fvar": 1, "res": 2}

    def assume_zero(self, f, probe=False):
        f = self.num(f)
        if f.is_zero():
            return
        if f.is_const():
            if self.const_unit(f.cval()) is not False:
                raise Infeasible()
            return
        if sign_norm(f)[0] in self.nonzero:
            raise Infeasible()
        if f.has_symexp():
            raise Unsupported("fact about a symbolic power")
        c, fs = self.factors(f)
        if len(fs) > 1 or (fs and fs[0][1] > 1):
            # product: some factor is zero
            op = [g for g, k in fs if self.classify(g) is not False]
            if not op:
                raise Infeasible()
            for g in op[:-1]:
                if self.is_zero(g):
                    return
            self.assume_zero(op[-1])
            return
        # orient
        best = None
        for a in f.atoms():
            if a.kind in ("inv",):
                continue
            d = f.degree_in(a)
            if d is None:
                continue
            cs = f.coeffs_in(a)
            lead = cs[d]
            st = self.classify(lead) if not lead.is_const() else (False if self.const_unit(lead.cval()) else [lead])
            unit = st is False
            if st is True:
                continue
            rank = (0 if unit else 1, d, 0 if lead.is_const() else 1, len(lead.t), -a.uid)
            if best is None or rank < best[0]:
                best = (rank, a, d, lead, cs, unit)
        if best is None:
            raise Unsupported("cannot orient fact")
        _, a, d, lead, cs, unit = best
        if not unit:
            if self.is_zero(lead):
                # leading coefficient vanishes: the rest must vanish too
                rest = f - lead * Poly.var(a, d)
                if not self.is_zero(rest):
                    raise Infeasible()
                return
        rest = ZERO
        for k, c in cs.items():
            if k != d:
                rest = rest + c * (Poly.var(a, k) if k else ONE)
        if lead.is_const() and lead.cval() in (1, -1):
            rhs = rest * (-lead.cval())
        else:
            rhs = -rest * self.inv(lead)
        rhs = self.coeff(rhs)
        self.zero_raw.append(f)
        if d == 1:
            self.sub = {b: self.coeff(q.subst({a: rhs})) for b, q in self.sub.items()}
            self.sub[a] = rhs
            # relations that mention a are stated again: they may factor by now, or contradict
            moved = [(b, k, q) for b, k, q in self.rules if b is a or not self.sub.keys().isdisjoint(_deep_atoms(q))]
            self.rules = [x for x in self.rules if x not in moved]
            self.fresh_cache()
            for b, k, q in moved:
                g = (rhs if b is a else Poly.var(b)) ** k - q.subst({a: rhs})
                if not self.known_zero(g):
                    self.assume_zero(self.num(g))
        else:
            old = [(b, k, q) for b, k, q in self.rules if b is a]
            if old:
                # two relations for the same atom: keep the smaller degree, reduce the other
                b, k, q = old[0]
                self.fresh_cache()
                if k <= d:
                    raise Unsupported("relation of higher degree than a known one")
                self.rules = [x for x in self.rules if x[0] is not a]
                self.rules.append((a, d, rhs))
                g = Poly.var(a, k) - q
                self.recheck()
                if not self.known_zero(g):
                    self.assume_zero_any(g)
            else:
                self.rules.append((a, d, rhs))
        self.recheck()

    def assume_zero_any(self, g):
        if not self.is_zero(g):
            raise Infeasible()

    def recheck(self):
        self.fresh_cache()
        raw = self.nz_raw
        self.nonzero = {}
        for f in raw:
            self._index_nonzero(f)
        self._recheck_parity()

    def _recheck_parity(self):
        """the recorded parities are those of distinct elements, up to sign"""
        seen = []
        for b, v in self.odd:
            c = self.canon(b)
            if c.is_zero():
                if v:
                    raise Infeasible()
                continue
            for d, w in seen:
                if c == d or self.num(c - d).is_zero():
                    if v != w:
                        raise Infeasible()
                elif (c == -d or self.num(c + d).is_zero()) and v == w and self.odd_p and self.known_nonzero(c):
                    raise Infeasible()
            seen.append((c, v))

    def _index_nonzero(self, f):
        n = self.num(f)
        if n.is_zero():
            raise Infeasible()
        if n.is_const():
            if self.const_unit(n.cval()) is False:
                raise Infeasible()
            return
        self.nonzero[sign_norm(n)[0]] = True
        if n.has_symexp() or len(n.t) > 400:
            return
        c, fs = self.factors(n)
        for g, k in fs:
            g = self.num(g)
            if g.is_zero():
                raise Infeasible()
            if not g.is_const():
                self.nonzero[sign_norm(g)[0]] = True

    def assume_nonzero(self, f):
        f0 = f
        f = self.num(f)
        self.nz_raw.append(f)
        self._index_nonzero(f)
        for a, k, rhs in list(self.rules):
            # a power of a nonzero atom is nonzero
            if f == P(a):
                g = self.num(rhs)
                self.nz_raw.append(g)
                self._index_nonzero(g)
        # products of known nonzero polynomials are nonzero
        fs = list(self.nonzero)
        s = sign_norm(f)[0]
        for g in fs:
            if len(g.t) * len(s.t) <= 400 and g != s:
                if self.num(g * s).is_zero():
                    raise Infeasible()
        if self.num(s * s).is_zero():
            raise Infeasible()

    def assume(self, f, zero=True):
        if zero:
            self.assume_zero(f)
        else:
            self.assume_nonzero(f)

    # ---------------------------------------------------------------- inverses
    def inv(self, a):
        """inverse of a known-nonzero residue"""
        a = self.reduce(a)
        if a.is_const():
            c = a.cval()
            if self.p is not None:
                return self.coeff(P(pow(c, -1, self.p)))
            if c in (1, -1):
                return P(c)
        n, dens = self.clear(a)
        n = self.reduce(n)
        n, dens2 = self.clear(n)
        dens = dens + dens2
        r = ONE
        for f, k in dens:
            r = r * f ** k
        c, fs = self.factors(n)
        for f, k in fs:
            r = r * Poly.var(self.inv_atom(f), k)
        if self.p is not None:
            r = r * pow(c, -1, self.p)
        else:
            s = 1 if c > 0 else -1
            r = r * s
            for q in _primes_of(c):
                r = r * Poly.var(self.inv_atom(P(q)))
        return self.coeff(r)

    def inv_atom(self, f):
        return atom("inv", self.pk, f, name=f"inv({f})")

    def inv0(self, a):
        """the convention of the library: inverse of 0 is 0"""
        if self.is_zero(a):
            return ZERO
        return self.inv(a)

    # ---------------------------------------------------------------- parity of canonical representatives
    def is_odd(self, a):
        a = self.canon(a)
        if a.is_zero():
            return False
        if a.is_const():
            c = a.cval()
            if self.p is not None:
                return (c % self.p) % 2 == 1
            if c > 0 and self.ctx.int_valid("le", P(c) - self.pk + 1):
                return c % 2 == 1
            if c < 0 and self.ctx.int_valid("le", P(-c) - self.pk + 1):
                if not self.odd_p:
                    raise Unsupported("parity in characteristic two")
                return (-c) % 2 == 0
        for b, v in self.odd:
            b2 = self.canon(b)
            if b2 == a or self.num(b2 - a).is_zero():
                return v
            if self.num(b2 + a).is_zero():
                # canonical representatives of a and -a add up to p (odd) unless a = 0
                if self.is_zero(a):
                    return False
                return not v
        if self.is_zero(a):
            return False
        v = self.ctx.choose(f"odd({a})")
        self.ctx.note(f"the representative of {a} is {'odd' if v else 'even'}")
        self.odd.append((a, v))
        return v

    def canon(self, a):
        """a normal form good enough for structural comparison"""
        return self.reduce(a)

    # ---------------------------------------------------------------- quadratic character
    def _chi_vec(self, a):
        """squarefree part of a as (sign/consts, set of irreducible polys) or None when a = 0"""
        n = self.reduce(a)
        key = ("chi", n)
        if key in self.rc:
            return self.rc[key]
        n2, dens = self.clear(n)
        n2 = self.reduce(n2)
        n3, dens2 = self.clear(n2)
        vec = {}

        def tog(k):
            if k in vec:
                del vec[k]
            else:
                vec[k] = True

        def add(poly, mult):
            if mult % 2 == 0:
                return
            c, fs = self.factors(poly)
            if self.p is not None:
                if pow(c, (self.p - 1) // 2, self.p) != 1:
                    tog("nonres")
            else:
                if c < 0:
                    tog(-1)
                for q in _primes_of(c):
                    tog(q)
            for f, k in fs:
                if k % 2:
                    f, s = sign_norm(f)
                    if s < 0:
                        if self.p is None:
                            tog(-1)
                        elif self.p % 4 == 3:
                            tog("nonres")
                    tog(f)
        add(n3, 1)
        for f, k in dens + dens2:
            add(f, k)
        vec = frozenset(vec)
        if not n.has_symexp():
            self.rc[key] = vec
        return vec

    def _chi_facts(self):
        rows = []
        for poly, v in self.chi:
            rows.append((self._chi_vec(poly), 0 if v else 1))
        for a, r in self.roots:
            if self.classify(a) is False:
                rows.append((self._chi_vec(a), 0))
        if self.p is None:
            c4 = self.pmod(4)
            if c4 == 1:
                rows.append((frozenset([-1]), 0))
            elif c4 == 3:
                rows.append((frozenset([-1]), 1))
            c8 = self.pmod(8)
            if c8 in (1, 7):
                rows.append((frozenset([2]), 0))
            elif c8 in (3, 5):
                rows.append((frozenset([2]), 1))
        else:
            rows.append((frozenset(["nonres"]), 1))
        return rows

    def pmod(self, m):
        key = ("pmod", self.pk, m)
        if self.p is not None:
            return self.p % m
        r = self.ctx.memo.get(key, -1)
        if r == -1:
            t = self.ctx.mod(self.pk, P(m))
            for r in range(m):
                if self.ctx.int_valid("eq", t - r):
                    break
            else:
                r = None
            if r is not None:
                self.ctx.memo[key] = r
        return r

    @staticmethod
    def _gf2_solve(rows, target):
        """value of target as a GF(2) combination of rows, or None"""
        basis = {}

        def red(v, b):
            v = set(v)
            while v:
                k = max(v, key=lambda x: (hash(x), str(x)))
                if k in basis:
                    bv, bb = basis[k]
                    v = v ^ bv
                    b ^= bb
                else:
                    return v, b, k
            return v, b, None
        for v, b in rows:
            v, b, k = red(v, b)
            if k is not None:
                basis[k] = (frozenset(v), b)
            elif b:
                raise Infeasible()
        # full reduction of the target
        v, b = set(target), 0
        changed = True
        while v and changed:
            changed = False
            for k in sorted(v, key=lambda x: (hash(x), str(x)), reverse=True):
                if k in basis:
                    bv, bb = basis[k]
                    v = v ^ bv
                    b ^= bb
                    changed = True
                    break
        return b if not v else None

    def _chi_prod(self, *ps):
        key = ("chiprod", ps)
        r = self.rc.get(key)
        if r is None:
            q = ps[0]
            for x in ps[1:]:
                q = self.reduce(q * x)
            r = self._chi_vec(q)
            if not any(x.has_symexp() for x in ps):
                self.rc[key] = r
        return r

    def chi_known(self, a):
        """True/False/None for nonzero a"""
        vec = self._chi_vec(a)
        if not vec:
            return True
        facts = self._chi_facts()
        r = self._gf2_solve(facts, vec)
        if r is not None:
            return r == 0
        # products with known characters can become squares modulo the path's relations
        for poly, v in list(self.chi):
            vec2 = self._chi_prod(poly, a)
            r = 0 if not vec2 else self._gf2_solve(facts, vec2)
            if r is not None:
                return (r == 0) == v
        for (p1, v1) in list(self.chi):
            for (p2, v2) in list(self.chi):
                if p1 is p2:
                    break
                vec2 = self._chi_prod(p1, p2, a)
                r = 0 if not vec2 else self._gf2_solve(facts, vec2)
                if r is not None:
                    return (r == 0) == (v1 == v2)
        return None

    def is_square(self, a):
        """decide whether a is a square (0 counts as one)"""
        if self.is_zero(a):
            return True
        k = self.chi_known(a)
        if k is not None:
            return k
        v = self.ctx.choose(f"square({a})")
        self.chi.append((self.reduce(a), v))
        self.ctx.note(f"{a} is {'a' if v else 'not a'} square mod {self.pk}")
        return v

    def assume_square(self, a, v):
        """assume the quadratic character of a nonzero residue"""
        self.assume_nonzero(a) if not self.known_nonzero(a) else None
        k = self.chi_known(a)
        if k is not None:
            if k != v:
                raise Infeasible()
            return
        self.chi.append((self.reduce(a), v))

    def known_root(self, a):
        """a residue r with r*r = a visible from the facts, else None"""
        n = self.reduce(a)
        for b, r in self.roots:
            if self.num(b - n).is_zero():
                return r
        # a perfect square as a polynomial
        q, dens = self.clear(n)
        q = self.reduce(q)
        if not q.has_symexp() and len(q.t) < 300:
            for cand in self._root_candidates(q):
                return self._over(cand, dens)
        # v^2 := rhs rules
        for at, k, rhs in self.rules:
            if k == 2 and self.num(rhs - n).is_zero():
                return P(at)
        return None

    def _over(self, cand, dens):
        r = cand
        for f, k in dens:
            if k % 2:
                r = None
                break
            r = r * self.inv(f) ** (k // 2)
        return r

    def _root_candidates(self, q):
        c, fs = self.factors(q)
        if any(k % 2 for _, k in fs):
            return
        if self.p is not None:
            if pow(c, (self.p - 1) // 2, self.p) != 1:
                return
            from .numth import sqrt_mod
            s = sqrt_mod(c % self.p, self.p)
        else:
            import math
            if c < 0 or math.isqrt(c) ** 2 != c:
                return
            s = math.isqrt(c)
        r = P(s)
        for f, k in fs:
            r = r * f ** (k // 2)
        yield r

    def sqrt(self, a):
        """a residue r with r*r = a for a square a (memoized: the same input gives the same root);
        an unconstrained residue for a non-square"""
        a = self.reduce(a)
        if self.is_zero(a):
            return ZERO
        sq = self.is_square(a)
        for b, r in self.ctx.memo.setdefault(("sqrt", self.pk), []):
            if self.num(b - a).is_zero():
                return r
        kr = self.known_root(a) if sq else None
        if kr is not None:
            r = kr if self.ctx.choose("which root") else -kr
        elif sq:
            r0 = self.ctx.ffresh("s")
            r = P(r0)
            self.roots.append((a, r))
            self.rules.append((r0, 2, a))
            self.fresh_cache()
            self.nz_raw.append(r)
            self._index_nonzero(r)
        else:
            r = P(self.ctx.ffresh("arbitrary"))
        self.ctx.memo[("sqrt", self.pk)].append((a, r))
        return r
