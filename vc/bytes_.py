"""Byte strings and character strings with symbolic contents and lengths.

A byte string is a sequence of segments (kind, value, length): the big- ("be") or little-endian ("le")
representation of the integer `value`, 0 <= value < 256^length, in exactly `length` bytes.  Every byte
string of a given length is of that form, so no generality is lost."""
from .poly import Poly, P, ZERO, ONE, atom
from .ctx import Unsupported, ProofFailure
from .values import Int, Panic


class Rope:
    __slots__ = ("s",)

    def __init__(self, segs=()):
        self.s = list(segs)

    def copy(self):
        return Rope(self.s)

    @staticmethod
    def be(v, n):
        return Rope([("be", P(v), P(n))])

    @staticmethod
    def le(v, n):
        return Rope([("le", P(v), P(n))])

    @staticmethod
    def const(bs):
        return Rope([("be", P(b), ONE) for b in bs])

    def length(self):
        n = ZERO
        for k, v, l in self.s:
            n = n + l
        return n

    def norm(self, cx):
        """drop empty segments, absorb leading/trailing zeros"""
        out = []
        for k, v, l in self.s:
            if l.is_zero():
                continue
            if out:
                k0, v0, l0 = out[-1]
                if k0 == "be" and v0.is_zero() and (k == "be" or l == 1) and not (k == "be" and l == 1 and False):
                    out[-1] = ("be", v, l0 + l)
                    continue
                if v.is_zero() and (k0 == "le" or l0 == 1) and not v0.is_zero():
                    out[-1] = ("le", v0, l0 + l)
                    continue
            out.append((k, v, l))
        self.s = out
        return self

    def reverse(self):
        self.s = [("le" if k == "be" else "be", v, l) for k, v, l in reversed(self.s)]

    def append(self, o):
        self.s = self.s + o.s

    def value_be(self, cx):
        """the integer whose big-endian representation the string is"""
        self.norm(cx)
        v = ZERO
        for k, x, l in self.s:
            if k == "le" and l != 1:
                if x.is_zero():
                    pass
                else:
                    if len(self.s) == 1:
                        return P(atom("revbytes", x, l))
                    raise Unsupported("big-endian value of a little-endian string")
            v = v * cx.pow2(l * 8) + x
        return v

    def value_le(self, cx):
        r = self.copy()
        r.reverse()
        return r.value_be(cx)

    def split(self, cx, i):
        """two ropes at byte offset i (a panic when out of range is the caller's business)"""
        i = P(i)
        self.norm(cx)
        left = []
        segs = list(self.s)
        while True:
            if i.is_zero() or cx.int_valid("eq", i):
                return Rope(left), Rope(segs)
            if not segs:
                raise Unsupported("split past the end")
            k, v, l = segs[0]
            if cx.int_valid("le", l - i):
                left.append(segs.pop(0))
                i = i - l
                continue
            if not cx.int_valid("le", i - l):
                if cx.le(l, i):
                    continue
            # strictly inside the segment
            if v.is_zero():
                a, b = (k, v, i), (k, v, l - i)
            elif k == "be":
                d = cx.pow2((l - i) * 8)
                a, b = (k, cx.div(v, d), i), (k, cx.mod(v, d), l - i)
            else:
                d = cx.pow2(i * 8)
                a, b = (k, cx.mod(v, d), i), (k, cx.div(v, d), l - i)
            return Rope(left + [a]), Rope([b] + segs[1:])

    def slice(self, cx, lo, hi):
        a, b = self.split(cx, lo)
        c, d = b.split(cx, P(hi) - P(lo))
        return c

    def index(self, cx, i):
        i = P(i)
        a, b = self.split(cx, i)
        c, d = b.split(cx, ONE)
        c.norm(cx)
        if len(c.s) != 1:
            raise Unsupported("byte index")
        return Int(c.s[0][1], "u8")

    def set_index(self, cx, i, val):
        i = P(i)
        self.norm(cx)
        old = self.index(cx, i)
        delta = val.p - old.p
        # inside one segment: adjust its value
        off = ZERO
        for j, (k, v, l) in enumerate(self.s):
            if cx.int_valid("le", off - i) and cx.int_valid("le", i + 1 - off - l):
                e = (i - off) if k == "le" else (l - 1 - (i - off))
                s = list(self.s)
                s[j] = (k, v + delta * cx.pow2(e * 8), l)
                self.s = s
                return
            off = off + l
        a, b = self.split(cx, i)
        c, d = b.split(cx, ONE)
        self.s = a.s + [("be", val.p, ONE)] + d.s

    def equal(self, cx, o):
        """decide equality"""
        if not cx.eq(self.length(), o.length()):
            return False
        if len(self.s) == len(o.s) and all(a[0] == b[0] and a[2] == b[2] for a, b in zip(self.s, o.s)):
            return all(cx.big_eq(a[1], b[1]) for a, b in zip(self.s, o.s))
        self.norm(cx)
        o.norm(cx)
        if len(self.s) == len(o.s) and all(a[0] == b[0] or (a[2] == 1 and b[2] == 1) for a, b in zip(self.s, o.s)) and \
                all(cx.int_valid("eq", a[2] - b[2]) for a, b in zip(self.s, o.s)):
            return all(cx.big_eq(a[1], b[1]) for a, b in zip(self.s, o.s))
        if not self.s:
            return True
        try:
            a, b = self.value_be(cx), o.value_be(cx)
        except Unsupported:
            a, b = self.value_le(cx), o.value_le(cx)
        return cx.big_eq(a, b)

    def __repr__(self):
        return "bytes[" + ", ".join(f"{k}({v}; {l})" for k, v, l in self.s) + "]"


class SubRope(Rope):
    """mutable view of the bytes lo .. lo+n of another string"""
    __slots__ = ("parent", "lo", "n", "cx")

    def __init__(self, parent, lo, n, cx):
        self.parent, self.lo, self.n, self.cx = parent, P(lo), P(n), cx

    @property
    def s(self):
        return self.parent.copy().slice(self.cx, self.lo, self.lo + self.n).s

    @s.setter
    def s(self, segs):
        a, b = self.parent.copy().split(self.cx, self.lo)
        c, d = b.split(self.cx, self.n)
        self.parent.s = list(a.s) + list(segs) + list(d.s)

    def copy(self):
        return Rope(self.s)

    def length(self):
        return self.n


def _numeral(v, radix):
    s, u = "", abs(v)
    while u:
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[u % radix] + s
        u //= radix
    return ("-" if v < 0 else "") + (s or "0")


class Str:
    """character string: segments ("lit", text), ("dig", radix, value, length) and ("num", radix, value), the canonical
    numeral of an integer"""
    __slots__ = ("s",)

    def __init__(self, segs):
        out = []
        for x in segs:
            if x[0] == "num" and x[2].is_const():
                x = ("lit", _numeral(x[2].cval(), x[1]))
            if x[0] == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + x[1])
            elif x[0] != "lit" or x[1] != "":
                out.append(x)
        self.s = out

    def length(self):
        n = ZERO
        for x in self.s:
            if x[0] == "num":
                raise Unsupported("length of a numeral")
            n = n + (P(len(x[1].encode())) if x[0] == "lit" else x[3])
        return n

    def text(self):
        if all(x[0] == "lit" for x in self.s):
            return "".join(x[1] for x in self.s)
        return None

    def starts_with(self, c):
        """c: one-character string; True/False"""
        if not self.s:
            return False
        x = self.s[0]
        if x[0] == "lit":
            return x[1][0] == c
        if x[0] == "num":
            return None if c == "-" or _isdigit(c, x[1]) else False
        return False if not _isdigit(c, x[1]) else None

    def slice(self, cx, lo, hi):
        lo = P(lo)
        segs = list(self.s)
        # drop lo characters
        if not lo.is_const():
            raise Unsupported("symbolic string offset")
        n = lo.cval()
        while n and segs:
            x = segs[0]
            if x[0] == "lit":
                k = min(n, len(x[1]))
                segs[0] = ("lit", x[1][k:])
                n -= k
                if not segs[0][1]:
                    segs.pop(0)
            elif x[0] == "num":
                raise Unsupported("part of a numeral")
            else:
                segs[0] = ("part", x[1], n, x[3] - n)
                n = 0
        if n or any(x[0] == "num" for x in segs) and hi is not None:
            raise Unsupported("string slice")
        if hi is None:
            return Str(segs)
        m = P(hi) - lo
        if not m.is_const():
            raise Unsupported("symbolic string offset")
        m = m.cval()
        out = []
        for x in segs:
            if m == 0:
                break
            if x[0] == "lit":
                out.append(("lit", x[1][:m]))
                m -= len(out[-1][1])
            else:
                out.append(("part", x[1], None, P(m)))
                m = 0
        return Str(out)

    def equal(self, cx, o):
        a, b = self.text(), o.text()
        if a is not None and b is not None:
            return a == b
        if any(x[0] == "num" for x in self.s + o.s):
            return numerals_equal(cx, self.s, o.s)
        if a is None and b is None:
            if self.s == o.s:
                return True
            raise Unsupported("string comparison")
        sym, lit = (self, b) if a is None else (o, a)
        if not cx.eq(sym.length(), len(lit.encode())):
            return False
        i = 0
        for x in sym.s:
            if x[0] == "lit":
                if lit[i:i + len(x[1])] != x[1]:
                    return False
                i += len(x[1])
            else:
                # symbolic digits against a literal containing a non-digit there
                if not x[3].is_const():
                    n = len(lit) - i
                else:
                    n = x[3].cval()
                if any(not _isdigit(c, x[1]) for c in lit[i:i + n]):
                    return False
                raise Unsupported("string comparison")
        return True

    def __repr__(self):
        t = self.text()
        return repr(t) if t is not None else f"str{self.s}"


def numerals_equal(cx, s, t):
    """strings of literals and canonical numerals"""
    s, t = list(s), list(t)

    def ends(u, radix):
        """does the numeral before u end there?"""
        return not u or u[0][0] == "lit" and not _isdigit(u[0][1][0], radix)
    while s and t:
        x, y = s.pop(0), t.pop(0)
        if x[0] == "lit" and y[0] == "lit":
            n = min(len(x[1]), len(y[1]))
            if x[1][:n] != y[1][:n]:
                return False
            for u, z in ((s, x), (t, y)):
                if z[1][n:]:
                    u.insert(0, ("lit", z[1][n:]))
            continue
        if x[0] == "lit":
            s, t, x, y = t, s, y, x
        if x[0] != "num" or y[0] not in ("num", "lit"):
            raise Unsupported("string comparison")
        if y[0] == "lit":
            w, i = y[1], 1 if y[1][0] == "-" else 0
            j = i
            while j < len(w) and _isdigit(w[j], x[1]):
                j += 1
            if j == i:
                return False        # no numeral there
            v = int(w[:j], x[1])
            if _numeral(v, x[1]) != w[:j]:
                if w[i] == "0" and j > i + 1 and ends(s, x[1]):
                    return False    # leading zeros
                raise Unsupported("string comparison")
            if w[j:]:
                t.insert(0, ("lit", w[j:]))
            y = ("num", x[1], P(v))
        if x[1] != y[1] or not ends(s, x[1]) or not ends(t, x[1]):
            raise Unsupported("string comparison")
        if not cx.big_eq(x[2], y[2]):
            return False
    if s or t:
        rest = s or t
        if rest[0][0] in ("lit", "num"):
            return False
        raise Unsupported("string comparison")
    return True


def _isdigit(c, radix):
    try:
        return int(c, 36) < radix
    except ValueError:
        return False
