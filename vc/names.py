"""Parsing of normalized function names."""
import re
from functools import lru_cache


def _close(s, i):
    """index of the '>' matching the '<' at i"""
    d = 0
    for j in range(i, len(s)):
        if s[j] == "<":
            d += 1
        elif s[j] == ">" and s[j - 1] != "-":
            d -= 1
            if d == 0:
                return j
    raise ValueError(s)


def _split_as(s):
    d = 0
    for i, c in enumerate(s):
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and s[i - 1] != "-"):
            d -= 1
        elif d == 0 and s.startswith(" as ", i):
            return s[:i], s[i + 4:]
    return s, None


def strip_ref(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].strip()
        t = re.sub(r"^'\w+ ", "", t)
        if t.startswith("mut "):
            t = t[4:]
    return t


class Name:
    __slots__ = ("raw", "ty", "rty", "trait", "targ", "method", "key")

    def __repr__(self):
        return f"Name({self.ty}, {self.trait}, {self.targ}, {self.method})"


@lru_cache(maxsize=None)
def parse(n):
    """ty: self type without references; trait: last path segment; targ: trait argument (default: self type)"""
    r = Name()
    r.raw = n
    r.trait = r.targ = None
    if n.startswith("<"):
        j = _close(n, 0)
        a, b = _split_as(n[1:j])
        rest = n[j + 1:].lstrip(":")
        r.rty = a
        r.ty = strip_ref(a)
        if b is not None:
            i = b.find("<")
            if i >= 0:
                r.targ = strip_ref(b[i + 1:_close(b, i)])
                b = b[:i]
            r.trait = b.split("::")[-1]
            if r.targ is None:
                r.targ = r.ty
        r.method = rest
    else:
        # path::Type::<args>::method::<..>
        segs = []
        cur = ""
        d = 0
        i = 0
        while i < len(n):
            c = n[i]
            if c in "<([{":
                d += 1
            elif c in ")]}" or (c == ">" and n[i - 1] != "-"):
                d -= 1
            if d == 0 and n.startswith("::", i):
                segs.append(cur)
                cur = ""
                i += 2
                continue
            cur += c
            i += 1
        segs.append(cur)
        while len(segs) > 1 and segs[-1].startswith("<"):
            segs.pop()
        if len(segs) > 1 and segs[-2].startswith("<") and len(segs) > 2:
            r.ty = "::".join(segs[:-2]) + segs[-2]
        else:
            r.ty = "::".join(segs[:-1])
        r.rty = r.ty
        r.method = segs[-1]
    m = r.method
    i = m.find("::<")
    if i >= 0:
        m = m[:i] + m[_close(m, i + 2) + 1:]
    r.method = m
    t = r.targ
    r.key = (r.ty, r.trait if t is None or t == r.ty else f"{r.trait}<{t}>", r.method)
    return r
