"""Runtime values of the symbolic executor."""
from .poly import Poly, P, ZERO, ONE
from .ctx import Unsupported


class Int:
    """machine integer (or char): integer polynomial with its type"""
    __slots__ = ("p", "ty")

    def __init__(self, p, ty):
        self.p, self.ty = P(p), ty

    def __repr__(self):
        return f"{self.p}:{self.ty}"


class Big:
    """num_bigint::BigInt / BigUint"""
    __slots__ = ("p", "uns")

    def __init__(self, p, uns=False):
        self.p, self.uns = P(p), uns

    def __repr__(self):
        return f"Big({self.p})"


class Adt:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, f

    def __repr__(self):
        return f"{self.ty.split('<')[0].split('::')[-1]}#{self.var}{self.f}"


class Tup:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"({', '.join(map(repr, self.f))})"


class Arr:
    """array / vector / slice with a known number of elements"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"{self.f}"


class Box:
    __slots__ = ("cell",)

    def __init__(self, v):
        self.cell = [v]

    def __repr__(self):
        return f"Box({self.cell[0]!r})"


class Arc:
    __slots__ = ("cell", "id")
    _n = 0

    def __init__(self, v, id=None):
        self.cell = [v]
        Arc._n += 1
        self.id = id if id is not None else Arc._n

    def __repr__(self):
        return f"Arc{self.id}"


def cell_kind(t):
    """kind of the interior-mutability primitive a type is, or None"""
    t = t.split("<")[0]
    if t in ("atomic_refcell::AtomicRefCell", "std::cell::RefCell"):
        return "dynamic"
    if t in ("std::sync::OnceLock", "std::cell::OnceCell"):
        return "once"
    if t in ("std::sync::Mutex", "std::sync::RwLock"):
        return "lock"
    return None


class RefCell:
    """a cell that can be changed through a shared reference: content None / Some(value) or a function that
    chooses the content when it is first looked at.

    kind: "dynamic" (AtomicRefCell, RefCell: borrows checked at run time), "once" (OnceLock, OnceCell),
    "lock" (Mutex, RwLock); fill: function giving the content another thread would put there (shared cells)"""
    __slots__ = ("cell", "borrowed", "touched", "kind", "fill")

    def __init__(self, v, kind="dynamic", fill=None):
        self.cell = [v]
        self.borrowed = False
        self.touched = False
        self.kind = kind
        self.fill = fill

    def __repr__(self):
        return "RefCell"


class RefMut:
    __slots__ = ("rc",)

    def __init__(self, rc):
        self.rc = rc


class Ref:
    """reference or raw pointer: a place"""
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return self.c[self.k]

    def set(self, v):
        self.c[self.k] = v

    def __repr__(self):
        return f"&{self.get()!r}"


def ref(v):
    return Ref([v], 0)


class ByteRef(Ref):
    """reference to one byte of a byte string"""
    __slots__ = ("cx",)

    def __init__(self, rope, idx, cx):
        self.c, self.k, self.cx = rope, idx, cx

    def get(self):
        return self.c.index(self.cx, self.k)

    def set(self, v):
        self.c.set_index(self.cx, self.k, v)


class Fn:
    """function item / function pointer"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Opaque:
    __slots__ = ("what", "data")

    def __init__(self, what, data=None):
        self.what, self.data = what, data

    def __repr__(self):
        return f"<{self.what}>"


class Ghost:
    """abstract value introduced by a contract; kind names the contract's own class of values"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return f"<{self.kind} {self.d}>"


UNIT = Tup([])
UNINIT = Opaque("uninit")


def clone(v):
    """bitwise copy of a value (Copy types and moves out of shared cells)"""
    if isinstance(v, Adt):
        return Adt(v.ty, v.var, [clone(x) for x in v.f])
    if isinstance(v, Tup):
        return Tup([clone(x) for x in v.f]) if v.f else v
    if isinstance(v, Arr):
        return Arr([clone(x) for x in v.f])
    if hasattr(v, "reverse"):
        return v.copy()
    return v


def deep(v):
    """semantic clone (Clone::clone of a derived implementation)"""
    from .bytes_ import Rope, Str
    if isinstance(v, Adt):
        return Adt(v.ty, v.var, [deep(x) for x in v.f])
    if isinstance(v, Tup):
        return Tup([deep(x) for x in v.f]) if v.f else v
    if isinstance(v, Arr):
        return Arr([deep(x) for x in v.f])
    if isinstance(v, Rope):
        return v.copy()
    if isinstance(v, Str):
        return v
    if isinstance(v, Box):
        return Box(deep(v.cell[0]))
    return v


class Panic(Exception):
    """the program panics"""

    def __init__(self, msg=""):
        Exception.__init__(self, msg)
        self.msg = msg


def dcopy(v, memo=None):
    """copy of a whole object graph (references stay references to the copied places)"""
    from .bytes_ import Rope, SubRope
    memo = {} if memo is None else memo
    k = id(v)
    if k in memo:
        return memo[k][0]

    def put(r):
        memo[k] = (r, v)
        return r
    if isinstance(v, Adt):
        r = put(Adt(v.ty, v.var, None))
        r.f = dlist(v.f, memo)
        return r
    if isinstance(v, (Tup, Arr)):
        r = put(type(v)(None))
        r.f = dlist(v.f, memo)
        return r
    if isinstance(v, Box):
        r = put(Box(None))
        r.cell = dlist(v.cell, memo)
        return r
    if isinstance(v, Arc):
        r = put(Arc(None, v.id))
        r.cell = dlist(v.cell, memo)
        return r
    if isinstance(v, RefCell):
        r = put(RefCell(None, v.kind, v.fill))
        r.borrowed = v.borrowed
        r.cell = dlist(v.cell, memo)
        return r
    if isinstance(v, SubRope):
        return put(SubRope(dcopy(v.parent, memo), v.lo, v.n, v.cx))
    if isinstance(v, Rope):
        return put(v.copy())
    if isinstance(v, ByteRef):
        return put(ByteRef(dcopy(v.c, memo), v.k, v.cx))
    if isinstance(v, Ref):
        r = put(Ref(None, v.k))
        r.c = dlist(v.c, memo)
        return r
    return v


def dlist(xs, memo):
    k = id(xs)
    if k in memo:
        return memo[k][0]
    out = []
    memo[k] = (out, xs)
    for x in xs:
        out.append(dcopy(x, memo))
    return out
