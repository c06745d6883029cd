"""Models of the formatting machinery of std: what a value writes to a formatter with default options.

A formatter is Adt("std::fmt::Formatter", 0, [Str]); canonical numerals are segments ("num", radix, value)."""
from .poly import P
from .ctx import Unsupported
from .values import *
from .bytes_ import Rope, Str
from .ext import ext, D, DR, No

FORMATTER, ARGUMENT, ARGUMENTS = "std::fmt::Formatter", "fmt::Argument", "fmt::Arguments"
RADIX = {"Display": 10, "LowerHex": 16, "Octal": 8, "Binary": 2}
NEW = {"new_display": "Display", "new_lower_hex": "LowerHex", "new_octal": "Octal", "new_binary": "Binary"}


def formatter():
    return Adt(FORMATTER, 0, [Str([])])


def lit(s):
    return Str([("lit", s)])


def numeral(p, radix=10):
    return Str([("num", radix, P(p))])


def join(*ss):
    return Str([x for s in ss for x in s.s])


def put(f, s):
    f = D(f)
    if not isinstance(f, Adt) or f.ty != FORMATTER:
        raise No()
    f.f[0] = join(f.f[0], s)


def const_bytes(r):
    r = D(r)
    if not isinstance(r, Rope):
        raise Unsupported("format template")
    out = []
    for k, v, l in r.s:
        if not v.is_const() or not l.is_const():
            raise Unsupported("format template")
        out.append(v.cval().to_bytes(l.cval(), "little" if k == "le" else "big"))
    return b"".join(out)


def show(ex, v, kind, f):
    """write one value"""
    v = D(v)
    if isinstance(v, (Big, Int)) and kind in RADIX and not (isinstance(v, Int) and v.ty == "char"):
        if kind != "Display" and not ex.cx.int_valid("le", -v.p):
            raise Unsupported(f"{kind} of a negative number")
        return put(f, numeral(v.p, RADIX[kind]))
    if isinstance(v, Str) and kind == "Display":
        return put(f, v)
    if isinstance(v, bool) and kind == "Display":
        return put(f, lit(str(v).lower()))
    if isinstance(v, Adt) and v.ty == ARGUMENTS:
        return render(ex, v, f)
    if isinstance(v, Arc):
        return show(ex, v.cell[0], kind, f)
    if isinstance(v, Adt):
        ns = [n for n in ex.prog.by_name if n.endswith(f"{v.ty} as std::fmt::{kind}>::fmt")]
        if len(ns) == 1:
            r = ex.call_named(ns[0], [ref(v), f])
            if not isinstance(r, Adt) or r.var != 0:
                raise Unsupported("a formatting error")
            return None
    raise Unsupported(f"{kind} of {v!r}")


def render(ex, a, f):
    a = D(a)
    if not isinstance(a, Adt) or a.ty != ARGUMENTS:
        raise Unsupported("format arguments")
    if isinstance(a.f[0], Str):
        return put(f, a.f[0])
    t, args = const_bytes(a.f[0]), D(a.f[1])
    i = k = 0
    while t[i]:
        n = t[i]
        i += 1
        if n < 0x80:
            put(f, lit(t[i:i + n].decode()))
            i += n
        elif n == 0x80:
            n = int.from_bytes(t[i:i + 2], "little")
            put(f, lit(t[i + 2:i + 2 + n].decode()))
            i += 2 + n
        else:
            if n & 0b110111:
                raise Unsupported("formatting options")
            if n & 8:
                k = int.from_bytes(t[i:i + 2], "little")
                i += 2
            g = D(args.f[k])
            show(ex, g.f[1], g.f[0], f)
            k += 1


@ext("new_display", "new_lower_hex", "new_octal", "new_binary")
def _argument(ex, nm, a, fd):
    if not nm.ty.endswith("fmt::rt::Argument") and "fmt::rt::Argument" not in nm.ty:
        raise No()
    return Adt(ARGUMENT, 0, [NEW[nm.method], a[0]])


@ext("new", "from_str", "from_str_nonconst", "new_const")
def _arguments(ex, nm, a, fd):
    if "fmt::Arguments" not in nm.ty:
        raise No()
    if len(a) == 2:
        return Adt(ARGUMENTS, 0, [a[0], a[1]])
    s = D(a[0])
    return Adt(ARGUMENTS, 0, [s, None]) if isinstance(s, Str) else Opaque("fmt")


@ext("write_fmt")
def _write_fmt(ex, nm, a, fd):
    f = DR(a[0])
    if isinstance(f.get(), Str):
        g = formatter()
        render(ex, a[1], ref(g))
        f.set(join(f.get(), g.f[0]))
        return ex.ok(UNIT)
    render(ex, a[1], a[0])
    return ex.ok(UNIT)


@ext("write_str", "pad")
def _write_str(ex, nm, a, fd):
    s = D(a[1])
    if not isinstance(s, Str):
        raise No()
    put(a[0], s)
    return ex.ok(UNIT)


@ext("write_char")
def _write_char(ex, nm, a, fd):
    c = D(a[1])
    if not isinstance(c, Int) or not c.p.is_const():
        raise No()
    put(a[0], lit(chr(c.p.cval())))
    return ex.ok(UNIT)


@ext("pad_integral")
def _pad_integral(ex, nm, a, fd):
    s = D(a[3])
    if not isinstance(s, Str) or not isinstance(a[1], bool):
        raise No()
    put(a[0], s if a[1] else join(lit("-"), s))
    return ex.ok(UNIT)


@ext("fmt")
def _fmt_of(ex, nm, a, fd):
    if nm.trait not in RADIX:
        raise No()
    show(ex, a[0], nm.trait, a[1])
    return ex.ok(UNIT)


@ext("to_string")
def _to_string(ex, nm, a, fd):
    f = formatter()
    show(ex, a[0], "Display", ref(f))
    return f.f[0]


@ext("to_str_radix")
def _to_str_radix(ex, nm, a, fd):
    v, r = D(a[0]), D(a[1])
    if not isinstance(v, Big) or not r.p.is_const():
        raise No()
    return numeral(v.p, r.p.cval())


@ext("format")
def _format(ex, nm, a, fd):
    x = D(a[0])
    if not isinstance(x, Adt) or x.ty != ARGUMENTS:
        raise No()
    try:
        f = formatter()
        render(ex, x, ref(f))
        return f.f[0]
    except Unsupported:
        return Opaque("fmt")


@ext("must_use")
def _must_use(ex, nm, a, fd):
    return a[0]


@ext("push_str", "add", "add_assign")
def _push_str(ex, nm, a, fd):
    s, t = D(a[0]), D(a[1])
    if not isinstance(s, Str) or not isinstance(t, Str):
        raise No()
    if nm.method == "add":
        return join(s, t)
    DR(a[0]).set(join(s, t))
    return UNIT


@ext("_print", "_eprint")
def _print(ex, nm, a, fd):
    """messages on the terminal are not part of any contract"""
    return UNIT
