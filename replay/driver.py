"""Search for failing inputs on the real code, used when an obligation fails or a proof cannot be redone, and in the
thorough tier.  The oracle is plain integer arithmetic and vc/published.py; the code under test is /repo, compiled
through replay/src/main.rs.  Every program leaves its operands on the stack: where an operand is already not what it
should be, the case is skipped, so that what is reported is a failure of the property asked for."""
import os
import random
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from vc import published as pub                      # noqa: E402
from vc.numth import is_prime, legendre, sqrt_mod    # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BIN = os.path.join(HERE, "target/debug/replay")


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(HERE, "target"))
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HERE, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("replay crate: " + r.stdout[-500:])


# ---------------------------------------------------------------- expected values

def F(v):
    return lambda s: s == f"F {v}" if re.fullmatch(r"F -?\d+( encoded x\w*| without encoding)?", s) else None


def Q(a, b):
    return lambda s: s == f"Q {a}+i*{b}" if re.fullmatch(r"Q \d+\+i\*\d+", s) else None


def S(v):
    return lambda s: s == f"S {v}" if re.fullmatch(r"S -?\d+( encoded x\w*| without encoding)?", s) else None


def T(v):
    return lambda s: s == f"T {v}"


def ANY(s):
    return True


def coords(c, s):
    m = dict(re.findall(r"([xytz]): (\d+)", s))
    need = "xytz" if c["m"] == "edwards" else "xyz"
    if not s.startswith("P ") or set(m) != set(need):
        return None
    return [int(m[k]) for k in need]


def affine(c, v):
    """the affine point of projective coordinates, "O" for the identity of the chord-and-tangent models, False if
    the coordinates represent no point"""
    p = c["p"]
    if any(w < 0 or w >= p for w in v):
        return False
    x, y, z = v[0], v[1], v[-1]
    if z == 0:
        return "O" if c["m"] != "edwards" and x == 0 and y != 0 else False
    zi = pow(z, -1, p)
    if c["m"] == "edwards" and (v[2] * z - x * y) % p:
        return False
    return x * zi % p, y * zi % p


def PT(c, P):
    def f(s):
        v = coords(c, s)
        if v is None:
            return None
        return affine(c, v) == ("O" if P is None else P)
    return f


def ONC(c):
    def f(s):
        v = coords(c, s)
        if v is None:
            return None
        a = affine(c, v)
        return a is not False and (a == "O" or pub.on_curve(c, a))
    return f


PANIC = "panic"


class Case:
    __slots__ = ("prog", "pre", "post", "what")

    def __init__(self, prog, pre, post, what=""):
        self.prog, self.pre, self.post, self.what = prog, pre, post, what


class Session:
    def __init__(self, deadline):
        self.deadline = deadline
        self.defs = []
        self.cases = []
        self.found = []
        self.n = 0
        self.skipped = 0
        self.known = set()
        self.sample = {}        # program -> (case, definitions it needs): a few cases of every field and curve
        self.rnd = random.Random(0)

    def define(self, line):
        if line not in self.known:
            self.known.add(line)
            self.defs.append(line)

    def case(self, prog, pre, post, what=""):
        self.cases.append(Case(prog, pre, post, what))
        if len(self.cases) >= 3000:
            self.flush()

    def flush(self):
        cs, self.cases = self.cases, []
        if not cs:
            return
        for c in self.rnd.sample(cs, min(len(cs), 24)):
            if len(self.sample) < 6000:
                self.sample[c.prog] = (c, self.needed(c.prog))
        self.batch(cs, self.defs)

    def needed(self, prog):
        """the definitions a program uses, directly or through others, in their order"""
        want = {w for t in prog.split() for w in t.split(":")[1:]}
        out = []
        for d in reversed(self.defs):
            w = d.split(":")
            if w[1] in want:
                out.append(d)
                want |= set(w[2:])
        return out[::-1]

    def histories(self, rounds, size):
        """cases of different fields and curves in one process, in an arbitrary order: results may not depend on what the
        process did before"""
        pool = list(self.sample.values())
        for _ in range(rounds):
            if self.over() or not pool:
                return
            k = self.rnd.choice([len(pool), min(len(pool), 40), min(len(pool), 40)])
            part = self.rnd.sample(pool, k)
            cs = [self.rnd.choice(part) for _ in range(size)]
            defs = list(dict.fromkeys(d for _, ds in cs for d in ds))
            self.batch([c for c, _ in cs], defs)

    def batch(self, cs, defs):
        if self.over():
            return
        text = "\n".join(defs + [c.prog for c in cs]) + "\n"
        p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            out, _ = p.communicate(text, timeout=max(5, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return
        out = out.split("\n")[len(defs):]
        n0 = len(self.found)
        for i, (c, o) in enumerate(zip(cs, out)):
            self.n += 1
            if o == "":
                break
            k = len(self.found)
            self.judge(c, o)
            if len(self.found) > k and n0 + 3 > k:
                self.history(cs[:i], c, self.found[-1], defs)

    def history(self, before, c, found, defs):
        """where a failure needs what the process did before, the shortest such history found in a few attempts"""
        def fails(hist):
            s = Session(time.time() + 60)
            p = subprocess.run([BIN], input="\n".join(defs + [h.prog for h in hist] + [c.prog]) + "\n", stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=60)
            o = p.stdout.split("\n")[len(defs) + len(hist):]
            s.defs = defs
            s.history = lambda *a: None
            s.judge(c, o[0] if o else "")
            return bool(s.found)
        try:
            end = time.time() + 20
            if fails([]):
                return
            hist = list(before)
            if not fails(hist):
                found["text"] += " (seen once, not seen again)"
                return
            step = (len(hist) + 1) // 2
            while time.time() < end and step:
                i = 0
                while i < len(hist) and time.time() < end:
                    h = hist[:i] + hist[i + step:]
                    if fails(h):
                        hist = h
                    else:
                        i += step
                step = step // 2
            found["history"] = [h.prog for h in hist]
            names = {w for h in hist for t in h.prog.split() for w in t.split(":")[1:]}
            found["definitions"] = list(dict.fromkeys([d for d in defs if d.split(":")[1] in names] + found["definitions"]))
            found["text"] += f" in a process that ran {', '.join('`' + h.prog + '`' for h in hist[:3])}{' …' if len(hist) > 3 else ''} before"
        except subprocess.TimeoutExpired:
            pass

    def over(self):
        return time.time() > self.deadline or len(self.found) >= 10

    def judge(self, c, o):
        toks = c.prog.split()
        mark = toks.index("!") if "!" in toks else -1
        if o.startswith("BAD"):
            self.skipped += 1
            return
        if o.startswith("PANIC"):
            k = 10**9 if o == "PANIC show" else int(o[6:])
            if k < mark:
                self.skipped += 1
            elif c.post != PANIC:
                if c.pre and not self.operands_ok(c, toks[:mark]):
                    self.skipped += 1
                else:
                    self.report(c, o, "panics instead of returning a value")
            return
        items = o[3:].split(" | ") if o[3:] else []
        if any(f(s) is not True for f, s in zip(c.pre, items)):
            self.skipped += 1
            return
        if c.post == PANIC:
            self.report(c, o, "returns a value instead of panicking")
            return
        post = items[len(c.pre):]
        if len(post) != len(c.post):
            self.skipped += 1
            return
        for f, s in zip(c.post, post):
            v = f(s)
            if v is None:
                self.skipped += 1
                return
            if not v:
                self.report(c, o, "wrong result")
                return

    def ask(self, prog):
        p = subprocess.run([BIN], input="\n".join(self.defs + [prog]) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=60)
        return p.stdout.split("\n")[len(self.defs)]

    def operands_ok(self, c, toks):
        o = self.ask(" ".join(toks))
        if not o.startswith("OK"):
            return False
        items = o[3:].split(" | ")
        return len(items) >= len(c.pre) and all(f(s) is True for f, s in zip(c.pre, items))

    def report(self, c, o, kind):
        names = {w for t in c.prog.split() for w in t.split(":")[1:]}
        defs = [d for d in list(dict.fromkeys(self.defs + [d for _, ds in self.sample.values() for d in ds]))
                if d.split(":")[1] in names]
        self.found.append({"key": c.prog, "text": f"{c.what + ': ' if c.what else ''}{kind}: `{c.prog}` gives {o}",
                           "program": c.prog, "definitions": defs, "output": o, "kind": kind})


# ---------------------------------------------------------------- inputs

def literals():
    """integer literals of the source under test: a value singled out by the code is worth trying"""
    out = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                for w in re.findall(r"\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size|128))?\b", open(os.path.join(d, f)).read()):
                    try:
                        out.add(int(w.replace("_", ""), 0 if w.startswith("0x") else 10))
                    except ValueError:
                        pass
    return sorted(out)


class Inputs:
    def __init__(self, rnd):
        self.rnd = rnd
        self.lits = literals()
        self.small = [v for v in self.lits if v < 2**70]

    def powers(self, bits):
        out = set()
        for k in (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 62, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 191, 192,
                  193, 223, 224, 225, 253, 254, 255, 256, 319, 320, 383, 384, 447, 448, 511, 512, bits - 2, bits - 1):
            if 0 < k < bits:
                out |= {2**k, 2**k - 1, 2**k + 1}
        return out

    def elems(self, p, n, full=2100):
        """about n residues modulo p: everything when p is small, else edges, literals and random values"""
        if p <= n:
            return list(range(p))
        s = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, p - 1, p - 2, p - 3, p - 4, (p - 1) // 2, (p + 1) // 2, p // 3, p // 4}
        s |= {w % p for k in self.powers(p.bit_length()) for w in (k, -k)} if n >= 60 else set()
        s |= {w % p for v in self.lits for w in (v, -v)} if n >= 300 else set()
        s = [v % p for v in s]
        self.rnd.shuffle(s)
        s = s[:max(n * 3 // 4, 8)]
        while len(s) < n:
            b = self.rnd.choice([p.bit_length(), p.bit_length(), self.rnd.randrange(1, p.bit_length() + 1)])
            s.append(self.rnd.getrandbits(b) % p)
        return list(dict.fromkeys(s))

    def ints(self, p, n):
        """integers of either sign around the multiples of p"""
        s = [0, 1, -1, p, -p, p - 1, p + 1, -p - 1, 1 - p, 2 * p, -2 * p, 2 * p - 1, p * p, -p * p, p * p - 1, 3 * p + 2]
        s += list(self.powers(p.bit_length() + 70)) + [-v for v in self.powers(p.bit_length() + 70)]
        s += self.lits + [-v for v in self.lits]
        head, tail = s[:16], s[16:]
        self.rnd.shuffle(tail)
        s = head + tail[:n]
        for _ in range(n // 2):
            v = self.rnd.getrandbits(self.rnd.randrange(1, 2 * p.bit_length() + 64))
            s.append(self.rnd.choice([v, -v]))
        return s


TINY = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 43, 47, 53, 59]
MEDIUM = [127, 251, 257, 503, 509, 65519, 65521, 65537, 2**31 - 1, 2**32 - 5, 2**61 - 1, 2**64 - 59, 2**89 - 1,
          2**107 - 1, 2**127 - 1, 2**128 - 159, 2**32 + 15, 2**33 - 9, 2**34 - 41, 2**63 - 25, 2**65 - 49, 2**97 - 141, 2**129 - 25]
BIG = sorted({c["p"] for c in pub.CURVES.values()})
PRIMES = TINY + MEDIUM + BIG
# pairs of primes of one length that share their low 32 or 64 bits, their high 64 bits, or their residues modulo usual hash primes
TWINS = ((0x4000000000123456789abcdef12346fb, 0x4000000000123474789abcdef12346fb),
         (0x4000000000123456789abcdef12346fb, 0x4000000000123456789abcf0f12346fb),
         (0x4000000000123456789abcdef12346fb, 0x4000000000123456789abcdef123472f),
         (0x8000000000123456789abcdef123463b, 0x8000000000123482789abcdef123463b),
         (0x8000000000123456789abcdef123463b, 0x8000000000123456789abcfcf123463b),
         (0x8000000000123456789abcdef123463b, 0x8000000000123456789abcdef12348ff),
         (0x8000023f, 0x48000023f),
         (0x80000000000000000000000000000123456789abcdef123456789abcdef123459f,
          0x8000092a654e951cd4783d6d973facf4a1e353a5c04c6c7454789abcdef123459f),
         (0x80000000000000000000000000000123456789abcdef123456789abcdef123497d,
          0x80002014629309e4e7a4d6ff915eda800918cc969e35ce144f789abcdef123497d))


def fname(p, q=False):
    return ("q" if q else "f") + (f"b{BIG.index(p)}" if p in BIG else str(p))


def deff(s, p, q=False, tag=""):
    n = fname(p, q) + tag
    s.define(f"{'deffp2' if q else 'deffp'}:{n}:{p}")
    return n


FORMS = ["oo", "or", "ro", "rr"]


# ---------------------------------------------------------------- prime fields

def c01(s, I):
    for p in [2] + PRIMES:
        f = deff(s, p)
        m = 60 if p < 60 else 26
        xs = I.elems(p, m)
        for x in xs:
            s.case(f"fp:{f}:{x} ! pick:0 neg.r", [F(x)], [F(-x % p)], "negation")
            s.case(f"fp:{f}:{x} ! pick:0 neg.o", [F(x)], [F(-x % p)], "negation")
            for o in "or":
                s.case(f"fp:{f}:{x} ! pick:0 xu.{o}:2", [F(x)], [F(x * x % p)], "square")
            for y in xs:
                for op, v in (("add", x + y), ("sub", x - y), ("mul", x * y)):
                    for fm in (FORMS if m < 60 or p < 14 else [I.rnd.choice(FORMS)]):
                        s.case(f"fp:{f}:{x} fp:{f}:{y} ! pick:1 pick:1 {op}.{fm}", [F(x), F(y)], [F(v % p)], op)
        for v in I.ints(p, 150):
            s.case(f"fp:{f}:{v}", [], [F(v % p)], "construction from an integer")
        for x in I.elems(p, 400):
            s.case(f"fp:{f}:{x} ! pick:0 xu.r:2", [F(x)], [F(x * x % p)], "square")
        s.case(f"zero:{f} one:{f}", [], [F(0), F(1 % p)], "constants")
        for i, first in enumerate(("", "issq", "sqrt", "sgn0", "xi.o:-1", "pow:5")):
            g, h = deff(s, p, tag=f"m{i}"), deff(s, p, tag=f"n{i}")
            if p == 2 or p % 8 == 1 and first == "sqrt":
                first = ""
            x, y = I.rnd.choice(xs), I.rnd.choice(xs)
            sq = x * x % p if first == "sqrt" else x
            for a, b in ((g, h), (h, g)):
                for op, v in (("add", x + y), ("sub", x - y), ("mul", x * y)):
                    s.case(f"fp:{g}:{sq} {first} fp:{a}:{x} fp:{b}:{y} ! pick:1 pick:1 {op}.{I.rnd.choice(FORMS)}".replace("  ", " "),
                           [ANY, F(x), F(y)], [F(v % p)], f"{op} through two handles to one field")
        yield


def expos(p, I, n):
    e = [0, 1, 2, 3, 4, 5, 31, 32, 33, p - 1, p - 2, p - 3, p, p + 1, 2 * (p - 1), 2 * (p - 1) + 1, 3 * (p - 1), (p - 1) // 2,
         (p + 1) // 2, (p + 1) // 4, p * p - 1, p * (p - 1), 2**32, 2**32 - 1, 2**32 + 1, 2**33, 2**64, 2**64 - 1, 2**64 + 3,
         2**96, 2**128, 5 * 2**32]
    e += I.lits[:]
    head, tail = e[:32], e[32:]
    I.rnd.shuffle(tail)
    return head + tail[:n] + [I.rnd.getrandbits(I.rnd.randrange(1, 200)) for _ in range(n)]


def c02(s, I):
    for p in PRIMES:
        f = deff(s, p)
        xs = I.elems(p, 60 if p < 60 else 90)
        for x in xs:
            iv = pow(x, -1, p) if x else 0
            for t in ("xi.o:-1", "xi.r:-1", "udiv:1"):
                s.case(f"fp:{f}:{x} ! pick:0 {t}", [F(x)], [F(iv)], "inverse")
        ys = xs if p < 30 else I.elems(p, 14)
        for x in ys:
            for y in ys:
                iv = pow(y, -1, p) if y else 0
                for fm in FORMS:
                    s.case(f"fp:{f}:{x} fp:{f}:{y} ! pick:1 pick:1 div.{fm}", [F(x), F(y)], [F(x * iv % p)], "division")
        for x in (xs if p < 30 else I.elems(p, 8)):
            for e in expos(p, I, 10 if p > 60 else 6):
                s.case(f"fp:{f}:{x} ! pick:0 pow:{e}", [F(x)], [F(pow(x, e, p))], "power")
                s.case(f"fp:{f}:{x} ! pick:0 powi:{e}", [F(x)], [F(pow(x, e, p))], "power")
                if x and e:
                    s.case(f"fp:{f}:{x} ! pick:0 powi:-{e}", [F(x)], [F(pow(pow(x, -1, p), e, p))], "negative power")
        yield


def c03(s, I):
    for p in PRIMES:
        f = deff(s, p)
        for x in I.elems(p, 2100 if p < 2000 else 330):
            s.case(f"fp:{f}:{x} ! pick:0 issq", [F(x)], [T(1 if x == 0 or legendre(x, p) == 1 else 0)], "square test")
        if p % 4 == 3 or p % 8 == 5:
            for r in I.elems(p, 700 if p < 2000 else 330):
                x = r * r % p

                def root(t, x=x, p=p):
                    m = re.fullmatch(r"F (\d+)", t)
                    return None if not m else int(m[1]) < p and int(m[1]) ** 2 % p == x
                g = deff(s, p, tag=f"h{I.rnd.randrange(4)}")
                s.case(f"fp:{g}:{x} ! pick:0 sqrt", [F(x)], [root], "square root")
                if I.rnd.random() < .2:
                    s.case(f"fp:{g}:{x} ! pick:0 sqrt pick:1 sqrt", [F(x)], [root, root], "square root taken twice")
                    n = I.rnd.randrange(p)
                    s.case(f"fp:{g}:{x} fp:{g}:{n} ! dup issq drop dup sqrt drop pick:1 sqrt", [F(x), F(n)], [root],
                           "square root after another one")
        yield
    for p, q in TWINS:
        hs = [(deff(s, p), p), (deff(s, q), q)]
        for x in I.elems(p, 12):
            for h, n in hs + hs[:1]:
                y = x * x % n
                s.case(f"fp:{h}:{y} ! pick:0 sqrt", [F(y)], [lambda t, y=y, n=n: None if not re.fullmatch(r"F \d+", t) else
                                                             int(t[2:]) < n and int(t[2:]) ** 2 % n == y], "square roots in two fields")
    yield
    # fresh handles: the first operation with a field
    for p in [3, 5, 7, 13, 29, 101, 2**31 - 1] + BIG:
        if p % 4 == 3 or p % 8 == 5:
            for i in range(6):
                f = deff(s, p, tag=f"z{i}")
                x = pow(I.rnd.randrange(p), 2, p)
                n = I.rnd.randrange(p)

                def root(t, x=x, p=p):
                    m = re.fullmatch(r"F (\d+)", t)
                    return None if not m else int(m[1]) < p and int(m[1]) ** 2 % p == x
                first = ["", f"fp:{f}:{n} sqrt drop", f"fp:{f}:{n} issq drop", f"fp:{f}:0 sqrt drop", f"fp:{f}:1 sqrt drop",
                         f"fp:{f}:{p - 1} sqrt drop"][i]
                s.case(f"fp:{f}:{x} ! {first} pick:0 sqrt", [F(x)], [root], "first square root with a field handle")
    yield


def sg(x):
    return -1 if x & 1 else 1


def c04(s, I):
    for p in [2] + PRIMES:
        f = deff(s, p)
        for x in I.elems(p, 2100 if p < 2000 else 330):
            s.case(f"fp:{f}:{x} ! pick:0 sgn0", [F(x)], [T(sg(x))], "sign")
        for x in I.elems(p, 12):
            for y in I.elems(p, 12):
                s.case(f"fp:{f}:{x} fp:{f}:{y} ! pick:1 pick:1 cmov:1", [F(x), F(y)], [F(y)], "selection")
                s.case(f"fp:{f}:{x} fp:{f}:{y} ! pick:1 pick:1 cmov:0", [F(x), F(y)], [F(x)], "selection")
        yield
        if p % 4 == 3:
            q = deff(s, p, True)
            es = I.elems(p, 40)
            for a in [0, 0, 0] + es:
                for b in [0] + I.rnd.sample(es, min(len(es), 20)):
                    s.case(f"fp:{q}:{a}:{b} ! pick:0 sgn0", [Q(a, b)], [T(sg(a if a else b))], "sign")
                    s.case(f"fp:{q}:{a}:{b} fp:{q}:{b}:{a} ! pick:1 pick:1 cmov:1 pick:2 pick:2 cmov:0",
                           [Q(a, b), Q(b, a)], [Q(b, a), Q(a, b)], "selection")
        yield


def digits(v, base):
    if v == 0:
        return "0"
    out = ""
    while v:
        out = "0123456789abcdef"[v % base] + out
        v //= base
    return out


def c05(s, I):
    types = [(t, w, sn) for t, w, sn in (("u8", 8, 0), ("u16", 16, 0), ("u32", 32, 0), ("u64", 64, 0), ("i8", 8, 1), ("i16", 16, 1),
                                         ("i32", 32, 1), ("i64", 64, 1))]
    for p in [2] + PRIMES:
        f, q = deff(s, p), deff(s, p, True)
        for t, w, sn in types:
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sn else (0, (1 << w) - 1)
            vs = [0, 1, 2, hi, hi - 1, lo, lo + 1, hi // 2, hi // 2 + 1] + ([-1, -2, -3] if sn else [])
            vs += [v for k in (7, 8, 15, 16, 31, 32, 63) for v in (1 << k, (1 << k) - 1, -(1 << k))]
            vs += [w2 for v in I.small for w2 in (v, -v)] + [p, -p, p - 1, p + 1]
            vs += [I.rnd.randrange(lo, hi + 1) for _ in range(20)]
            for v in dict.fromkeys(v for v in vs if lo <= v <= hi):
                s.case(f"fi:{f}:{t}:{v}", [], [F(v % p)], "conversion")
                s.case(f"fi:{q}:{t}:{v}", [], [Q(v % p, 0)], "conversion")
        s.case(f"fs:{f}:", [], [F(0)], "empty string")
        vs = [0, 1, 7, 8, 9, 10, 15, 16, 255, p - 1, p, p + 1, 2 * p + 1] + [I.rnd.getrandbits(k) for k in (3, 4, 8, 16, 40, 64, 130, 300, 600)]
        vs += I.rnd.sample(I.lits, min(len(I.lits), 30))
        strs = []
        for v in vs:
            for pre, base in (("", 10), ("0x", 16), ("0o", 8), ("0b", 2)):
                d = digits(v, base)
                forms = [d, "0" + d if base != 10 else d, "000" + d]
                if base == 16:
                    forms.append(d.upper())
                for w in forms:
                    strs += [(pre + w, v), ("-" + pre + w, -v)]
        for w, v in strs:
            s.case(f"fs:{f}:{w}", [], [F(v % p)], "string")
        for _ in range(100):
            (w0, v0), (w1, v1) = I.rnd.choice(strs), I.rnd.choice(strs)
            s.case(f"fs:{q}:{w0},{w1}", [], [Q(v0 % p, v1 % p)], "string")
            s.case(f"fs:{q}:,{w1}", [], [Q(0, v1 % p)], "string")
            s.case(f"fs:{q}:{w0},", [], [Q(v0 % p, 0)], "string")
        yield


def c06(s, I):
    for p in [2] + PRIMES:
        f, q = deff(s, p), deff(s, p, True)
        n = (p.bit_length() + 7) // 8
        for x in I.elems(p, 300):
            be, le = x.to_bytes(n, "big").hex(), x.to_bytes(n, "little").hex()
            s.case(f"fp:{f}:{x} ! pick:0 be pick:1 le", [F(x)], [T("x" + be), T("x" + le)], "encoding")
            s.case(f"fb:{f}:be:{be}", [], [F(x)], "decoding")
            s.case(f"fb:{f}:le:{le}", [], [F(x)], "decoding")
        for k in range(0, 2 * n + 5 if n < 20 else n + 3):
            for b in (bytes(k), b"\xff" * k, I.rnd.randbytes(k), b"\1" + bytes(k), bytes(k) + b"\1"):
                s.case(f"fb:{f}:be:{b.hex()}", [], [F(int.from_bytes(b, "big") % p)], "arbitrary bytes")
                s.case(f"fb:{f}:le:{b.hex()}", [], [F(int.from_bytes(b, "little") % p)], "arbitrary bytes")
                for e, nm in (("big", "be"), ("little", "le")):
                    if len(b) != 2 * n:
                        s.case(f"fb:{q}:{nm}:{b.hex()}", [], [T("err")], "wrong length")
                    else:
                        s.case(f"fb:{q}:{nm}:{b.hex()}", [], [Q(int.from_bytes(b[:n], e) % p, int.from_bytes(b[n:], e) % p)],
                               "arbitrary bytes")
        es = I.elems(p, 40)
        for _ in range(120):
            a, b = I.rnd.choice(es), I.rnd.choice(es)
            be = a.to_bytes(n, "big").hex() + b.to_bytes(n, "big").hex()
            le = a.to_bytes(n, "little").hex() + b.to_bytes(n, "little").hex()
            s.case(f"fp:{q}:{a}:{b} ! pick:0 be pick:1 le", [Q(a, b)], [T("x" + be), T("x" + le)], "encoding")
            s.case(f"fb:{q}:be:{be}", [], [Q(a, b)], "decoding")
            s.case(f"fb:{q}:le:{le}", [], [Q(a, b)], "decoding")
        for _ in range(8):
            k = I.rnd.choice([2 * n - 1, 2 * n, 2 * n, 2 * n + 1])
            b = I.rnd.randbytes(max(k, 0))
            for e, nm in (("big", "be"), ("little", "le")):
                v = [Q(int.from_bytes(b[:n], e) % p, int.from_bytes(b[n:], e) % p)] if len(b) == 2 * n else [T("err")]
                s.case(f"fb:{q}:{nm}:{b.hex()}", [], v, "arbitrary bytes")
        yield


# ---------------------------------------------------------------- quadratic extension

def qmul(a, b, p):
    return (a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p


def qinv(a, p):
    n = (a[0] * a[0] + a[1] * a[1]) % p
    i = pow(n, -1, p) if n else 0
    return a[0] * i % p, -a[1] * i % p


def qpow(a, e, p):
    r = (1 % p, 0)
    while e:
        if e & 1:
            r = qmul(r, a, p)
        a = qmul(a, a, p)
        e >>= 1
    return r


P34 = [p for p in PRIMES if p % 4 == 3]


def pairs(I, p, n):
    if p * p <= n:
        return [(a, b) for a in range(p) for b in range(p)]
    es = I.elems(p, max(12, int(n ** .5)))
    out = [(0, 0), (1, 0), (0, 1), (p - 1, 0), (0, p - 1), (1, 1), (1, p - 1)]
    out += [(a, 0) for a in es[:n // 8]] + [(0, a) for a in es[:n // 8]] + [(a, a) for a in es[:n // 16]] + [(a, -a % p) for a in es[:n // 16]]
    while len(out) < n:
        out.append((I.rnd.choice(es), I.rnd.choice(es)))
    return list(dict.fromkeys(out))


def c07(s, I):
    for p in P34:
        f = deff(s, p, True)
        xs = pairs(I, p, 121)
        for x in xs:
            w = f"fp:{f}:{x[0]}:{x[1]}"
            for t in "or":
                s.case(f"{w} ! pick:0 neg.{t}", [Q(*x)], [Q(-x[0] % p, -x[1] % p)], "negation")
                s.case(f"{w} ! pick:0 xu.{t}:2", [Q(*x)], [Q(*qmul(x, x, p))], "square")
                s.case(f"{w} ! pick:0 xi.{t}:-1", [Q(*x)], [Q(*qinv(x, p))], "inverse")
            s.case(f"{w} ! pick:0 udiv:1", [Q(*x)], [Q(*qinv(x, p))], "inverse")
        ys = xs if p < 8 else I.rnd.sample(xs, 30)
        for x in ys:
            for y in ys:
                for op, v in (("add", ((x[0] + y[0]) % p, (x[1] + y[1]) % p)), ("sub", ((x[0] - y[0]) % p, (x[1] - y[1]) % p)),
                              ("mul", qmul(x, y, p)), ("div", qmul(x, qinv(y, p), p))):
                    fm = I.rnd.choice(FORMS)
                    s.case(f"fp:{f}:{x[0]}:{x[1]} fp:{f}:{y[0]}:{y[1]} ! pick:1 pick:1 {op}.{fm}", [Q(*x), Q(*y)], [Q(*v)], op)
        for x in I.rnd.sample(xs, min(len(xs), 6)):
            for e in [p * p - 1, p * p - 2] + expos(p, I, 8)[:40 if p > 2**200 else None]:
                v = qpow(x, e, p)
                s.case(f"fp:{f}:{x[0]}:{x[1]} ! pick:0 pow:{e}", [Q(*x)], [Q(*v)], "power")
                s.case(f"fp:{f}:{x[0]}:{x[1]} ! pick:0 powi:{e}", [Q(*x)], [Q(*v)], "power")
        yield


def c08(s, I):
    for p in P34:
        f = deff(s, p, True)
        xs = pairs(I, p, 2300 if p < 100 else 120)
        for x in xs:
            n = (x[0] * x[0] + x[1] * x[1]) % p
            s.case(f"fp:{f}:{x[0]}:{x[1]} ! pick:0 issq", [Q(*x)], [T(1 if n == 0 or legendre(n, p) == 1 else 0)], "square test")
            v = qmul(x, x, p)

            def root(t, v=v, p=p):
                m = re.fullmatch(r"Q (\d+)\+i\*(\d+)", t)
                return None if not m else int(m[1]) < p and int(m[2]) < p and qmul((int(m[1]), int(m[2])),
                                                                                  (int(m[1]), int(m[2])), p) == v
            s.case(f"fp:{f}:{v[0]}:{v[1]} ! pick:0 sqrt", [Q(*v)], [root], "square root")
            if x[1] == 0:     # every element of the base field is a square
                v = x

                def root2(t, v=v, p=p):
                    m = re.fullmatch(r"Q (\d+)\+i\*(\d+)", t)
                    return None if not m else int(m[1]) < p and int(m[2]) < p and qmul((int(m[1]), int(m[2])),
                                                                                      (int(m[1]), int(m[2])), p) == v
                s.case(f"fp:{f}:{v[0]}:{v[1]} ! pick:0 sqrt", [Q(*v)], [root2], "square root")
        yield


# ---------------------------------------------------------------- curves

LETTER = {"weierstrass": "w", "montgomery": "m", "edwards": "e"}


def allpoints(c):
    p = c["p"]
    out = [] if c["m"] == "edwards" else [None]
    roots = {}
    for y in range(p):
        roots.setdefault(y * y % p, []).append(y)
    for x in range(p):
        if c["m"] == "edwards":
            # (1 - d x^2) y^2 = 1 - a x^2
            n, d = (1 - c["a"] * x * x) % p, (1 - c["d"] * x * x) % p
            v = n * pow(d, -1, p) % p
        elif c["m"] == "montgomery":
            v = (x**3 + c["a"] * x * x + x) * pow(c["b"], -1, p) % p
        else:
            v = (x**3 + c["a"] * x + c["b"]) % p
        out += [(x, y) for y in roots.get(v, [])]
    return out


def nonsquare(p):
    z = 2
    while legendre(z, p) != -1:
        z += 1
    return z


def small(model, primes, rnd, per=2, cond=None):
    """curves over small fields on which the model's addition is complete"""
    out, seen = [], set()
    for p in primes:
        got = 0
        for t in range(400):
            if got == per:
                break
            if model == "weierstrass":
                a, b = (0 if t == 0 else -3 if t == 1 else rnd.randrange(p)), rnd.randrange(1, p)
                if (4 * a**3 + 27 * b * b) % p == 0:
                    continue
                c = dict(m=model, p=p, a=a, b=b)
            elif model == "montgomery":
                a, b = rnd.randrange(p), 1 if cond is None else rnd.randrange(1, p)
                if (a * a - 4) % p == 0 or (cond == "map" and a == 0):
                    continue
                c = dict(m=model, p=p, a=a, b=b)
            else:
                a, d = pow(rnd.randrange(1, p), 2, p), rnd.randrange(p)
                if legendre(d, p) != -1:
                    continue
                c = dict(m=model, p=p, a=a, d=d)
            eq = tuple(v % p for k, v in sorted(c.items()) if k in "abd")
            if (p, eq) in seen:
                continue
            pts = allpoints(c)
            n = len(pts)
            if model == "weierstrass" and n % 2 == 0 and cond != "map" or n < 3:
                continue
            if model == "montgomery":
                ys = {P[1] for P in pts if P}
                free = [y for y in range(1, p) if y not in ys]
                if not free:
                    continue
                c["s"] = rnd.choice(free)
            g = rnd.choice([P for P in pts if P != pub.neutral(c)])
            c.update(gx=g[0], gy=g[1], r=n, h=1, pts=pts)
            out.append(c)
            seen.add((p, eq))
            got += 1
    return out


def defc(s, c):
    """define the curve in the session and return its name"""
    if "id" not in c:
        c["id"] = f"{LETTER[c['m']]}{defc.n}"
        defc.n += 1
    n = c["id"]
    if "inst" in c:
        s.define(f"inst:{n}:{c['inst']}")
    elif c["m"] == "weierstrass":
        s.define(f"defw:{n}:{c['p']}:{c['a']}:{c['b']}:{c['r']}:{c['h']}:{c['gx']}:{c['gy']}")
    elif c["m"] == "montgomery":
        s.define(f"defm:{n}:{c['p']}:{c['a']}:{c['b']}:{c['s']}:{c['r']}:{c['h']}:{c['gx']}:{c['gy']}")
    else:
        s.define(f"defe:{n}:{c['p']}:{c['a']}:{c['d']}:{c['r']}:{c['h']}:{c['gx']}:{c['gy']}")
    return n


defc.n = 0


def named(model, names=None):
    return [dict(c, inst=k) for k, c in pub.CURVES.items() if c["m"] == model and (names is None or k in names)]


def lift(c, x):
    """a point with the given x (y on Edwards curves) coordinate, or False"""
    p = c["p"]
    if c["m"] == "edwards":
        v = (1 - x * x) * pow(c["a"] - c["d"] * x * x, -1, p) % p
    elif c["m"] == "montgomery":
        v = (x**3 + c["a"] * x * x + x) * pow(c["b"], -1, p) % p
    else:
        v = (x**3 + c["a"] * x + c["b"]) % p
    if v and legendre(v, p) != 1:
        return False
    y = sqrt_mod(v, p) if v else 0
    return (y, x) if c["m"] == "edwards" else (x, y)


def neg(c, P):
    p = c["p"]
    return None if P is None else (-P[0] % p, P[1]) if c["m"] == "edwards" else (P[0], -P[1] % p)


def rpoint(c, rnd):
    while True:
        P = lift(c, rnd.randrange(c["p"]))
        if P:
            return P if rnd.random() < .5 else neg(c, P)


def torsion(c, rnd):
    """points of small order of a named curve"""
    full = c.get("full", c["h"])
    key = c.get("inst")
    if key in TORSION:
        return TORSION[key]
    out = [pub.neutral(c)]
    if full > 1:
        for _ in range(12 if full < 100 else 3):
            P = pub.mul(c, c["r"], rpoint(c, rnd))
            out.append(P)
            for q in (2, 3, 4, 5, 7, 11, 13):
                if full % q == 0:
                    R = pub.mul(c, full // q, P)
                    out += [R, neg(c, R)]
    TORSION[key] = list(dict.fromkeys(out))
    return TORSION[key]


TORSION = {}


def cubic_root(c, y):
    """a root x of x^3+ax^2+x = by^2 when exactly one is rational, or None"""
    p = c["p"]
    m = [-c["b"] * y * y % p, 1, c["a"] % p]

    def mul(f, g):
        r = [0] * 5
        for i, u in enumerate(f):
            for j, v in enumerate(g):
                r[i + j] += u * v
        for i in (4, 3):
            t = r[i] % p
            for j in range(3):
                r[i - 3 + j] -= t * m[j]
        return [v % p for v in r[:3]]
    r = [1, 0, 0]
    for b in bin(p)[2:]:
        r = mul(r, r)
        if b == "1":
            r = mul(r, [0, 1, 0])
    f, g = m + [1], [r[0], (r[1] - 1) % p, r[2]]
    while True:
        while g and g[-1] == 0:
            g.pop()
        if not g:
            break
        iv = pow(g[-1], -1, p)
        while len(f) >= len(g):
            t, k = f[-1] * iv % p, len(f) - len(g)
            f = [(v - t * g[i - k]) % p if i >= k else v for i, v in enumerate(f)][:-1]
        f, g = g, f
    return -f[0] * pow(f[1], -1, p) % p if len(f) == 2 else None


def with_small_y(c):
    """points of a named Montgomery curve whose y coordinate is a small integer: the completeness of the addition law
    depends on the absence of points with y = s"""
    key = c["inst"] + " y"
    if key not in TORSION:
        TORSION[key] = [(x, y) for y in range(1, 11) for x in [cubic_root(c, y)] if x is not None]
    return TORSION[key]


def points(c, I, n):
    if "pts" in c:
        return c["pts"] if len(c["pts"]) <= n else [pub.neutral(c)] + I.rnd.sample(c["pts"], n - 1)
    G = (c["gx"] % c["p"], c["gy"] % c["p"])
    out = torsion(c, I.rnd)[:max(1, n // 2)] + [G, neg(c, G)]
    if c["m"] == "montgomery":
        out += with_small_y(c)[:n // 4]
    for x in [0, 1, 2, c["p"] - 1, c["p"] - 2] + I.small[:20]:
        P = lift(c, x % c["p"])
        if P and len(out) < n:
            out += [P, neg(c, P)]
    while len(out) < n:
        out.append(rpoint(c, I.rnd))
    return list(dict.fromkeys(out))


def rep(c, n, P, other, kind):
    """program text building the point in one of several representations"""
    O = pub.neutral(c)
    if kind == 1 and other != O:
        q = f"pt:{n}:{other[0]}:{other[1]}"
        if P == O:
            return f"{q} {q} sub.rr"
        return f"pt:{n}:{P[0]}:{P[1]} {q} add.rr {q} sub.rr"
    return f"O:{n}" if P == O else f"pt:{n}:{P[0]}:{P[1]}"


def rnd_rep(c, n, P, I, kinds=(0, 1, 1)):
    if c["m"] == "montgomery" and c["b"] != 1:     # addition is specified for b = 1 only
        kinds = (0,)
    other = I.rnd.choice(c["pts"]) if "pts" in c else I.rnd.choice(c.setdefault("some", points(c, I, 12)))
    return rep(c, n, P, other, I.rnd.choice(kinds))


SMALLP = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 43, 47]


def curves(model, I, per=2, primes=SMALLP, names=None, cond=None):
    return small(model, primes, I.rnd, per, cond) + named(model, names)


def group_law(model):
    def run(s, I):
        for c in curves(model, I):
            n = defc(s, c)
            ps = points(c, I, 60 if "pts" in c else 14)
            for P in ps:
                for Q in ps:
                    if len(ps) > 30 and I.rnd.random() < .6 and P != Q and neg(c, P) != Q:
                        continue
                    fm = I.rnd.choice(FORMS)
                    s.case(f"{rnd_rep(c, n, P, I)} {rnd_rep(c, n, Q, I)} ! pick:1 pick:1 add.{fm}", [PT(c, P), PT(c, Q)],
                           [PT(c, pub.add(c, P, Q))], f"addition on {desc(c)}")
                s.case(f"{rnd_rep(c, n, P, I)} ! dup dup add.rr", [PT(c, P)], [PT(c, pub.add(c, P, P))], f"doubling on {desc(c)}")
                s.case(f"{rnd_rep(c, n, P, I)} sc:{n}:2 ! pick:1 pick:1 mul.rr", [PT(c, P), ANY],
                       [PT(c, pub.mul(c, 2 % c['r'], P))], f"doubling on {desc(c)}")
            yield
    return run


def desc(c):
    if "inst" in c:
        return c["inst"]
    return f"{c['m']} p={c['p']} " + " ".join(f"{k}={c[k]}" for k in "abds" if k in c)


def c12(s, I):
    for model in LETTER:
        extra = small(model, SMALLP[:6], I.rnd, 2, "any") if model == "montgomery" else []
        for c in curves(model, I) + extra:
            n, p = defc(s, c), c["p"]
            if "pts" in c:
                for x in range(p):
                    for y in range(p):
                        on = pub.on_curve(c, (x, y))
                        s.case(f"! pt:{n}:{x}:{y}", [], [PT(c, (x, y))] if on else PANIC, f"point construction on {desc(c)}")
            else:
                for P in points(c, I, 20):
                    if P:
                        s.case(f"! pt:{n}:{P[0]}:{P[1]}", [], [PT(c, P)], f"point construction on {desc(c)}")
                        for Q in ((P[0], (P[1] + 1) % p), ((P[0] + 1) % p, P[1]), (P[1], P[0]), (0, 0), (P[0], 0), (0, P[1])):
                            s.case(f"! pt:{n}:{Q[0]}:{Q[1]}", [], [PT(c, Q)] if pub.on_curve(c, Q) else PANIC,
                                   f"point construction on {desc(c)}")
            s.case(f"O:{n} G:{n}", [], [PT(c, pub.neutral(c)), PT(c, (c["gx"] % p, c["gy"] % p))], f"identity and generator of {desc(c)}")
            ps = points(c, I, 25 if "pts" in c else 10) if c not in extra else []
            for P in ps:
                r = rnd_rep(c, n, P, I)
                s.case(f"{r} ! pick:0 neg.r", [PT(c, P)], [ONC(c)], "negation")
                s.case(f"{r} ! pick:0 oncurve:{n}", [PT(c, P)], [T(1)], "on-curve test")
                Q = I.rnd.choice(ps)
                s.case(f"{r} {rnd_rep(c, n, Q, I)} ! pick:1 pick:1 add.rr", [PT(c, P), PT(c, Q)], [ONC(c)], "addition")
                k = I.rnd.choice([0, 1, 2, 3, c["r"] - 1, I.rnd.randrange(c["r"])])
                s.case(f"{r} sc:{n}:{k} ! pick:1 pick:1 mul.rr", [PT(c, P), ANY], [ONC(c)], "multiplication")
                for z in (0, 1):
                    if c["p"] % 4 == 3 or c["p"] % 8 == 5:
                        s.case(f"{r} ! pick:0 enc:{z} drop pick:0 encdec:{n}:{z}", [PT(c, P)], [ONC(c)], "decoding")
            yield
        # the on-curve test on points of other curves over the same field
        cs = small(model, SMALLP[3:8], I.rnd, 4)
        for c in cs:
            for d in cs:
                if d["p"] == c["p"] and d is not c:
                    n, m = defc(s, c), defc(s, d)
                    for P in d["pts"]:
                        if P:
                            s.case(f"pt:{m}:{P[0]}:{P[1]} ! pick:0 oncurve:{n}", [PT(d, P)], [T(int(pub.on_curve(c, P)))],
                                   f"on-curve test of {desc(c)} on a point of another curve")
        yield
    for g in (c22, c23, c24, c25):
        for _ in g(s, I, ONC):
            yield


def scal(s, I, c, n, k, P):
    r = rnd_rep(c, n, P, I)
    v = pub.mul(c, k % c["r"], P)
    if I.rnd.random() < .5:
        s.case(f"{r} sc:{n}:{k} ! pick:1 pick:1 mul.{I.rnd.choice(FORMS)}", [PT(c, P), S(k % c["r"])], [PT(c, v)],
               f"multiplication on {desc(c)}")
    else:
        s.case(f"{r} sc:{n}:{k} ! pick:0 pick:2 lmul.{I.rnd.choice(['oo', 'or', 'rr'])}", [PT(c, P), S(k % c["r"])], [PT(c, v)],
               f"multiplication on {desc(c)}")


def c16(s, I):
    for model in LETTER:
        for c in small(model, SMALLP[2:10:2], I.rnd, 1) + named(model):
            n = defc(s, c)
            if "pts" in c:
                for P in points(c, I, 40):
                    for k in range(c["r"]):
                        scal(s, I, c, n, k, P)
            else:
                ks = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, c["r"] - 1, c["r"] - 2, (c["r"] - 1) // 2]
                ks += [2**k + e for k in (31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 159, 192) for e in (-1, 0, 1)]
                ks += [v % c["r"] for v in I.small[:40]] + [I.rnd.randrange(c["r"]) for _ in range(6)]
                ps = points(c, I, 8)
                for k in ks:
                    scal(s, I, c, n, k, I.rnd.choice(ps))
                s.case(f"G:{n} sc:{n}:-1 ! pick:1 pick:1 mul.rr G:{n} add.rr", [ANY, ANY], [PT(c, pub.neutral(c))],
                       f"order of the generator of {desc(c)}")
            yield
        # scalars longer than the group order, word boundaries included
        for c in small(model, [19, 43], I.rnd, 1):
            c = dict(c, r=2**200 + 235)
            n = defc(s, c)
            ks = [2**k + e for k in (1, 8, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 192, 199) for e in (-1, 0, 1)]
            ks += [I.rnd.getrandbits(I.rnd.randrange(1, 201)) for _ in range(60)] + I.small
            ks += [a << b for a in (1, 3, 5) for b in (32, 64, 96, 128)]
            for k in ks:
                scal(s, I, c, n, k, I.rnd.choice(c["pts"]))
        yield


def c17(s, I):
    for model in LETTER:
        for c in curves(model, I):
            n = defc(s, c)
            ps = points(c, I, 30 if "pts" in c else 12)
            for P in ps:
                r = rnd_rep(c, n, P, I)
                N = neg(c, P)
                for t in "or":
                    s.case(f"{r} ! pick:0 neg.{t}", [PT(c, P)], [PT(c, N)], f"negation on {desc(c)}")
                s.case(f"{r} ! pick:0 neg.r neg.r pick:1 pick:2 neg.r add.rr", [PT(c, P)], [PT(c, P), PT(c, pub.neutral(c))],
                       f"negation on {desc(c)}")
                for Q in I.rnd.sample(ps, min(len(ps), 8)) + [P, N]:
                    s.case(f"{r} {rnd_rep(c, n, Q, I)} ! pick:1 pick:1 sub.{I.rnd.choice(FORMS)}", [PT(c, P), PT(c, Q)],
                           [PT(c, pub.add(c, P, neg(c, Q)))], f"subtraction on {desc(c)}")
            yield


def c18(s, I):
    for model in LETTER:
        for c in curves(model, I):
            n, p = defc(s, c), c["p"]
            ps = points(c, I, 30 if "pts" in c else 12)

            def normal(c=c, P=None):
                def f(t):
                    v = coords(c, t)
                    if v is None:
                        return None
                    O = c["m"] != "edwards" and P is None
                    return affine(c, v) == ("O" if O else P) and (O or v[-1] == 1)
                return f
            for P in ps:
                s.case(f"{rnd_rep(c, n, P, I)} ! pick:0 iszero", [PT(c, P)], [T(int(P == pub.neutral(c)))], f"identity test on {desc(c)}")
                s.case(f"{rnd_rep(c, n, P, I)} ! pick:0 norm pick:1 pick:1 eq", [PT(c, P)], [normal(c, P), T(1)],
                       f"normalization on {desc(c)}")
                near = [neg(c, P)] + [R for R in ps if R and P and (R[0] == P[0] or R[1] == P[1])][:6]
                for Q in I.rnd.sample(ps, min(len(ps), 8)) + [P, P, P] + near:
                    s.case(f"{rnd_rep(c, n, P, I)} {rnd_rep(c, n, Q, I)} ! pick:1 pick:1 eq pick:1 pick:3 eq", [PT(c, P), PT(c, Q)],
                           [T(int(P == Q)), T(int(P == Q))], f"equality on {desc(c)}")
            yield


# ---------------------------------------------------------------- codecs

def encode(c, P, compress):
    p = c["p"]
    if c["m"] == "edwards":
        n = (p.bit_length() + 8) // 8
        v = bytearray(P[1].to_bytes(n, "little"))
        v[-1] |= (P[0] & 1) << 7
        return bytes(v)
    n = (p.bit_length() + 7) // 8
    if P is None:
        return b"\0"
    x, y = P[0].to_bytes(n, "big"), P[1].to_bytes(n, "big")
    return bytes([2 + (P[1] & 1)]) + x if compress else b"\4" + x + y


def decode(c, b):
    """the point an accepted byte string denotes, False for an error"""
    p = c["p"]
    if c["m"] == "edwards":
        n = (p.bit_length() + 8) // 8
        if len(b) != n:
            return False
        sign = b[-1] >> 7
        y = int.from_bytes(b[:-1] + bytes([b[-1] & 127]), "little")
        if y >= p:
            return False
        P = lift(c, y)
        if not P:
            return False
        if P[0] & 1 != sign:
            P = neg(c, P)
        return P if P[0] & 1 == sign else False
    n = (p.bit_length() + 7) // 8
    if b == b"\0":
        return None
    if len(b) == 2 * n + 1 and b[0] == 4:
        P = int.from_bytes(b[1:n + 1], "big"), int.from_bytes(b[n + 1:], "big")
        return P if max(P) < p and pub.on_curve(c, P) else False
    if len(b) == n + 1 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], "big")
        if x >= p:
            return False
        P = lift(c, x)
        if not P:
            return False
        if P[1] & 1 != b[0] & 1:
            P = neg(c, P)
        return P if P[1] & 1 == b[0] & 1 else False
    return False


CODECP = [5, 7, 11, 13, 19, 23, 29, 31, 127, 131, 251, 263, 269, 509]


def codec(models):
    def run(s, I):
        for model in models:
            for c in curves(model, I, 2, CODECP, cond=I.rnd.choice([None, 'any', 'map'])):
                n = defc(s, c)
                for P in points(c, I, 150 if "pts" in c else 20):
                    for z in (0, 1):
                        e = encode(c, P, z).hex()
                        for _ in range(2):
                            s.case(f"{rnd_rep(c, n, P, I)} ! pick:0 enc:{z}", [PT(c, P)], [T("x" + e)], f"encoding on {desc(c)}")
                        s.case(f"! dec:{n}:{e}", [], [PT(c, P)], f"decoding on {desc(c)}")
                        s.case(f"{rnd_rep(c, n, P, I)} ! pick:0 encdec:{n}:{z}", [PT(c, P)], [PT(c, P)], f"round trip on {desc(c)}")
                yield
    return run


def strings(c, I, n):
    p = c["p"]
    size = (p.bit_length() + 8) // 8 if c["m"] == "edwards" else (p.bit_length() + 7) // 8
    out = [b"", b"\0", b"\1", b"\2", b"\3", b"\4", b"\5", b"\xff"]
    if size == 1:
        out += [bytes([i]) for i in range(256)]
        if c["m"] != "edwards":
            out += [bytes([t, i]) for t in list(range(8)) + [0x80, 0x82, 0x83, 0x84, 255] for i in range(256)]
            out += [bytes([4, i, j]) for i in range(min(p + 3, 256)) for j in range(min(p + 3, 256))]
    for _ in range(n):
        P = I.rnd.choice(points(c, I, 30) if "pts" in c else c.setdefault("some", points(c, I, 12)))
        e = bytearray(encode(c, P, I.rnd.randrange(2)))
        for v in range(3):
            b = bytearray(e)
            k = I.rnd.randrange(len(b))
            b[k] = I.rnd.choice([b[k] ^ (1 << I.rnd.randrange(8)), I.rnd.randrange(256)])
            out.append(bytes(b))
        b = bytearray(e)
        b[0] ^= I.rnd.choice([1, 2, 4, 6, 7])
        out.append(bytes(b))
        b = bytearray(e)
        b[-1] ^= 0x80
        out.append(bytes(b))
        out += [bytes(e[:-1]), bytes(e) + b"\0", b"\0" + bytes(e), bytes(e[1:]), bytes(e) + bytes(e)]
    if c["m"] == "edwards":
        for y in [0, 1, 2, p - 1, p, p + 1, p + 2, 2**(8 * size - 1) - 1, 2 * p, 2 * p + 1] + list(range(p, p + 20)):
            for sgn in (0, 1):
                if y < 2**(8 * size - 1):
                    b = bytearray(y.to_bytes(size, "little"))
                    b[-1] |= sgn << 7
                    out.append(bytes(b))
    else:
        xs = [0, 1, 2, 3, p - 1, p, p + 1, p + 2, 256**size - 1, 256**size - 2] + [p + k for k in range(20)]
        for x in xs:
            if x < 256**size:
                x_ = x.to_bytes(size, "big")
                out += [bytes([t]) + x_ for t in (0, 1, 2, 3, 4, 5)]
                P = lift(c, x % p)
                for y in ([P[1], -P[1] % p, P[1] + p, 2 * p - P[1]] if P else [0]):
                    if y < 256**size:
                        out.append(b"\4" + x_ + y.to_bytes(size, "big"))
    if "some" in c:
        for P in c["some"]:
            if P and c["m"] != "edwards":
                for x, y in ((P[0] + p, P[1]), (P[0], P[1] + p)):
                    if max(x, y) < 256**size:
                        out.append(b"\4" + x.to_bytes(size, "big") + y.to_bytes(size, "big"))
    for k in (1, size - 1, size, size + 1, size + 2, 2 * size, 2 * size + 1, 2 * size + 2):
        for _ in range(n // 8 + 1):
            if k >= 0:
                b = bytearray(I.rnd.randbytes(k))
                if k and c["m"] != "edwards":
                    b[0] = I.rnd.choice([0, 2, 3, 4, b[0]])
                out.append(bytes(b))
    return out


def c20(s, I):
    for model in LETTER:
        for c in curves(model, I, 2, CODECP, cond=I.rnd.choice([None, 'any', 'map'])):
            n = defc(s, c)
            for b in strings(c, I, 60):
                v = decode(c, b)
                if v is False:
                    s.case(f"! dec:{n}:{b.hex()}", [], [T("err")], f"decoding on {desc(c)}")
                else:
                    z = int(len(b) > 1 and b[0] in (2, 3)) if model != "edwards" else 0
                    s.case(f"! dec:{n}:{b.hex()} pick:0 enc:{z}", [], [PT(c, v), T("x" + b.hex())], f"decoding on {desc(c)}")
            yield


# ---------------------------------------------------------------- scalars

def c10(s, I):
    for r in [2, 3, 5, 7, 11, 13, 127, 251, 257, 65521, 65537, 2**31 - 1, 2**32 - 5, 2**32 + 15, 2**33 - 9, 2**64 - 59, 2**65 - 49, 2**127 - 1] + \
            sorted({c["r"] for c in pub.CURVES.values()}):
        for w in "wme":
            n = (r.bit_length() + 7) // 8
            for k in I.ints(r, 60):
                s.case(f"scr:{w}:{k}:{r}", [], [S(k % r)], "scalar construction")
            for x in I.elems(r, 90):
                sc = f"scr:{w}:{x}:{r}"
                for t in "or":
                    s.case(f"{sc} ! pick:0 neg.{t}", [S(x)], [S(-x % r)], "negation")
                be = x.to_bytes(n, "big").hex()
                s.case(f"{sc} ! pick:0 be pick:1 le", [S(x)], [T("x" + be), T("x" + bytes.fromhex(be)[::-1].hex())], "encoding")
                if r > 2:
                    s.case(f"{sc} ! pick:0 udiv:1", [S(x)], [S(pow(x, -1, r) if x else 0)], "inverse")
            xs = I.elems(r, 14)
            for x in xs:
                for y in xs:
                    iv = pow(y, -1, r) if y else 0
                    for op, v in (("add", x + y), ("sub", x - y), ("mul", x * y)) + ((("div", x * iv),) if r > 2 else ()):
                        for fm in (FORMS if r < 12 else [I.rnd.choice(FORMS)]):
                            s.case(f"scr:{w}:{x}:{r} scr:{w}:{y}:{r} ! pick:1 pick:1 {op}.{fm}", [S(x), S(y)], [S(v % r)], op)
        yield


def c11(s, I):
    for r in [3, 257, 2**33 - 9, 2**130 + 1] + sorted({c["r"] for c in pub.CURVES.values()}):
        for w in "wme":
            ks = list(range(0, 70)) + [2**k + e for k in range(1, r.bit_length()) for e in (-1, 0, 1)] if r > 2**64 else list(range(300))
            ks += I.elems(r, 100) + [a << b for a in (1, 3, 5, 255) for b in range(0, 300, 8)] + [v % r for v in I.lits]
            for k in dict.fromkeys(v for v in ks if 0 <= v < r):
                b = bin(k)[2:] if k else ""
                s.case(f"scr:{w}:{k}:{r} ! pick:0 lr:{len(b) + 80} pick:1 rl:{len(b) + 80}", [S(k)], [T("b" + b), T("b" + b[::-1])],
                       "bit iteration")
        yield


# ---------------------------------------------------------------- mixing


def c09(s, I):
    for p, q in TWINS + ((7, 11), (11, 7), (3, 7), (251, 257), (13, 2**61 - 1), (pub.P25519, pub.P448), (pub.PK1, pub.P25519), (7, 7 + 4)):
        for quad in (False, True):
            if quad and (p % 4 != 3 or q % 4 != 3):
                p2, q2 = 7, 11
            else:
                p2, q2 = p, q
            f, g, f2 = deff(s, p2, quad), deff(s, q2, quad), deff(s, p2, quad, "t")
            for x in I.elems(p2, 5):
                for y in I.elems(q2, 5):
                    a, b = f"fp:{f}:{x}", f"fp:{g}:{y}"
                    V = (lambda v: Q(v, 0)) if quad else F
                    for op in ("add", "sub", "mul", "div"):
                        for fm in FORMS:
                            s.case(f"{a} {b} ! pick:1 pick:1 {op}.{fm}", [V(x), V(y)], PANIC, "elements of different fields")
                    s.case(f"{a} {b} ! pick:1 pick:1 eq", [V(x), V(y)], [T(0)], "elements of different fields")
                    z = y % p2
                    s.case(f"{a} fp:{f2}:{z} ! pick:1 pick:1 eq pick:2 pick:2 add.rr", [V(x), V(z)], [T(int(x == z)), V((x + z) % p2)],
                           "two handles of the same field")
            for x in I.elems(p2, 6):
                for e in [0, 1, 3, 4, 5, 2**32 - 1, 2**31, 2**31 + 2, 258, 65538] + [v for v in I.small if v < 2**32 and v != 2]:
                    for t in "or":
                        s.case(f"fp:{f}:{x} ! pick:0 xu.{t}:{e}", [ANY], PANIC, "exponent other than 2")
                for e in [0, 1, 2, -2, -3, 2**31 - 1, -2**31, 255] + [w for v in I.small for w in (v, -v) if abs(w) < 2**31 and w != -1]:
                    for t in "or":
                        s.case(f"fp:{f}:{x} ! pick:0 xi.{t}:{e}", [ANY], PANIC, "exponent other than -1")
                for e in [0, 2, 3, 2**32 - 1] + [v for v in I.small if v < 2**32 and v != 1]:
                    s.case(f"fp:{f}:{x} ! pick:0 udiv:{e}", [ANY], PANIC, "numerator other than 1")
            s.case(f"objeq:{f}:{f2} objeq:{f}:{g}", [], [T(1), T(0)], "field comparison")
        yield
    for w in "wme":
        for r, t in TWINS + ((7, 11), (11, 7), (13, 17), (pub.R25519, pub.R448), (2**255 - 19, 2**255 - 18)):
            for x in I.elems(r, 6):
                for y in I.elems(t, 6):
                    for op in ("add", "sub", "mul", "div"):
                        for fm in FORMS:
                            s.case(f"scr:{w}:{x}:{r} scr:{w}:{y}:{t} ! pick:1 pick:1 {op}.{fm}", [S(x), S(y)], PANIC, "scalars of different groups")
                    if w != "m":
                        s.case(f"scr:{w}:{x}:{r} scr:{w}:{y}:{t} ! pick:1 pick:1 eq", [S(x), S(y)], [T(0)], "scalars of different groups")
                if w != "m":
                    for y in I.elems(r, 4) + [x]:
                        s.case(f"scr:{w}:{x}:{r} scr:{w}:{y}:{r} ! pick:1 pick:1 eq", [S(x), S(y)], [T(int(x == y))], "scalar comparison")
                for e in [0, 2, 3, 2**32 - 1] + [v for v in I.small if v < 2**32 and v != 1][:20]:
                    s.case(f"scr:{w}:{x}:{r} ! pick:0 udiv:{e}", [S(x)], PANIC, "numerator other than 1")
        yield
    for model in LETTER:
        cs = small(model, [13, 19, 23], I.rnd, 3)
        for c in cs[:4]:
            # the same equation with one parameter changed: the group order, the cofactor, the generator, s
            vs = []
            for k in ("r", "h", "gx", "s"):
                if k == "gx":
                    g = I.rnd.choice([P for P in c["pts"] if P and P != (c["gx"], c["gy"]) and P != pub.neutral(c)])
                    vs.append(dict(c, gx=g[0], gy=g[1]))
                    if (c["gx"], -c["gy"] % c["p"]) in c["pts"] and c["gy"]:
                        vs.append(dict(c, gy=-c["gy"] % c["p"]))
                elif k == "s" and "s" in c:
                    vs.append(dict(c, s=-c["s"] % c["p"]))
                elif k in ("r", "h"):
                    vs.append(dict(c, **{k: c[k] + 2}))
            for v in vs:
                v.pop("id", None)
            n = defc(s, c)
            twin = dict(c)
            twin.pop("id", None)
            m = defc(s, twin)
            s.case(f"objeq:{n}:{m}", [], [T(1)], "two handles of the same curve")
            for P in points(c, I, 6):
                for W in points(c, I, 6):
                    a, b = rep(c, n, P, P, 0), rep(c, m, W, W, 0)
                    s.case(f"{a} {b} ! pick:1 pick:1 add.rr pick:2 pick:2 eq", [PT(c, P), PT(c, W)],
                           [PT(c, pub.add(c, P, W)), T(int(P == W))], "two handles of the same curve")
            for d in [d for d in cs if d is not c] + vs:
                m = defc(s, d)
                s.case(f"objeq:{n}:{m}", [], [T(0)], "different curves")
                for P in points(c, I, 4):
                    for R in points(d, I, 3) + ([P] if d["pts"] is c["pts"] else []):
                        for fm in FORMS:
                            for op in ("add", "sub"):
                                s.case(f"{rnd_rep(c, n, P, I)} {rnd_rep(d, m, R, I)} ! pick:1 pick:1 {op}.{fm}", [PT(c, P), PT(d, R)], PANIC,
                                       f"points of different curves {desc(c)} and {desc(d)}")
                        s.case(f"{rnd_rep(c, n, P, I)} {rnd_rep(d, m, R, I)} ! pick:1 pick:1 eq", [PT(c, P), PT(d, R)], [T(0)],
                               f"points of different curves {desc(c)} and {desc(d)}")
                    if d["r"] != c["r"]:
                        for k in (0, 1, 2, 3):
                            for fm in FORMS:
                                s.case(f"{rnd_rep(c, n, P, I)} sc:{m}:{k} ! pick:1 pick:1 mul.{fm}", [PT(c, P), ANY], PANIC,
                                       "scalar of another group")
                            for fm in ("oo", "or", "rr"):
                                s.case(f"sc:{m}:{k} {rnd_rep(c, n, P, I)} ! pick:1 pick:1 lmul.{fm}", [ANY, PT(c, P)], PANIC,
                                       "scalar of another group")
            yield
        ns = named(model)
        for c in ns:
            for d in ns:
                if c is not d:
                    n, m = defc(s, c), defc(s, d)
                    s.case(f"G:{n} G:{m} ! pick:1 pick:1 add.rr", [ANY, ANY], PANIC, "points of different curves")
                    s.case(f"O:{n} O:{m} ! pick:1 pick:1 add.rr", [ANY, ANY], PANIC, "points of different curves")
                    s.case(f"O:{n} O:{m} ! pick:1 pick:1 eq", [ANY, ANY], [T(0)], "points of different curves")
                    s.case(f"G:{n} G:{m} ! pick:1 pick:1 eq", [ANY, ANY], [T(0)], "points of different curves")
                    if c["r"] != d["r"]:
                        s.case(f"G:{n} sc:{m}:5 ! pick:1 pick:1 mul.rr", [ANY, ANY], PANIC, "scalar of another group")
        yield


# ---------------------------------------------------------------- maps to curves

def sq(v, p):
    return v % p == 0 or legendre(v % p, p) == 1


def g_w(c, x):
    return (x**3 + c["a"] * x + c["b"]) % c["p"]


def inv0(v, p):
    return pow(v, -1, p) if v % p else 0


def signed(P, p, want):
    """the point with the wanted sign of y (1 even, -1 odd)"""
    x, y = P
    return P if y == 0 or sg(y) == want else (x, -y % p)


def sswu_ok(c, z):
    p = c["p"]
    a, b, z = c["a"] % p, c["b"] % p, z % p
    return bool(a and b and not sq(z, p) and z != p - 1 and sq(g_w(c, b * inv0(z * a, p) % p), p))


def sswu(c, z, u):
    p, a, b = c["p"], c["a"], c["b"]
    t = (z * z * u**4 + z * u * u) % p
    x1 = b * inv0(z * a, p) % p if t == 0 else -b * inv0(a, p) * (1 + inv0(t, p)) % p
    x = x1 if sq(g_w(c, x1), p) else z * u * u * x1 % p
    v = g_w(c, x)
    return signed((x, sqrt_mod(v, p) if v else 0), p, sg(u))


def svdw_ok(c, z):
    p = c["p"]
    z %= p
    gz, h = g_w(c, z), (3 * z * z + 4 * c["a"]) % p
    t = -h * inv0(4 * gz, p) % p
    return bool(gz and t and sq(t, p) and (sq(gz, p) or sq(g_w(c, -z * inv0(2, p) % p), p)))


def svdw(c, z, u):
    p = c["p"]
    z %= p
    gz, h = g_w(c, z), (3 * z * z + 4 * c["a"]) % p
    t1 = u * u * gz % p
    t2, t1 = (1 + t1) % p, (1 - t1) % p
    t3 = inv0(t1 * t2, p)
    v = -gz * h % p
    t4 = sqrt_mod(v, p) if v else 0
    if sg(t4) == -1:
        t4 = -t4 % p
    t5 = u * t1 * t3 * t4 % p
    t6 = -4 * gz * inv0(h, p) % p
    i2 = inv0(2, p)
    for x in ((-z * i2 - t5) % p, (-z * i2 + t5) % p, (z + t6 * (t2 * t2 * t3)**2) % p):
        if sq(g_w(c, x), p):
            break
    v = g_w(c, x)
    return signed((x, sqrt_mod(v, p) if v else 0), p, sg(u))


def ell2(c, z, u):
    p, A, B = c["p"], c["a"] * inv0(c["b"], c["p"]) % c["p"], inv0(c["b"], c["p"])**2 % c["p"]
    d = (1 + z * u * u) % p
    x1 = -A % p if d == 0 else -A * inv0(d, p) % p
    f = lambda t: (t**3 + A * t * t + B * t) % p
    if sq(f(x1), p):
        t, want = x1, -1
    else:
        t, want = (-x1 - A) % p, 1
    v = f(t)
    P = signed((t, sqrt_mod(v, p) if v else 0), p, want)
    return P[0] * c["b"] % p, P[1] * c["b"] % p


def us(c, I, z, n):
    p = c["p"]
    out = I.elems(p, n)
    for v in (-inv0(z, p) % p, inv0(z, p), z % p):
        if v and sq(v, p):
            r = sqrt_mod(v, p)
            out += [r, -r % p]
    if c["m"] == "weierstrass":
        v = inv0(g_w(c, z % p), p)
        for w in (v, -v % p):
            if w and sq(w, p):
                r = sqrt_mod(w, p)
                out += [r, -r % p]
    return list(dict.fromkeys(out))


MAPP = [7, 11, 13, 19, 23, 29, 31, 37, 43]


def wmaps(kind, ok, f):
    def run(s, I, check=PT_):
        cs = small("weierstrass", MAPP, I.rnd, 3, "map")
        cs += named("weierstrass")
        for c in cs:
            n, p = defc(s, c), c["p"]
            small_ = "pts" in c
            if not small_ and (p % 4 != 3 and p % 8 != 5):
                continue
            zs = list(range(p)) if small_ else [0, 1, -1, 2, -2, 3, -3, 5, -5, 6, -6, 7, -7, 10, -10, 11, -11, 12, -12, 13]
            good = [z for z in zs if ok(c, z)]
            if check is PT_:
                for z in zs:
                    s.case(f"! mk:t:{kind}:{n}:{z}", [], [] if ok(c, z) else PANIC, f"{kind} constructor on {desc(c)}")
            for z in good if small_ else good[:2]:
                m = f"{n}{kind}{z % p if small_ else str(z).replace('-', 'n')}"
                s.define(f"mk:{m}:{kind}:{n}:{z}")
                for u in us(c, I, z, 60 if small_ else 14):
                    s.case(f"fp:{n}:{u} ! pick:0 map:{m}", [F(u)], [check(c, f(c, z, u))], f"{kind} on {desc(c)} with Z={z}")
            yield
        # curves with A = 0 or B = 0 are refused
        if check is PT_:
            for p in MAPP:
                for a, b in ((0, 3), (3, 0), (1, 0)):
                    c = dict(m="weierstrass", p=p, a=a, b=b, r=7, h=1, gx=0, gy=0)
                    if (4 * a**3 + 27 * b * b) % p:
                        n = defc(s, c)
                        for z in range(p):
                            s.case(f"! mk:t:{kind}:{n}:{z}", [], [] if ok(c, z) else PANIC, f"{kind} constructor on {desc(c)}")
            yield
    return run


def PT_(c, P):
    return PT(c, P)


def on(check):
    return (lambda c, P: ONC(c)) if check is ONC else check


def c22(s, I, check=PT_):
    return wmaps("sswu", sswu_ok, sswu)(s, I, on(check))


def c23(s, I, check=PT_):
    return wmaps("svdw", svdw_ok, svdw)(s, I, on(check))


def c24(s, I, check=PT_):
    check = on(check)
    for c in curves("montgomery", I, 3, MAPP, cond="map"):
        n, p = defc(s, c), c["p"]
        zs = [z for z in range(p) if not sq(z, p)] if "pts" in c else [z for z in (2, -1, 3, 5, 7, -2) if not sq(z, p)][:2]
        for z in zs:
            m = f"{n}ell2{str(z).replace('-', 'n')}"
            s.define(f"mk:{m}:ell2m:{n}:{z}")
            for u in us(c, I, z, 60 if "pts" in c else 20):
                s.case(f"fp:{n}:{u} ! pick:0 map:{m}", [F(u)], [check(c, ell2(c, z, u))], f"Elligator 2 on {desc(c)} with Z={z}")
        yield


# ---------------------------------------------------------------- rational maps and isogenies

C25519 = dict(pub.CURVES["CURVE25519"], inst="CURVE25519")
E25519 = dict(pub.CURVES["EDWARDS25519"], inst="EDWARDS25519")
C448 = dict(pub.CURVES["CURVE448"], inst="CURVE448")
E448 = dict(pub.CURVES["EDWARDS448"], inst="EDWARDS448")
SQ25519 = 6853475219497561581579357271197624642482790079785650197046958215289687604742


def push25519(P):
    p = pub.P25519
    x, y = P
    if P == (0, 1):
        return None
    if x == 0:
        return 0, 0
    u = (1 + y) * inv0(1 - y, p) % p
    return u, SQ25519 * u * inv0(x, p) % p


def pull25519(P):
    p = pub.P25519
    if P is None:
        return 0, 1
    u, v = P
    if P == (0, 0):
        return 0, p - 1
    return SQ25519 * u * inv0(v, p) % p, (u - 1) * inv0(u + 1, p) % p


def push448(P):
    p = pub.P448
    x, y = P
    if x == 0:
        return None
    return y * y * inv0(x * x, p) % p, (2 - x * x - y * y) * y * inv0(x**3, p) % p


def pull448(P):
    p = pub.P448
    if P is None or P == (0, 0):
        return 0, 1
    u, v = P
    x = 4 * v * (u * u - 1) * inv0(u**4 - 2 * u * u + 4 * v * v + 1, p) % p
    y = -(u**5 - 2 * u**3 - 4 * u * v * v + u) * inv0(u**5 - 2 * u * u * v * v - 2 * u**3 - 2 * v * v + u, p) % p
    return x, y


def ratmap(name, e, m, push, pull, back):
    def run(s, I):
        s.define(f"inst:rat:{name}")
        ne, nm = defc(s, e), defc(s, m)
        for rounds in range(4):
            pe = points(e, I, 40) + torsion(e, I.rnd)
            pm = points(m, I, 40) + torsion(m, I.rnd)
            tors = torsion(e, I.rnd)
            pe += [pub.add(e, a, I.rnd.choice(pe)) for a in tors]
            for P in pe:
                for kinds in ((0,), (1,)):
                    s.case(f"{rnd_rep(e, ne, P, I, kinds)} ! pick:0 push:rat", [PT(e, P)], [PT(m, push(P))], f"{name} push")
                s.case(f"{rnd_rep(e, ne, P, I)} ! pick:0 push:rat pull:rat", [PT(e, P)], [PT(e, back(e, P))], f"{name} push and pull")
                R = I.rnd.choice(pe)
                s.case(f"{rnd_rep(e, ne, P, I)} {rnd_rep(e, ne, R, I)} ! pick:1 pick:1 add.rr push:rat pick:2 push:rat pick:2 push:rat add.rr",
                       [PT(e, P), PT(e, R)], [PT(m, push(pub.add(e, P, R)))] * 2, f"{name} push of a sum")
            for P in pm:
                for kinds in ((0,), (1,)):
                    s.case(f"{rnd_rep(m, nm, P, I, kinds)} ! pick:0 pull:rat", [PT(m, P)], [PT(e, pull(P))], f"{name} pull")
                s.case(f"{rnd_rep(m, nm, P, I)} ! pick:0 pull:rat push:rat", [PT(m, P)], [PT(m, back(m, P))], f"{name} pull and push")
            s.case("domain:D:rat codomain:E:rat", [], [], "")
            s.case(f"objeq:{ne}:D objeq:{nm}:E", [], [T(1), T(1)], f"{name} domain and codomain")
            yield
    return run


c26 = ratmap("ed25519map", E25519, C25519, push25519, pull25519, lambda c, P: P)
c27 = ratmap("ed448map", E448, C448, push448, pull448, lambda c, P: pub.mul(c, 4, P))


def iso_eval(iso, P):
    E = pub.CURVES[iso["domain"]]
    p = E["p"]
    if P is None:
        return None
    x, y = P
    ev = lambda f: sum(c * pow(x, i, p) for i, c in enumerate(f)) % p
    xd, yd = ev(iso["x_den"]), ev(iso["y_den"])
    if xd == 0 or yd == 0:
        return None
    return ev(iso["x_num"]) * inv0(xd, p) % p, y * ev(iso["y_num"]) * inv0(yd, p) % p


def c28(s, I):
    for name, iso in pub.ISOGENIES.items():
        e = dict(pub.CURVES[iso["domain"]], inst=iso["domain"])
        w = dict(pub.CURVES[iso["codomain"]], inst=iso["codomain"])
        h = "isosecp" if "SECP" in iso["domain"] else "isobls"
        s.define(f"inst:{h}:{h}")
        ne = defc(s, e)
        for rounds in range(2):
            ps = points(e, I, 16) + torsion(e, I.rnd)
            for P in ps:
                for kinds in ((0,), (1,)):
                    s.case(f"{rnd_rep(e, ne, P, I, kinds)} ! pick:0 push:{h}", [PT(e, P)], [PT(w, iso_eval(iso, P))], f"isogeny {name}")
                R = I.rnd.choice(ps)
                s.case(f"{rnd_rep(e, ne, P, I)} {rnd_rep(e, ne, R, I)} ! pick:1 pick:1 add.rr push:{h} pick:2 push:{h} pick:2 push:{h} add.rr",
                       [PT(e, P), PT(e, R)], [PT(w, iso_eval(iso, pub.add(e, P, R)))] * 2, f"isogeny {name} of a sum")
            yield
        s.case(f"domain:D:{h} codomain:E:{h}", [], [], "")
        nw = defc(s, w)
        s.case(f"objeq:{ne}:D objeq:{nw}:E", [], [T(1), T(1)], f"isogeny {name} domain and codomain")
        yield


def fakes(s, I, check):
    """composed maps over small fields with an arbitrary change of curve (the generator or its opposite)"""
    for p in MAPP[:6]:
        ws = small("weierstrass", [p], I.rnd, 6, "map")
        a0 = [c for c in ws if c["a"] % p and c["b"] % p]
        tgt = []
        for a, b in ((0, 1), (0, 2), (0, 3), (1, 0), (2, 0)):
            c = dict(m="weierstrass", p=p, a=a, b=b)
            pts = [P for P in allpoints(c) if P]
            if pts and (4 * a**3 + 27 * b * b) % p:
                c.update(gx=pts[0][0], gy=pts[0][1], r=7, h=1)
                tgt.append(c)
        bad = dict(m="weierstrass", p=p, a=0, b=0, gx=1, gy=1, r=7, h=1)
        for d in a0[:2]:
            nd = defc(s, d)
            zs = [z for z in range(p) if sswu_ok(d, z)]
            if not zs:
                continue
            for c in tgt:
                nc = defc(s, c)
                for z in zs[:2]:
                    m = f"{nc}{nd}fk{z}"
                    s.define(f"mk:{m}:sswuab0:{nc}:{z}:fake:{nd}:{nc}")
                    for u in us(d, I, z, 60):
                        P = sswu(d, z, u)
                        G = (c["gx"], c["gy"] if P[1] % 2 == 0 else -c["gy"] % p)
                        s.case(f"fp:{nc}:{u} ! pick:0 map:{m}", [F(u)], [check(c, G)], f"SSWUAB0 to {desc(c)} from {desc(d)} with Z={z}")
                if check is PT_:
                    for z in range(p):
                        s.case(f"! mk:t:sswuab0:{nc}:{z}:fake:{nd}:{nc}", [], [] if z in zs else PANIC, f"SSWUAB0 constructor from {desc(d)} to {desc(c)}, Z={z}")
                    for o in tgt + a0:
                        if (o["a"], o["b"]) != (c["a"], c["b"]):
                            s.case(f"! mk:t:sswuab0:{defc(s, o)}:{zs[0]}:fake:{nd}:{nc}", [], PANIC, "SSWUAB0 with an isogeny to another curve")
            if check is PT_:
                for c in [bad] + a0:
                    s.case(f"! mk:t:sswuab0:{defc(s, c)}:{zs[0]}:fake:{nd}:{defc(s, c)}", [], PANIC, f"SSWUAB0 to {desc(c)}")
        yield
        es, ms = small("edwards", [p], I.rnd, 2), small("montgomery", [p], I.rnd, 2, "map")
        for e in es:
            for m in ms:
                ne, nm = defc(s, e), defc(s, m)
                for z in [z for z in range(p) if not sq(z, p)][:2]:
                    k = f"{ne}{nm}fk{z}"
                    s.define(f"mk:{k}:ell2e:{ne}:{z}:fake:{ne}:{nm}")
                    for u in us(m, I, z, 60):
                        P = ell2(m, z, u)
                        G = (e["gx"] if P[1] % 2 == 0 else -e["gx"] % p, e["gy"])
                        s.case(f"fp:{ne}:{u} ! pick:0 map:{k}", [F(u)], [check(e, G)], f"Elligator 2 to {desc(e)} through {desc(m)} with Z={z}")
                if check is PT_:
                    for o in es:
                        if (o["a"], o["d"]) != (e["a"], e["d"]):
                            s.case(f"! mk:t:ell2e:{defc(s, o)}:{nonsquare(p)}:fake:{ne}:{nm}", [], PANIC, "Elligator 2 with a rational map from another curve")
        yield


def c25(s, I, check=PT_):
    check = on(check)
    yield from fakes(s, I, check)
    for name, iso in pub.ISOGENIES.items():
        e = dict(pub.CURVES[iso["domain"]], inst=iso["domain"])
        w = dict(pub.CURVES[iso["codomain"]], inst=iso["codomain"])
        h = "isosecp" if "SECP" in iso["domain"] else "isobls"
        nw, ne = defc(s, w), defc(s, e)
        zs = [-11, 11, 5, -5, 2, 3, -3, 7, -7, 1, -1, 0, 4]
        good = [z for z in zs if sswu_ok(e, z)]
        for z in good[:3]:
            m = f"ab0{h}{str(z).replace('-', 'n')}"
            s.define(f"mk:{m}:sswuab0:{nw}:{z}:{h}")
            for u in us(e, I, z, 20):
                s.case(f"fp:{nw}:{u} ! pick:0 map:{m}", [F(u)], [check(w, iso_eval(iso, sswu(e, z % e['p'], u)))], f"SSWUAB0 to {desc(w)} with Z={z}")
            yield
        if check is PT_:
            for z in zs:
                s.case(f"! mk:t:sswuab0:{nw}:{z}:{h}", [], [] if z in good else PANIC, f"SSWUAB0 constructor, {desc(w)}, Z={z}")
            z = good[0]
            p = w["p"]
            others = [ne] + [defc(s, c) for c in named("weierstrass") if c["inst"] != iso["codomain"]]
            for k, v in (("h", w["h"] + 1), ("r", w["r"] + 2), ("gy", -w["gy"] % p), ("b", w["b"] + 1), ("a", 1), ("b", 0)):
                v_ = dict(w, **{k: v})
                v_.pop("inst"), v_.pop("id", None)
                others.append(defc(s, v_))
            for o in others:
                s.case(f"! mk:t:sswuab0:{o}:{z}:{h}", [], PANIC, "SSWUAB0 with an isogeny to another curve")
            yield
    for h, e, m, pull in (("ed25519map", E25519, C25519, pull25519), ("ed448map", E448, C448, pull448)):
        ne, p = defc(s, e), e["p"]
        zs = [z for z in (2, -1, 3, 5, 7, -2) if not sq(z, p)][:2]
        for z in zs:
            mm = f"e2{h}{str(z).replace('-', 'n')}"
            s.define(f"mk:{mm}:ell2e:{ne}:{z}:{h}")
            for u in us(m, I, z, 40):
                s.case(f"fp:{ne}:{u} ! pick:0 map:{mm}", [F(u)], [check(e, pull(ell2(m, z % p, u)))], f"Elligator 2 to {desc(e)} with Z={z}")
        if check is PT_:
            others = [defc(s, c) for c in named("edwards") if c["inst"] != e["inst"]]
            for k, v in (("h", e["h"] + 1), ("r", e["r"] + 2), ("gx", -e["gx"] % p), ("d", e["d"] + 1), ("a", e["a"] * 4)):
                v_ = dict(e, **{k: v})
                v_.pop("inst"), v_.pop("id", None)
                others.append(defc(s, v_))
            for o in others:
                s.case(f"! mk:t:ell2e:{o}:{zs[0]}:{h}", [], PANIC, "Elligator 2 with a rational map from another curve")
        yield


# ---------------------------------------------------------------- instances

def c29(s, I):
    for c in [dict(c, inst=k) for k, c in pub.CURVES.items()]:
        n, p = defc(s, c), c["p"]
        G = (c["gx"] % p, c["gy"] % p)

        def eqn(t, c=c, p=p):
            v = [int(w) for w in re.findall(r"\b[abd]: (\d+)", t)]
            second = c["d"] if c["m"] == "edwards" else c["b"]
            return None if len(v) != 2 else v == [c["a"] % p, second % p]
        s.case(f"modulus:{n} order:{n} cof:{n} G:{n} curve:{n}", [], [T(p), T(c["r"]), T(c["h"]), PT(c, G), eqn], f"parameters of {desc(c)}")
        s.case(f"G:{n} sc:{n}:-1 mul.rr G:{n} add.rr", [], [PT(c, pub.neutral(c))], f"generator order of {desc(c)}")
        for P in points(c, I, 8):
            s.case(f"{rep(c, n, P, P, 0)} ! pick:0 pick:0 add.rr", [PT(c, P)], [PT(c, pub.add(c, P, P))], f"arithmetic of {desc(c)}")
        if c["m"] == "montgomery":
            for P in points(c, I, 12) + with_small_y(c):
                for R in (P, neg(c, P), None):
                    s.case(f"{rep(c, n, P, P, 0)} {rep(c, n, R, R, 0)} ! pick:1 pick:1 add.rr", [PT(c, P), PT(c, R)],
                           [PT(c, pub.add(c, P, R))], f"arithmetic of {desc(c)}")
        yield


def c31(s, I):
    def X(text):
        return T("x" + text.encode().hex())
    for k, c in pub.CURVES.items():
        s.case(f"idstr:{k}", [], [X(c["name"])], f"printed name of {k}")
    for p in [2] + PRIMES:
        f = deff(s, p)
        s.case(f"ostr:{f}", [], [X(f"GF({p})")], "printed field")
        for x in I.elems(p, 200):
            s.case(f"fp:{f}:{x} ! pick:0 be pick:1 str pick:2 reread:{f} pick:3 eq", [ANY], [ANY, X(str(x)), T(1)], "printed element")
        for x, y in zip(I.elems(p, 60), I.elems(p, 60)[::-1]):
            for op, v in (("add", x + y), ("sub", x - y), ("mul", x * y)):
                s.case(f"fp:{f}:{x} fp:{f}:{y} {op}.rr ! pick:0 str", [ANY], [X(str(v % p))], f"printed result of {op}")
        if p % 4 == 3:
            g = deff(s, p, True)
            s.case(f"ostr:{g}", [], [X(f"GF({p})^2")], "printed field")
            for x in pairs(I, p, 200):
                s.case(f"fp:{g}:{x[0]}:{x[1]} ! pick:0 str", [ANY], [X(f"{x[0]}+i*{x[1]}")], "printed element of GF(p^2)")
        yield
    for r in [2, 3, 5, 251, 257, 2**31 - 1, 2**64 - 59, 2**127 - 1] + sorted({c["r"] for c in pub.CURVES.values()}):
        for w in "wme":
            for x in I.elems(r, 60):
                s.case(f"scr:{w}:{x}:{r} ! pick:0 str", [ANY], [X(str(x))], "printed scalar")
        yield
    head = {"weierstrass": "Weierstrass Curve y^2=x^3+ax+b\na: {a}\nb: {b}", "montgomery": "Montgomery Curve by^2=x^3+ax^2+x\na: {a}\nb: {b}",
            "edwards": "Twisted Edwards Curve ax^2+y^2=1+dx^2y^2\na: {a}\nd: {d}"}
    for model in LETTER:
        for c in curves(model, I):
            n, p = defc(s, c), c["p"]
            s.case(f"ostr:{n}", [], [X(head[model].format(**{k: c[k] % p for k in "abd" if k in c}))], f"printed form of {desc(c)}")

            def form(P, c=c, p=p):
                def f(t):
                    if not re.fullmatch(r"T x[0-9a-f]*", t):
                        return None
                    try:
                        t = bytes.fromhex(t[3:]).decode()
                    except UnicodeDecodeError:
                        return False
                    need = "xytz" if c["m"] == "edwards" else "xyz"
                    m = re.fullmatch("".join(rf"\n{k}: (0|[1-9][0-9]*)" for k in need), t)
                    if not m or any(int(v) >= p for v in m.groups()):
                        return False
                    v = tuple(map(int, m.groups()))
                    if c["m"] == "edwards" and (v[0] * v[1] - v[2] * v[3]) % p:
                        return False
                    return affine(c, v) == ("O" if P is None else P)
                return f
            for P in points(c, I, 24 if "pts" in c else 10):
                s.case(f"{rnd_rep(c, n, P, I)} ! pick:0 str", [ANY], [form(P)], f"printed point of {desc(c)}")
            yield


TESTS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C11": c11, "C12": c12, "C13": group_law("weierstrass"), "C14": group_law("edwards"), "C15": group_law("montgomery"),
         "C16": c16, "C17": c17, "C18": c18, "C19": codec(["weierstrass", "montgomery"]), "C20": c20, "C21": codec(["edwards"]),
         "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C29": c29, "C31": c31}


def threads(seed, budget, tier):
    """C30: stress test with real threads (replay/threads)"""
    t0 = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(HERE, "target"))
    d = os.path.join(HERE, "threads")
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        m = re.search(r"error\[E0277\]: (`[^`]*` cannot be (?:sent|shared) between threads safely)", r.stdout)
        if not m:
            raise RuntimeError("threads crate: " + r.stdout[-500:])
        return {"ran": True, "evaluations": 0, "found": [{"key": m.group(1), "text": "a program that hands a field handle to another "
                "thread is rejected by the compiler: " + m.group(1), "definitions": []}]}
    secs = min(budget / 2, 40 if tier == "quick" else 240)
    try:
        r = subprocess.run([os.path.join(HERE, "target/debug/threads"), str(seed), str(secs)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=secs + 60)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        out += "\nDIFF the stress test did not finish: some thread is blocked for ever\n"
    found = [{"key": l[:60], "text": l[5:], "definitions": []} for l in out.splitlines() if l.startswith("DIFF ")]
    m = re.search(r"SUMMARY (\d+) (\d+)", out)
    return {"ran": True, "found": found, "evaluations": int(m.group(1)) if m else 0, "rounds": 1, "seed": seed,
            "seconds": round(time.time() - t0, 1)}


def run(pid, seed, budget, focus, tier):
    t0 = time.time()
    if pid == "C30":
        return threads(seed, budget, tier)
    build()
    s = Session(t0 + budget)
    rounds = mixed = 0
    while not s.over():
        I = Inputs(random.Random(f"{pid} {seed} {rounds}"))
        n0 = s.n
        s.defs, s.known = [], set()
        s.rnd = random.Random(f"{pid} {seed} {rounds} histories")
        s.deadline = t0 + budget * (.75 if rounds == 0 else 1)
        for _ in TESTS[pid](s, I):
            s.flush()
            if s.over():
                break
        s.flush()
        s.deadline = t0 + budget
        n1 = s.n
        s.histories(24, 220)
        mixed += s.n - n1
        rounds += 1
        if tier == "quick" and rounds >= 3 or s.n == n0:
            break
    return {"ran": True, "found": s.found, "evaluations": s.n, "in_mixed_histories": mixed, "skipped": s.skipped, "rounds": rounds, "seed": seed,
            "seconds": round(time.time() - t0, 1)}


if __name__ == "__main__":
    for pid in sys.argv[1].split(","):
        r = run(pid, int(sys.argv[2]) if len(sys.argv) > 2 else 1, float(sys.argv[3]) if len(sys.argv) > 3 else 240, [],
                sys.argv[4] if len(sys.argv) > 4 else "quick")
        fs = r.pop("found")
        print(pid, r)
        for f in fs[:6]:
            print("   ", f["text"][:700], f["definitions"])
