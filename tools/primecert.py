"""Searches primality certificates for the published field and group orders (development tool; the certificates
are committed in vc/certificates.json and checked, not searched, on every run by vc/numth.py).

Steps: 'small' (deterministic Miller-Rabin below 3.3e24), 'pock' (Pocklington: N-1 = F*R with F > sqrt N, the prime
factors of F certified in turn), 'ell' (Goldwasser-Kilian: a point whose order is divisible by a certified prime
q > (N^(1/4)+1)^2 on a curve modulo N; curve found by complex multiplication, or given)."""
import sys, json, os, time, math, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vc.numth import is_prime, sqrt_mod, legendre
import mpmath
try:
    from gmpy2 import mpz
except ImportError:
    mpz = int
from sympy.ntheory.ecm import _ecm_one_factor
from sympy import primerange
SMALL = list(primerange(2, 300000))
rnd = random.Random(7)


def factor(n, effort):
    """known prime factors of n and the unfactored rest"""
    fs = []
    for p in SMALL:
        while n % p == 0:
            fs.append(p)
            n //= p
    todo, rest = [n], []
    while todo:
        m = todo.pop()
        if m == 1:
            continue
        if is_prime(m):
            fs.append(m)
            continue
        f = None
        for b1, b2, c in effort:
            try:
                f = _ecm_one_factor(m, b1, b2, c, seed=rnd.randrange(1 << 30))
            except Exception:
                f = None
            if f and 1 < f < m:
                break
            f = None
        if f:
            todo += [int(f), m // int(f)]
        else:
            rest.append(m)
    return fs, rest


LIGHT = [(500, 20000, 5)]
MEDIUM = [(2000, 100000, 25)]
HEAVY = [(2000, 100000, 25), (11000, 1500000, 60)]


def pock(N, effort, cert):
    fs, rest = factor(N - 1, effort)
    fs.sort(reverse=True)
    F, use = 1, []
    for q in sorted(set(fs)):
        pass
    # the small factors first: recursion is dearer for large ones
    for q in sorted(set(fs)):
        use.append(q)
        e = fs.count(q)
        F *= q**e
        if F * F > N:
            break
    if F * F <= N:
        return None
    wit = {}
    for q in use:
        a = 2
        while True:
            if pow(a, N - 1, N) != 1:
                return None
            if math.gcd(pow(a, (N - 1) // q, N) - 1, N) == 1:
                break
            a += 1
        wit[q] = a
    sub = []
    for q in use:
        if not prove(q, cert):
            return None
    cert[str(N)] = ["pock", [[str(q), wit[q]] for q in use]]
    return True


# elliptic curves modulo N, y^2 = x^3 + a x + b
def add(P, Q, a, N):
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % N == 0:
            return None
        l = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, N) % N
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, N) % N
    x = (l * l - P[0] - Q[0]) % N
    return x, (l * (P[0] - x) - P[1]) % N


def mul(k, P, a, N):
    R = None
    while k:
        if k & 1:
            R = add(R, P, a, N)
        P = add(P, P, a, N)
        k >>= 1
    return R


def cornacchia(D, N):
    """u with u^2 + |D| v^2 = 4N, or None"""
    if legendre(D, N) != 1:
        return None
    x = sqrt_mod(D, N)
    if (x - D) % 2:
        x = N - x
    a, b, c = 2 * N, x, math.isqrt(4 * N)
    while b > c:
        a, b = b, a % b
    t = 4 * N - b * b
    if t % -D:
        return None
    t //= -D
    v = math.isqrt(t)
    return (b, v) if v * v == t else None


def forms(D):
    out = []
    a = 1
    while 3 * a * a <= -D:
        for b in range(-a + 1, a + 1):
            if (b * b - D) % (4 * a) == 0:
                c = (b * b - D) // (4 * a)
                if c < a or (c == a and b < 0):
                    continue
                if math.gcd(math.gcd(a, b), c) == 1:
                    out.append((a, b, c))
        a += 1
    return out


def hilbert(D):
    fo = forms(D)
    mpmath.mp.prec = int(60 + 4.6 * math.sqrt(-D) * sum(1 / f[0] for f in fo) * 1.5 + 40 * len(fo))
    poly = [mpmath.mpc(1)]
    for a, b, c in fo:
        tau = mpmath.mpc(mpmath.mpf(-b) / (2 * a), mpmath.sqrt(-D) / (2 * a))
        q = mpmath.exp(2j * mpmath.pi * tau)
        # j = 256 (1-w+w^2)^3/(w^2 (1-w)^2)-style via eta quotient: f = (eta(2tau)/eta(tau))^24, j = (256 f + 1)^3 / f
        def eta0(z):
            s, n = mpmath.mpc(1), 1
            while True:
                t = (-1) ** n * (z ** (n * (3 * n - 1) // 2) + z ** (n * (3 * n + 1) // 2))
                s += t
                if abs(t) < mpmath.mpf(2) ** (-mpmath.mp.prec - 10):
                    return s
                n += 1
        f = q * (eta0(q * q) / eta0(q)) ** 24
        j = (256 * f + 1) ** 3 / f
        nxt = [mpmath.mpc(0)] * (len(poly) + 1)
        for i, co in enumerate(poly):
            nxt[i] += co
            nxt[i + 1] -= co * j
        poly = nxt
    out = []
    for co in poly:
        v = mpmath.nint(co.real)
        if abs(co.real - v) > 1e-3 or abs(co.imag) > 1e-3:
            return None
        out.append(int(v))
    return out


def pmod(f, g, N):
    f = f[:]
    inv = pow(g[0], -1, N)
    while len(f) >= len(g):
        c = f[0] * inv % N
        for i in range(len(g)):
            f[i] = (f[i] - c * g[i]) % N
        f.pop(0)
    while f and f[0] == 0:
        f.pop(0)
    return f


def pmul(f, g, m, N):
    if not f or not g:
        return []
    r = [0] * (len(f) + len(g) - 1)
    for i, x in enumerate(f):
        for j, y in enumerate(g):
            r[i + j] = (r[i + j] + x * y) % N
    return pmod(r, m, N)


def root(f, N):
    f = [c % N for c in f]
    while len(f) > 2:
        s = rnd.randrange(N)
        base, e, r = pmod([1, s], f, N), (N - 1) // 2, [1]
        while e:
            if e & 1:
                r = pmul(r, base, f, N)
            base = pmul(base, base, f, N)
            e >>= 1
        r = [0] * 0 + r
        if not r:
            continue
        r[-1] = (r[-1] - 1) % N
        while r and r[0] == 0:
            r.pop(0)
        g, h = f, r
        while h:
            g, h = h, pmod(g, h, N)
        if 1 < len(g) < len(f):
            f = g
    return -f[1] * pow(f[0], -1, N) % N


DISC = []
for D in range(3, 1200):
    if (-D) % 4 in (0, 1):
        m = D // 4 if D % 4 == 0 else D
        sf = all(m % (q * q) for q in range(2, 40))
        if D % 4 == 0 and (-m) % 4 == 1:
            sf = False
        if sf:
            h = len(forms(-D))
            if h <= 10:
                DISC.append((h, -D))
DISC.sort()


def ell(N, cert, maxd, effort, depth):
    bound = (math.isqrt(math.isqrt(N)) + 2) ** 2
    for h, D in DISC[:maxd]:
        uv = cornacchia(D, N)
        if uv is None:
            continue
        u, v = uv
        ts = [u, -u]
        if D == -4:
            ts += [2 * v, -2 * v]
        if D == -3:
            ts += [(u + 3 * v) // 2, (u - 3 * v) // 2, -(u + 3 * v) // 2, -(u - 3 * v) // 2]
        for t in ts:
            m = N + 1 - t
            fs, rest = factor(m, effort)
            q = max(fs) if fs else 1
            if rest or q <= bound or q == m or q > N // 4:
                continue
            c = curve(N, D, m, q)
            if c is None:
                continue
            print(f"  {N.bit_length()} bits: D={D} -> q of {q.bit_length()} bits", flush=True)
            if prove(q, cert, depth + 1):
                cert[str(N)] = ["ell"] + [str(x) for x in c]
                return True
    return None


def curve(N, D, m, q):
    if D == -4:
        cand = [(rnd.randrange(1, N), 0) for _ in range(40)]
    elif D == -3:
        cand = [(0, rnd.randrange(1, N)) for _ in range(60)]
    else:
        H = hilbert(D)
        if H is None:
            return None
        j = root(H, N)
        k = j * pow(1728 - j, -1, N) % N
        cand = []
        for _ in range(6):
            c = rnd.randrange(1, N)
            cand.append((3 * k * c * c % N, 2 * k * c**3 % N))
    for a, b in cand:
        for _ in range(8):
            x = rnd.randrange(N)
            r = (x**3 + a * x + b) % N
            if legendre(r, N) != 1:
                continue
            P = (x, sqrt_mod(r, N))
            if mul(m, P, a, N) is not None:
                break
            Q = mul(m // q, P, a, N)
            if Q is not None:
                return a, b, Q[0], Q[1], q
    return None


DONE = {}


def prove(N, cert, depth=0):
    if str(N) in cert:
        return True
    if not is_prime(N):
        return False
    if N < 3317044064679887385961981:
        return True
    print(" " * depth, N.bit_length(), "bits", flush=True)
    if pock(N, LIGHT, cert):
        return True
    for maxd, eff in ((40, []), (200, []), (40, LIGHT)):
        if N.bit_length() < 130 and pock(N, MEDIUM, cert):
            return True
        if ell(N, cert, maxd, eff, depth):
            return True
    if pock(N, HEAVY, cert):
        return True
    return False


if __name__ == "__main__":
    from vc import published
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vc", "certificates.json")
    cert = json.load(open(path)) if os.path.exists(path) else {}
    ns = set()
    for N in published.orders():
        ns.add(N)
    for N in sorted(ns):
        t = time.time()
        print(N, flush=True)
        ok = False
        for c in published.CURVES.values():
            if c["m"] == "weierstrass" and c["p"] == N and c["r"] > (math.isqrt(math.isqrt(N)) + 2)**2 and prove(c["r"], cert):
                cert[str(N)] = ["ell"] + [str(x) for x in (c["a"] % N, c["b"], c["gx"], c["gy"], c["r"])]
                ok = True
        ok = ok or prove(N, cert)
        print("   ", ok, f"{time.time()-t:.0f}s", len(cert), flush=True)
        if ok:
            json.dump(cert, open(path, "w"), indent=0, sort_keys=True)
