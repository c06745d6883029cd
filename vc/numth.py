"""Concrete number theory used by contracts on named instances (independent of /repo)."""


def is_prime(n, rounds=40):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in range(2, 2 + rounds):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def legendre(a, p):
    a %= p
    if a == 0:
        return 0
    return 1 if pow(a, (p - 1) // 2, p) == 1 else -1


def sqrt_mod(a, p):
    """a square root of a modulo the odd prime p, or None (Tonelli-Shanks)"""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r


# ------------------------------------------------------------------ primality certificates
_CERT = None
_KNOWN = {}


def certified_prime(n):
    """n is prime, by a checked certificate (vc/certificates.json); nothing is searched here.

    small: below 3317044064679887385961981 the strong pseudoprime test to the first 13 prime bases is a proof
           (Sorenson, Webster 2015).
    pock:  N - 1 is divisible by F > sqrt N whose prime factors q are certified, and for each q there is an a with
           a^(N-1) = 1 and gcd(a^((N-1)/q) - 1, N) = 1 (Pocklington).
    ell:   a point of order q modulo every prime divisor of N, q > (N^(1/4) + 1)^2 certified (Goldwasser, Kilian)."""
    global _CERT
    if n not in _KNOWN:
        if _CERT is None:
            import json
            import os
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "certificates.json")) as h:
                _CERT = json.load(h)
        _KNOWN[n] = False
        _KNOWN[n] = _certified(n)
    return _KNOWN[n]


def _certified(n):
    from math import gcd, isqrt
    if n < 3317044064679887385961981:
        return is_prime_small(n)
    c = _CERT.get(str(n))
    if c is None or n % 2 == 0 or n % 3 == 0:
        return False
    if c[0] == "pock":
        F = 1
        for q, a in c[1]:
            q = int(q)
            if (n - 1) % q or not certified_prime(q):
                return False
            if pow(a, n - 1, n) != 1 or gcd(pow(a, (n - 1) // q, n) - 1, n) != 1:
                return False
            m = n - 1
            while m % q == 0:
                m //= q
                F *= q
        return len({q for q, _ in c[1]}) == len(c[1]) and F * F > n
    if c[0] == "ell":
        a, b, x, y, q = map(int, c[1:])
        if gcd(4 * a**3 + 27 * b * b, n) != 1 or (y * y - x**3 - a * x - b) % n:
            return False
        w = isqrt(isqrt(n)) + 2
        if q <= w * w or not certified_prime(q):
            return False
        try:
            return _times_is_zero(q, (x % n, y % n), a, n)
        except ValueError:
            return False
    return False


def is_prime_small(n):
    if n < 2:
        return False
    bases = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
    for q in bases:
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _times_is_zero(k, P, a, n):
    """k P = O on y^2 = x^3 + a x + b modulo every prime divisor of n; ValueError when an inverse does not exist
    modulo n (the computation then is not that of every prime divisor at once)"""
    def add(A, B):
        if A is None:
            return B
        if B is None:
            return A
        if A == B:
            if A[1] == 0:
                return None
            l = (3 * A[0] * A[0] + a) * pow(2 * A[1], -1, n) % n
        elif A[0] == B[0] and (A[1] + B[1]) % n == 0:
            return None
        else:
            l = (B[1] - A[1]) * pow(B[0] - A[0], -1, n) % n
        x = (l * l - A[0] - B[0]) % n
        return x, (l * (A[0] - x) - A[1]) % n
    R = None
    for bit in bin(k)[2:]:
        R = add(R, R)
        if bit == "1":
            R = add(R, P)
    return R is None
