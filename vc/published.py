"""Published constants of the named curves (FIPS 186-4, SEC 2, RFC 7748, RFC 9380) and of the RFC 9380 isogenies,
written down independently of /repo.  Everything a proof relies on about these numbers is recomputed (facts())."""
from math import isqrt

from .numth import certified_prime, legendre, sqrt_mod

P25519 = 2**255 - 19
P448 = 2**448 - 2**224 - 1
R25519 = 2**252 + 27742317777372353535851937790883648493
R448 = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
PK1 = 2**256 - 2**32 - 977
RK1 = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
ZBLS = -0xd201000000010000
RBLS = ZBLS**4 - ZBLS**2 + 1
PBLS = (ZBLS - 1)**2 // 3 * RBLS + ZBLS

CURVES = {
    "P256": dict(m="weierstrass", name="P256", p=2**256 - 2**224 + 2**192 + 2**96 - 1, a=-3,
                 b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
                 r=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551, h=1,
                 gx=0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
                 gy=0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5),
    "P384": dict(m="weierstrass", name="P384", p=2**384 - 2**128 - 2**96 + 2**32 - 1, a=-3,
                 b=0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
                 r=0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973, h=1,
                 gx=0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
                 gy=0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f),
    "P521": dict(m="weierstrass", name="P521", p=2**521 - 1, a=-3,
                 b=0x51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
                 r=0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409, h=1,
                 gx=0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
                 gy=0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650),
    "SECP256K1": dict(m="weierstrass", name="secp256k1", p=PK1, a=0, b=7, r=RK1, h=1,
                      gx=0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
                      gy=0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8),
    # RFC 9380, 8.7: E'; the generator is not standardised (recorded here as published by the library)
    "SECP256K1_3ISO": dict(m="weierstrass", name="secp256k1_3iso", p=PK1,
                           a=0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533, b=1771, r=RK1, h=1,
                           gx=0xa677f67dec3b4e958267664f4bead0c300959b89cdfae2fbb7563af10a26088a,
                           gy=0xb683b56744d1140cbda41b9853bb2fb7cc44b06dc61406db73c387aea4e680d3),
    # cofactor field: the effective cofactor 1 - z of RFC 9380
    "BLS12381G1": dict(m="weierstrass", name="bls12381_g1", p=PBLS, a=0, b=4, r=RBLS, h=1 - ZBLS, full=(ZBLS - 1)**2 // 3,
                       gx=0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
                       gy=0x8b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1),
    "BLS12381G1_11ISO": dict(m="weierstrass", name="bls12381_g1_11iso", p=PBLS,
                             a=0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d,
                             b=0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0,
                             r=RBLS, h=(ZBLS - 1)**2 // 3,
                             gx=0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2,
                             gy=0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4),
    "CURVE25519": dict(m="montgomery", name="curve25519", p=P25519, a=486662, b=1, s=1, r=R25519, h=8, gx=9,
                       gy=43114425171068552920764898935933967039370386198203806730763910166200978582548),
    "CURVE448": dict(m="montgomery", name="curve448", p=P448, a=156326, b=1, s=3, r=R448, h=4, gx=5,
                     gy=355293926785568175264127502063783334808976399387714271831880898435169088786967410002932673765864550910142774147268105838985595290606362),
    "EDWARDS25519": dict(m="edwards", name="edwards25519", p=P25519, a=-1, d=-121665 * pow(121666, -1, P25519) % P25519,
                         r=R25519, h=8,
                         gx=15112221349535400772501151409588531511454012693041857206046113283949847762202,
                         gy=4 * pow(5, -1, P25519) % P25519),
    "EDWARDS448": dict(m="edwards", name="edwards448", p=P448, a=1, d=-39081, r=R448, h=4,
                       gx=0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e,
                       gy=0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14),
}


# ------------------------------------------------------------------ polynomials over GF(p), lists of coefficients
def pmul(f, g, p):
    r = [0] * (len(f) + len(g) - 1) if f and g else []
    for i, x in enumerate(f):
        for j, y in enumerate(g):
            r[i + j] = (r[i + j] + x * y) % p
    return trim(r)


def trim(f):
    while f and f[-1] == 0:
        f = f[:-1]
    return f


def pmod(f, g, p):
    f, gi = list(f), pow(g[-1], -1, p)
    while len(f) >= len(g):
        c = f[-1] * gi % p
        if c:
            for i in range(len(g)):
                f[len(f) - len(g) + i] = (f[len(f) - len(g) + i] - c * g[i]) % p
        f.pop()
    return trim(f)


def pgcd(f, g, p):
    f, g = trim([c % p for c in f]), trim([c % p for c in g])
    while g:
        f, g = g, pmod(f, g, p)
    c = pow(f[-1], -1, p)
    return [x * c % p for x in f]


def has_root(f, p):
    """does the polynomial have a root in GF(p)?  gcd(f, x^p - x)"""
    f = trim([c % p for c in f])
    r, b, e = [1], pmod([0, 1], f, p), p
    while e:
        if e & 1:
            r = pmod(pmul(r, b, p), f, p)
        b = pmod(pmul(b, b, p), f, p)
        e >>= 1
    r = r + [0] * (2 - len(r))
    r[1] = (r[1] - 1) % p
    r = trim(r)
    return len(f) > 1 if not r else len(pgcd(f, r, p)) > 1


# ------------------------------------------------------------------ affine groups
def add(c, P, Q):
    p = c["p"]
    if c["m"] == "edwards":
        (x1, y1), (x2, y2) = P, Q
        k = c["d"] * x1 * x2 * y1 * y2 % p
        return ((x1 * y2 + x2 * y1) * pow(1 + k, -1, p) % p, (y1 * y2 - c["a"] * x1 * x2) * pow(1 - k, -1, p) % p)
    if P is None:
        return Q
    if Q is None:
        return P
    (x1, y1), (x2, y2) = P, Q
    mont = c["m"] == "montgomery"
    a2, a4, b = (c["a"], 1, c["b"]) if mont else (0, c["a"], 1)
    if (x1 - x2) % p == 0:
        if (y1 + y2) % p == 0:
            return None
        l = (3 * x1 * x1 + 2 * a2 * x1 + a4) * pow(2 * b * y1, -1, p)
    else:
        l = (y2 - y1) * pow(x2 - x1, -1, p)
    x3 = (b * l * l - a2 - x1 - x2) % p
    return x3, (l * (x1 - x3) - y1) % p


def neutral(c):
    return (0, 1) if c["m"] == "edwards" else None


def mul(c, k, P):
    r = neutral(c)
    while k:
        if k & 1:
            r = add(c, r, P)
        P = add(c, P, P)
        k >>= 1
    return r


def on_curve(c, P):
    if P is None:
        return True
    x, y = P
    p = c["p"]
    if c["m"] == "edwards":
        return (c["a"] * x * x + y * y - 1 - c["d"] * x * x * y * y) % p == 0
    if c["m"] == "montgomery":
        return (c["b"] * y * y - x**3 - c["a"] * x * x - x) % p == 0
    return (y * y - x**3 - c["a"] * x - c["b"]) % p == 0


def orders():
    """every field and group order whose primality is relied on"""
    return {c["p"] for c in CURVES.values()} | {c["r"] for c in CURVES.values()} | set(TWISTS.values())


def points(c):
    """points of the curve with x = 1, 2, ..."""
    p, x = c["p"], 0
    a2, a4, a6 = (c["a"], 1, 0) if c["m"] == "montgomery" else (0, c["a"], c["b"])
    inv = pow(c["b"], -1, p) if c["m"] == "montgomery" else 1
    while True:
        x += 1
        y = sqrt_mod((x**3 + a2 * x * x + a4 * x + a6) * inv, p)
        if y:
            yield x, y


def multiple_of(c, P, Q, l):
    """is Q a multiple of P, a point of order l?  baby steps, giant steps"""
    m = isqrt(l) + 1
    baby, T = set(), None
    for _ in range(m):
        baby.add(T)
        T = add(c, T, P)
    S = neg(c, T)
    for _ in range(m + 1):
        if Q in baby:
            return True
        Q = add(c, Q, S)
    return False


def neg(c, P):
    return None if P is None else (P[0], -P[1] % c["p"])


# orders of large prime order subgroups of the twists (elementary point counts need them; certified prime)
TWISTS = {P25519: (2 * P25519 + 2 - 8 * R25519) // 4, P448: (2 * P448 + 2 - 4 * R448) // 4}
SMALL_FACTORS = (3, 11, 10177, 859267, 52437899)


def count(c, G):
    """(number of rational points, exponent of the group or None), proved from points of the curve: no theorem is used
    beyond Lagrange and the trivial bound 2 p + 1; (None, None) if the argument does not apply"""
    p, r = c["p"], c["r"]
    if not (certified_prime(r) and G != neutral(c) and mul(c, r, G) == neutral(c)):
        return None, None
    if c["m"] == "weierstrass":
        full = c.get("full", c["h"])
        if has_root([c["b"], c["a"], 0, 1], p):
            return None, None               # odd number of points below
        rest, exponent = full, r
        for l in SMALL_FACTORS:
            e = 0
            while rest % l == 0:
                rest //= l
                e += 1
            if e == 0:
                continue
            if e > 2 or r % l == 0:
                return None, None
            # l^e divides the order: a point of order l^e, or for e = 2 two independent points of order l
            first = None
            for k, R in enumerate(points(c)):
                if k > 40:
                    return None, None
                T = mul(c, full * r // l**e, R)
                if T is None or mul(c, l**e, T) is not None:
                    continue
                if e == 1 or mul(c, l, T) is not None:
                    exponent *= l**e
                    break
                if first is None:
                    first = T
                elif not multiple_of(c, first, T, l):
                    exponent *= l
                    break
        # full * r divides the number of points, which is odd and at most 2 p + 1
        if rest != 1 or 3 * full * r <= 2 * p + 1:
            return None, None
        return full * r, exponent
    if c["m"] == "edwards":
        # the complete Edwards curve has as many points as its Montgomery model (vc/lean/Model.lean)
        if legendre(c["a"], p) != 1 or legendre(c["d"], p) != -1:
            return None, None
        i = pow(c["a"] - c["d"], -1, p)
        M = dict(m="montgomery", p=p, a=2 * (c["a"] + c["d"]) * i % p, b=4 * i % p)
    else:
        M = c
    q = TWISTS[p]
    u = 2
    while legendre(u, p) != -1:
        u += 1
    T = dict(m="montgomery", p=p, a=M["a"], b=M["b"] * u % p)
    if not certified_prime(q):
        return None, None
    for R in points(T):
        R = mul(T, (2 * p + 2 - c["h"] * r) // q, R)
        if R is not None:
            break
    if mul(T, q, R) is not None:
        return None, None
    # every x is the abscissa of two points in all: the curve and its twist have 2 p + 2 points together
    # n = 0 mod r, n = 2 p + 2 mod q, 0 < n < r q
    if r == q or r * q <= 2 * p + 2:
        return None, None
    return r * ((2 * p + 2) * pow(r, -1, q) % q), None



def facts(c):
    """[(statement, holds)] recomputed from the numbers"""
    p, r = c["p"], c["r"]
    full = c.get("full", c["h"])
    G = c["gx"] % p, c["gy"] % p
    out = [("the field order is prime", certified_prime(p)), ("the group order is prime", certified_prime(r)),
           ("the generator is on the curve", on_curve(c, G)),
           ("the generator has order r", G != neutral(c) and mul(c, r, G) == neutral(c))]
    n, exponent = count(c, G)
    out.append(("the curve has h r points", n == full * r))
    out.append(("r does not divide the cofactor", full % r != 0))
    if "full" in c:
        out.append(("the effective cofactor clears the cofactor", n is not None and c["h"] * r % exponent == 0))
    a = c["a"]
    if c["m"] == "weierstrass":
        out.append(("the curve is nonsingular", (4 * a**3 + 27 * c["b"]**2) % p != 0))
        out.append(("there is no point of order two", not has_root([c["b"], a, 0, 1], p)))
    elif c["m"] == "montgomery":
        out.append(("the curve is nonsingular", (a * a - 4) * c["b"] % p != 0))
        out.append(("no point has ordinate s", not has_root([-c["b"] * c["s"]**2, 1, a, 1], p)))
    else:
        out.append(("the curve is nonsingular", a * c["d"] * (a - c["d"]) % p != 0))
        out.append(("a is a square", legendre(a, p) == 1))
        out.append(("d is not a square", legendre(c["d"], p) == -1))
    return out


# ------------------------------------------------------------------ isogenies of RFC 9380, appendix E (constant term first)
ISOGENIES = {
    "get_isogeny_secp256k1": dict(domain="SECP256K1_3ISO", codomain="SECP256K1",
        x_num=[0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7,
               0x07d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581,
               0x534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262,
               0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c],
        x_den=[0xd35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b,
               0xedadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14,
               1],
        y_num=[0x4bda12f684bda12f684bda12f684bda12f684bda12f684bda12f684b8e38e23c,
               0xc75e0c32d5cb7c0fa9d0a54b12a0a6d5647ab046d686da6fdffc90fc201d71a3,
               0x29a6194691f91a73715209ef6512e576722830a201be2018a765e85a9ecee931,
               0x2f684bda12f684bda12f684bda12f684bda12f684bda12f684bda12f38e38d84],
        y_den=[0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffff93b,
               0x7a06534bb8bdb49fd5e9e6632722c2989467c1bfc8e8d978dfb425d2685c2573,
               0x6484aa716545ca2cf3a70c3fa8fe337e0a3d21162f0d6299a7bf8192bfd2a76f,
               1],
    ),
    "get_isogeny_bls12381g1": dict(domain="BLS12381G1_11ISO", codomain="BLS12381G1",
        x_num=[0x11a05f2b1e833340b809101dd99815856b303e88a2d7005ff2627b56cdb4e2c85610c2d5f2e62d6eaeac1662734649b7,
               0x17294ed3e943ab2f0588bab22147a81c7c17e75b2f6a8417f565e33c70d1e86b4838f2a6f318c356e834eef1b3cb83bb,
               0xd54005db97678ec1d1048c5d10a9a1bce032473295983e56878e501ec68e25c958c3e3d2a09729fe0179f9dac9edcb0,
               0x1778e7166fcc6db74e0609d307e55412d7f5e4656a8dbf25f1b33289f1b330835336e25ce3107193c5b388641d9b6861,
               0xe99726a3199f4436642b4b3e4118e5499db995a1257fb3f086eeb65982fac18985a286f301e77c451154ce9ac8895d9,
               0x1630c3250d7313ff01d1201bf7a74ab5db3cb17dd952799b9ed3ab9097e68f90a0870d2dcae73d19cd13c1c66f652983,
               0xd6ed6553fe44d296a3726c38ae652bfb11586264f0f8ce19008e218f9c86b2a8da25128c1052ecaddd7f225a139ed84,
               0x17b81e7701abdbe2e8743884d1117e53356de5ab275b4db1a682c62ef0f2753339b7c8f8c8f475af9ccb5618e3f0c88e,
               0x80d3cf1f9a78fc47b90b33563be990dc43b756ce79f5574a2c596c928c5d1de4fa295f296b74e956d71986a8497e317,
               0x169b1f8e1bcfa7c42e0c37515d138f22dd2ecb803a0c5c99676314baf4bb1b7fa3190b2edc0327797f241067be390c9e,
               0x10321da079ce07e272d8ec09d2565b0dfa7dccdde6787f96d50af36003b14866f69b771f8c285decca67df3f1605fb7b,
               0x6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229],
        x_den=[0x8ca8d548cff19ae18b2e62f4bd3fa6f01d5ef4ba35b48ba9c9588617fc8ac62b558d681be343df8993cf9fa40d21b1c,
               0x12561a5deb559c4348b4711298e536367041e8ca0cf0800c0126c2588c48bf5713daa8846cb026e9e5c8276ec82b3bff,
               0xb2962fe57a3225e8137e629bff2991f6f89416f5a718cd1fca64e00b11aceacd6a3d0967c94fedcfcc239ba5cb83e19,
               0x3425581a58ae2fec83aafef7c40eb545b08243f16b1655154cca8abc28d6fd04976d5243eecf5c4130de8938dc62cd8,
               0x13a8e162022914a80a6f1d5f43e7a07dffdfc759a12062bb8d6b44e833b306da9bd29ba81f35781d539d395b3532a21e,
               0xe7355f8e4e667b955390f7f0506c6e9395735e9ce9cad4d0a43bcef24b8982f7400d24bc4228f11c02df9a29f6304a5,
               0x772caacf16936190f3e0c63e0596721570f5799af53a1894e2e073062aede9cea73b3538f0de06cec2574496ee84a3a,
               0x14a7ac2a9d64a8b230b3f5b074cf01996e7f63c21bca68a81996e1cdf9822c580fa5b9489d11e2d311f7d99bbdcc5a5e,
               0xa10ecf6ada54f825e920b3dafc7a3cce07f8d1d7161366b74100da67f39883503826692abba43704776ec3a79a1d641,
               0x95fc13ab9e92ad4476d6e3eb3a56680f682b4ee96f7d03776df533978f31c1593174e4b4b7865002d6384d168ecdd0a,
               1],
        y_num=[0x90d97c81ba24ee0259d1f094980dcfa11ad138e48a869522b52af6c956543d3cd0c7aee9b3ba3c2be9845719707bb33,
               0x134996a104ee5811d51036d776fb46831223e96c254f383d0f906343eb67ad34d6c56711962fa8bfe097e75a2e41c696,
               0xcc786baa966e66f4a384c86a3b49942552e2d658a31ce2c344be4b91400da7d26d521628b00523b8dfe240c72de1f6,
               0x1f86376e8981c217898751ad8746757d42aa7b90eeb791c09e4a3ec03251cf9de405aba9ec61deca6355c77b0e5f4cb,
               0x8cc03fdefe0ff135caf4fe2a21529c4195536fbe3ce50b879833fd221351adc2ee7f8dc099040a841b6daecf2e8fedb,
               0x16603fca40634b6a2211e11db8f0a6a074a7d0d4afadb7bd76505c3d3ad5544e203f6326c95a807299b23ab13633a5f0,
               0x4ab0b9bcfac1bbcb2c977d027796b3ce75bb8ca2be184cb5231413c4d634f3747a87ac2460f415ec961f8855fe9d6f2,
               0x987c8d5333ab86fde9926bd2ca6c674170a05bfe3bdd81ffd038da6c26c842642f64550fedfe935a15e4ca31870fb29,
               0x9fc4018bd96684be88c9e221e4da1bb8f3abd16679dc26c1e8b6e6a1f20cabe69d65201c78607a360370e577bdba587,
               0xe1bba7a1186bdb5223abde7ada14a23c42a0ca7915af6fe06985e7ed1e4d43b9b3f7055dd4eba6f2bafaaebca731c30,
               0x19713e47937cd1be0dfd0b8f1d43fb93cd2fcbcb6caf493fd1183e416389e61031bf3a5cce3fbafce813711ad011c132,
               0x18b46a908f36f6deb918c143fed2edcc523559b8aaf0c2462e6bfe7f911f643249d9cdf41b44d606ce07c8a4d0074d8e,
               0xb182cac101b9399d155096004f53f447aa7b12a3426b08ec02710e807b4633f06c851c1919211f20d4c04f00b971ef8,
               0x245a394ad1eca9b72fc00ae7be315dc757b3b080d4c158013e6632d3c40659cc6cf90ad1c232a6442d9d3f5db980133,
               0x5c129645e44cf1102a159f748c4a3fc5e673d81d7e86568d9ab0f5d396a7ce46ba1049b6579afb7866b1e715475224b,
               0x15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604],
        y_den=[0x16112c4c3a9c98b252181140fad0eae9601a6de578980be6eec3232b5be72e7a07f3688ef60c206d01479253b03663c1,
               0x1962d75c2381201e1a0cbd6c43c348b885c84ff731c4d59ca4a10356f453e01f78a4260763529e3532f6102c2e49a03d,
               0x58df3306640da276faaae7d6e8eb15778c4855551ae7f310c35a5dd279cd2eca6757cd636f96f891e2538b53dbf67f2,
               0x16b7d288798e5395f20d23bf89edb4d1d115c5dbddbcd30e123da489e726af41727364f2c28297ada8d26d98445f5416,
               0xbe0e079545f43e4b00cc912f8228ddcc6d19c9f0f69bbb0542eda0fc9dec916a20b15dc0fd2ededda39142311a5001d,
               0x8d9e5297186db2d9fb266eaac783182b70152c65550d881c5ecd87b6f0f5a6449f38db9dfa9cce202c6477faaf9b7ac,
               0x166007c08a99db2fc3ba8734ace9824b5eecfdfa8d0cf8ef5dd365bc400a0051d5fa9c01a58b1fb93d1a1399126a775c,
               0x16a3ef08be3ea7ea03bcddfabba6ff6ee5a4375efa1f4fd7feb34fd206357132b920f5b00801dee460ee415a15812ed9,
               0x1866c8ed336c61231a1be54fd1d74cc4f9fb0ce4c6af5920abc5750c4bf39b4852cfe2f7bb9248836b233d9d55535d4a,
               0x167a55cda70a6e1cea820597d94a84903216f763e13d87bb5308592e7ea7d4fbc7385ea3d529b35e346ef48bb8913f55,
               0x4d2f259eea405bd48f010a01ad2911d9c6dd039bb61a6290e591b36e636a5c871a5c29f4f83060400f8b49cba8f6aa8,
               0xaccbb67481d033ff5852c1e48c50c477f94ff8aefce42d28c0f9a88cea7913516f968986f7ebbea9684b529e2561092,
               0xad6b9514c767fe3c3613144b45f1496543346d98adf02267d5ceef9a00d9b8693000763e3b90ac11e99b138573345cc,
               0x2660400eb2e4f3b628bdd0d53cd76f2bf565b94e72927c1cb748df27942480e420517bd8714cc80d1fadc1326ed06f7,
               0xe0fa1d816ddc03e6b24255e0d7819c171c40f65e273b853324efcd6356caa205ca2f570f13497804415473a1d634b8f,
               1],
    ),
}


def psub(f, g, p):
    n = max(len(f), len(g))
    f, g = f + [0] * (n - len(f)), g + [0] * (n - len(g))
    return trim([(a - b) % p for a, b in zip(f, g)])


def kernel(iso):
    """the monic polynomial k whose roots are the abscissas of the kernel points: gcd of x_den and y_den is k^2"""
    p = CURVES[iso["domain"]]["p"]
    # y_den = k^3, x_den = k^2
    f, g = iso["y_den"], iso["x_den"]
    q, r = list(f), []
    gi = pow(g[-1], -1, p)
    while len(q) >= len(g):
        c = q[-1] * gi % p
        r.append(c)
        for i in range(len(g)):
            q[len(q) - len(g) + i] = (q[len(q) - len(g) + i] - c * g[i]) % p
        q.pop()
    return list(reversed(r))


def isogeny_facts(iso):
    """[(statement, holds)]: the rational functions define a map of the curves, with the kernel as the only poles"""
    E, W = CURVES[iso["domain"]], CURVES[iso["codomain"]]
    p, k = E["p"], kernel(iso)
    xn, xd, yn, yd = (iso[n] for n in ("x_num", "x_den", "y_num", "y_den"))
    k2 = pmul(k, k, p)
    k3 = pmul(k2, k, p)
    # y^2 = f(x): f yn^2 / yd^2 = (xn / xd)^3 + b', over the common denominator k^6
    f = [E["b"], E["a"], 0, 1]
    xn3 = pmul(xn, pmul(xn, xn, p), p)
    rhs = [(a * 1) % p for a in xn3]
    k6 = pmul(k3, k3, p)
    rhs = psub(rhs, [(-W["b"] * c) % p for c in k6], p)
    lhs = pmul(f, pmul(yn, yn, p), p)
    out = [("same field", W["p"] == p), ("the codomain has a = 0", W["a"] % p == 0),
           ("x_den = k^2", psub(xd, k2, p) == []), ("y_den = k^3", psub(yd, k3, p) == []),
           ("numerators do not vanish on the kernel", pgcd(xn, k, p) == [1]),
           ("degree", len(xn) - 1 == 2 * (len(k) - 1) + 1),
           ("the image satisfies the equation of the codomain", psub(lhs, rhs, p) == [])]
    return out


class Weight:
    """degree bounds: a polynomial in x1, y1 (or x2, y2) with y^2 a cubic in x, weights 2 and 3"""
    def __init__(self, w):
        self.w = w

    def __mul__(self, o):
        return Weight(self.w + o.w)

    def __add__(self, o):
        return Weight(max(self.w, o.w))
    __sub__ = __add__


class Mod:
    def __init__(self, v, p):
        self.v, self.p = v % p, p

    def __mul__(self, o):
        return Mod(self.v * o.v, self.p)

    def __add__(self, o):
        return Mod(self.v + o.v, self.p)

    def __sub__(self, o):
        return Mod(self.v - o.v, self.p)


def horner2(cs, n, N, D, lift, one):
    """sum cs[i] N^i D^(n - i)"""
    r, d = lift(0), one
    for i in range(n, -1, -1):
        r = r * N + lift(cs[i] if i < len(cs) else 0) * d
        d = d * D
    return r


def sum_identities(iso, x1, y1, x2, y2, lift):
    """two pairs of polynomials in the coordinates of two points with x1 != x2: where the two pairs agree, the image of
    the sum (chord rule) is the sum of the images (chord rule) - both sides over their common denominators"""
    xn, xd, yn, yd = (iso[n] for n in ("x_num", "x_den", "y_num", "y_den"))
    one = lift(1)

    def ev(cs, x):
        r = lift(0)
        for c in reversed(cs):
            r = r * x + lift(c)
        return r
    D, E = x1 - x2, y1 - y2
    D2 = D * D
    N3 = E * E - (x1 + x2) * D2                      # x3 = N3 / D^2
    M3 = E * (x1 * D2 - N3) - y1 * D2 * D            # y3 = M3 / D^3
    xn1, xd1, yn1, yd1 = (ev(t, x1) for t in (xn, xd, yn, yd))
    xn2, xd2, yn2, yd2 = (ev(t, x2) for t in (xn, xd, yn, yd))
    A = y1 * yn1 * yd2 - y2 * yn2 * yd1              # Y1 - Y2 = A / (yd1 yd2)
    B = xn1 * xd2 - xn2 * xd1                        # X1 - X2 = B / (xd1 xd2)
    B2 = B * B
    num = A * A - (xn1 * xd2 + xn2 * xd1) * B2       # X3 = num / (xd1 xd2 B^2), using yd^2 = xd^3
    U = A * (xn1 * xd2 * B2 - num) - y1 * yn1 * yd2 * B2 * B     # Y3 = U / (yd1 yd2 B^3)
    n, m = len(xn) - 1, max(len(yn), len(yd)) - 1
    X, XD = horner2(xn, n, N3, D2, lift, one), horner2(xd, n, N3, D2, lift, one)
    Y, YD = horner2(yn, m, N3, D2, lift, one), horner2(yd, m, N3, D2, lift, one)
    return ((X * B2 * xd1 * xd2, XD * num),
            (M3 * Y * B2 * B * yd1 * yd2, D2 * D * YD * U))


def additive_facts(iso):
    """[(statement, holds)]: what vc/lean/Isogeny.lean needs to conclude that the map is a homomorphism.

    The differences of the two pairs are a + b y1 + c y2 + d y1 y2 with polynomials a, b, c, d in x1, x2; they vanish if they vanish
    at (x1, +-y1), (x2, +-y2), y1 y2 != 0, for more values of x1 and of x2 than the degrees."""
    E, W = CURVES[iso["domain"]], CURVES[iso["codomain"]]
    p, k = E["p"], kernel(iso)
    deg = len(iso["x_num"]) - 1
    # each value of X has at most deg preimages x, each x at most two points; the identity has 2 deg k + 1
    fibre = max(2 * deg, 2 * (len(k) - 1) + 1)
    n, _ = count(E, (E["gx"] % p, E["gy"] % p))
    out = [("fibres have at most 2 deg elements", len(iso["x_den"]) < len(iso["x_num"]) and iso["x_num"][-1] % p != 0),
           ("the group of the domain has more than 16 times as many points", n is not None and n > 16 * fibre),
           ("the codomain has no point of order two", not has_root([W["b"], W["a"], 0, 1], p))]
    w2, w3, w0 = Weight(2), Weight(3), Weight(0)
    bound = max(max(a.w, b.w)
                for x1, y1, x2, y2 in ((w2, w3, w0, w0), (w0, w0, w2, w3))
                for a, b in sum_identities(iso, x1, y1, x2, y2, lambda c: w0)) // 2
    pts, it = [], points(E)
    while len(pts) < 2 * (bound + 1):
        pts.append(next(it))
    one, two = pts[0::2], pts[1::2]
    lift = lambda c: Mod(c, p)
    ok = True
    for x1, y1 in one:
        for x2, y2 in two:
            # the first pair is even and the second odd in (y1, y2): two of the four signs are enough
            for s in (1, -1):
                for a, b in sum_identities(iso, lift(x1), lift(y1), lift(x2), lift(s * y2), lift):
                    ok = ok and a.v == b.v
            if not ok:
                break
    out.append(("the image of a sum is the sum of the images", ok))
    return out
