//! Runs programs (one line each, tokens in reverse Polish notation) against the real redox-ecc crate and prints
//! the values left on the stack. It computes nothing itself: the oracle is in driver.py.
use num_bigint::{BigInt, BigUint};
use num_traits::identities::{One, Zero};
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::instances::*;
use redox_ecc::ops::*;
use redox_ecc::primefield::*;
use redox_ecc::quadraticfield::*;
use redox_ecc::{edwards, montgomery, weierstrass};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone)]
enum Val {
    F(FpElt),
    F2(Fp2Elt),
    SW(weierstrass::Scalar),
    SM(montgomery::Scalar),
    SE(edwards::Scalar),
    PW(weierstrass::Point),
    PM(montgomery::Point),
    PE(edwards::Point),
    T(String),
}
use Val::*;

type MW = Rc<dyn MapToCurve<E = weierstrass::Curve>>;
type MM = Rc<dyn MapToCurve<E = montgomery::Curve>>;
type ME = Rc<dyn MapToCurve<E = edwards::Curve>>;
type RM = Rc<dyn RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>>;
type IW = Rc<dyn Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>>;

#[derive(Clone)]
enum Obj {
    Fp(Fp),
    Fp2(Fp2),
    W(weierstrass::Curve),
    M(montgomery::Curve),
    E(edwards::Curve),
    MapW(MW),
    MapM(MM),
    MapE(ME),
    Rat(RM),
    Iso(IW),
}

/// an arbitrary change of curve: the generator or its opposite, by the last byte of the encoding
struct Fake<A, B>(A, B);
fn pick<P, E: EllipticCurve>(p: &P, e: &E) -> E::Point
where
    P: Encode,
    E::Point: std::ops::Neg<Output = E::Point>,
{
    let b = p.encode(false);
    let g = e.get_generator();
    if b.len() == 1 {
        e.identity()
    } else if b[b.len() - 1] % 2 == 0 {
        g
    } else {
        -g
    }
}
impl Isogeny for Fake<weierstrass::Curve, weierstrass::Curve> {
    type E0 = weierstrass::Curve;
    type E1 = weierstrass::Curve;
    fn domain(&self) -> weierstrass::Curve {
        self.0.clone()
    }
    fn codomain(&self) -> weierstrass::Curve {
        self.1.clone()
    }
    fn push(&self, p: weierstrass::Point) -> weierstrass::Point {
        pick(&p, &self.1)
    }
}
impl RationalMap for Fake<edwards::Curve, montgomery::Curve> {
    type E0 = edwards::Curve;
    type E1 = montgomery::Curve;
    fn domain(&self) -> edwards::Curve {
        self.0.clone()
    }
    fn codomain(&self) -> montgomery::Curve {
        self.1.clone()
    }
    fn push(&self, p: edwards::Point) -> montgomery::Point {
        pick(&p, &self.1)
    }
    fn pull(&self, p: montgomery::Point) -> edwards::Point {
        pick(&p, &self.0)
    }
}

struct St {
    reg: HashMap<String, Obj>,
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
fn int(s: &str) -> BigInt {
    s.parse().expect("protocol: integer")
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for c in b {
        s.push_str(&format!("{:02x}", c));
    }
    s
}
/// the value an element displays, unless its encoding shows that it holds another integer
fn canon(tag: &str, shown: String, bytes: impl FnOnce() -> Vec<u8>) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(bytes)) {
        Ok(v) => match BigUint::from_bytes_be(&v).to_string() == shown {
            true => format!("{} {}", tag, shown),
            false => format!("{} {} encoded {}", tag, shown, hex(&v)),
        },
        Err(_) => format!("{} {} without encoding", tag, shown),
    }
}
fn show(v: &Val) -> String {
    let t = match v {
        F(x) => canon("F", format!("{}", x), || x.to_bytes_be()),
        F2(x) => format!("Q {}", x),
        SW(x) => canon("S", format!("{}", x), || x.to_bytes_be()),
        SM(x) => canon("S", format!("{}", x), || x.to_bytes_be()),
        SE(x) => canon("S", format!("{}", x), || x.to_bytes_be()),
        PW(x) => format!("P {}", x),
        PM(x) => format!("P {}", x),
        PE(x) => format!("P {}", x),
        T(s) => format!("T {}", s),
    };
    t.replace('\n', " ")
}
fn b(v: bool) -> Val {
    T(if v { "1" } else { "0" }.to_string())
}

macro_rules! forms {
    ($form:expr, $x:expr, $y:expr, $op:tt) => {
        match $form {
            "oo" => $x.clone() $op $y.clone(),
            "or" => $x.clone() $op &$y,
            "ro" => &$x $op $y.clone(),
            _ => &$x $op &$y,
        }
    };
}
macro_rules! bin {
    ($x:expr, $y:expr, $form:expr, $op:tt, [$($v:ident)*]) => {
        match ($x, $y) {
            $(($v(x), $v(y)) => $v(forms!($form, x, y, $op)),)*
            _ => return Err("types".into()),
        }
    };
}
macro_rules! un {
    ($x:expr, [$($v:ident)*], |$y:ident| $e:expr) => {
        match $x {
            $($v($y) => $v($e),)*
            _ => return Err("types".into()),
        }
    };
}
macro_rules! get {
    ($x:expr, [$($v:ident)*], |$y:ident| $e:expr) => {
        match $x {
            $($v($y) => $e,)*
            _ => return Err("types".into()),
        }
    };
}

type R<T> = Result<T, String>;

fn bits(it: impl Iterator<Item = bool>, limit: usize) -> String {
    let mut it = it;
    let mut s = String::from("b");
    let mut after = 0;
    for _ in 0..limit {
        match it.next() {
            Some(x) => {
                if after > 0 {
                    s.push('!');
                }
                s.push(if x { '1' } else { '0' })
            }
            None => {
                after += 1;
                if after > 40 {
                    break;
                }
            }
        }
    }
    if after == 0 {
        s.push('~');
    }
    s
}

fn exec(st: &mut St, toks: &[&str], at: &std::cell::Cell<usize>) -> R<Vec<Val>> {
    let mut k: Vec<Val> = vec![];
    for (i, tok) in toks.iter().enumerate() {
        at.set(i);
        let (op, rest) = match tok.find(':') {
            Some(j) => (&tok[..j], &tok[j + 1..]),
            None => (*tok, ""),
        };
        let a: Vec<&str> = rest.split(':').collect();
        let (name, form) = match op.find('.') {
            Some(j) => (&op[..j], &op[j + 1..]),
            None => (op, ""),
        };
        macro_rules! pop {
            () => {
                k.pop().ok_or("stack")?
            };
        }
        macro_rules! obj {
            ($n:expr) => {
                st.reg.get($n).cloned().ok_or("name")?
            };
        }
        match name {
            // definitions
            "deffp" => {
                st.reg.insert(a[0].into(), Obj::Fp(Fp::new(int(a[1]).to_biguint().unwrap())));
            }
            "deffp2" => {
                st.reg.insert(a[0].into(), Obj::Fp2(Fp2::new(int(a[1]).to_biguint().unwrap())));
            }
            "defw" => {
                let p = weierstrass::Params {
                    name: "t", p: leak(a[1]), a: leak(a[2]), b: leak(a[3]), r: leak(a[4]), h: leak(a[5]),
                    gx: leak(a[6]), gy: leak(a[7]),
                };
                st.reg.insert(a[0].into(), Obj::W(weierstrass::Curve::from(&p)));
            }
            "defm" => {
                let p = montgomery::Params {
                    name: "t", p: leak(a[1]), a: leak(a[2]), b: leak(a[3]), s: leak(a[4]), r: leak(a[5]),
                    h: leak(a[6]), gx: leak(a[7]), gy: leak(a[8]),
                };
                st.reg.insert(a[0].into(), Obj::M(montgomery::Curve::from(&p)));
            }
            "defe" => {
                let p = edwards::Params {
                    name: "t", p: leak(a[1]), a: leak(a[2]), d: leak(a[3]), r: leak(a[4]), h: leak(a[5]),
                    gx: leak(a[6]), gy: leak(a[7]),
                };
                st.reg.insert(a[0].into(), Obj::E(edwards::Curve::from(&p)));
            }
            "inst" => {
                let o = match a[1] {
                    "P256" => Obj::W(P256.get()),
                    "P384" => Obj::W(P384.get()),
                    "P521" => Obj::W(P521.get()),
                    "SECP256K1" => Obj::W(SECP256K1.get()),
                    "SECP256K1_3ISO" => Obj::W(SECP256K1_3ISO.get()),
                    "BLS12381G1" => Obj::W(BLS12381G1.get()),
                    "BLS12381G1_11ISO" => Obj::W(BLS12381G1_11ISO.get()),
                    "CURVE25519" => Obj::M(CURVE25519.get()),
                    "CURVE448" => Obj::M(CURVE448.get()),
                    "EDWARDS25519" => Obj::E(EDWARDS25519.get()),
                    "EDWARDS448" => Obj::E(EDWARDS448.get()),
                    "ed25519map" => Obj::Rat(Rc::new(edwards25519_to_curve25519())),
                    "ed448map" => Obj::Rat(Rc::new(edwards448_to_curve448())),
                    "isosecp" => Obj::Iso(Rc::new(get_isogeny_secp256k1())),
                    "isobls" => Obj::Iso(Rc::new(get_isogeny_bls12381g1())),
                    _ => return Err("instance".into()),
                };
                st.reg.insert(a[0].into(), o);
            }
            "mk" => {
                // mk:<name>:<kind>:<curve>:<z>[:iso]
                let zi = int(a[3]);
                let o = match (a[1], obj!(a[2])) {
                    ("sswu", Obj::W(e)) => {
                        let z = e.get_field().elt(zi);
                        Obj::MapW(Rc::new(weierstrass::SSWU::new(e, z)))
                    }
                    ("svdw", Obj::W(e)) => {
                        let z = e.get_field().elt(zi);
                        Obj::MapW(Rc::new(weierstrass::SVDW::new(e, z)))
                    }
                    ("sswuab0", Obj::W(e)) => {
                        let z = e.get_field().elt(zi);
                        let iso: Box<dyn Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>> = match a[4] {
                            "isosecp" => Box::new(get_isogeny_secp256k1()),
                            "isobls" => Box::new(get_isogeny_bls12381g1()),
                            "fake" => match (obj!(a[5]), obj!(a[6])) {
                                (Obj::W(d), Obj::W(c)) => Box::new(Fake(d, c)),
                                _ => return Err("iso".into()),
                            },
                            _ => return Err("iso".into()),
                        };
                        Obj::MapW(Rc::new(weierstrass::SSWUAB0::new(e, z, iso)))
                    }
                    ("ell2m", Obj::M(e)) => {
                        let z = e.get_field().elt(zi);
                        Obj::MapM(Rc::new(montgomery::Ell2::new(e, z)))
                    }
                    ("ell2e", Obj::E(e)) => {
                        let z = e.get_field().elt(zi);
                        let rm: Box<dyn RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>> = match a[4] {
                            "ed25519map" => Box::new(edwards25519_to_curve25519()),
                            "ed448map" => Box::new(edwards448_to_curve448()),
                            "fake" => match (obj!(a[5]), obj!(a[6])) {
                                (Obj::E(d), Obj::M(c)) => Box::new(Fake(d, c)),
                                _ => return Err("rat".into()),
                            },
                            _ => return Err("rat".into()),
                        };
                        Obj::MapE(Rc::new(edwards::Ell2::new(e, z, Some(rm))))
                    }
                    _ => return Err("mk".into()),
                };
                st.reg.insert(a[0].into(), o);
            }
            // field elements
            "fp" => match obj!(a[0]) {
                Obj::Fp(f) => k.push(F(f.elt(int(a[1])))),
                Obj::Fp2(f) => {
                    if a.len() > 2 {
                        k.push(F2(f.from(leak(&format!("{},{}", a[1], a[2])) as &str)))
                    } else {
                        k.push(F2(f.elt(int(a[1]))))
                    }
                }
                Obj::W(e) => k.push(F(e.get_field().elt(int(a[1])))),
                Obj::M(e) => k.push(F(e.get_field().elt(int(a[1])))),
                Obj::E(e) => k.push(F(e.get_field().elt(int(a[1])))),
                _ => return Err("field".into()),
            },
            "fs" => match obj!(a[0]) {
                Obj::Fp(f) => k.push(F(f.from(a[1]))),
                Obj::Fp2(f) => k.push(F2(f.from(a[1]))),
                _ => return Err("field".into()),
            },
            "fi" => {
                macro_rules! conv {
                    ($f:expr, $w:ident) => {
                        match a[1] {
                            "u8" => $w($f.from(a[2].parse::<u8>().unwrap())),
                            "u16" => $w($f.from(a[2].parse::<u16>().unwrap())),
                            "u32" => $w($f.from(a[2].parse::<u32>().unwrap())),
                            "u64" => $w($f.from(a[2].parse::<u64>().unwrap())),
                            "i8" => $w($f.from(a[2].parse::<i8>().unwrap())),
                            "i16" => $w($f.from(a[2].parse::<i16>().unwrap())),
                            "i32" => $w($f.from(a[2].parse::<i32>().unwrap())),
                            _ => $w($f.from(a[2].parse::<i64>().unwrap())),
                        }
                    };
                }
                match obj!(a[0]) {
                    Obj::Fp(f) => k.push(conv!(f, F)),
                    Obj::Fp2(f) => k.push(conv!(f, F2)),
                    _ => return Err("field".into()),
                }
            }
            "fb" => {
                let v = unhex(a[2]);
                match obj!(a[0]) {
                    Obj::Fp(f) => {
                        let r = if a[1] == "be" { f.from_bytes_be(&v) } else { f.from_bytes_le(&v) };
                        k.push(r.map(F).unwrap_or(T("err".into())))
                    }
                    Obj::Fp2(f) => {
                        let r = if a[1] == "be" { f.from_bytes_be(&v) } else { f.from_bytes_le(&v) };
                        k.push(r.map(F2).unwrap_or(T("err".into())))
                    }
                    _ => return Err("field".into()),
                }
            }
            "zero" => match obj!(a[0]) {
                Obj::Fp(f) => k.push(F(f.zero())),
                Obj::Fp2(f) => k.push(F2(f.zero())),
                _ => return Err("field".into()),
            },
            "one" => match obj!(a[0]) {
                Obj::Fp(f) => k.push(F(f.one())),
                Obj::Fp2(f) => k.push(F2(f.one())),
                _ => return Err("field".into()),
            },
            "modulus" => match obj!(a[0]) {
                Obj::Fp(f) => k.push(T(f.get_modulus().to_string())),
                Obj::Fp2(f) => k.push(T(f.get_modulus().to_string())),
                Obj::W(e) => k.push(T(e.get_field().get_modulus().to_string())),
                Obj::M(e) => k.push(T(e.get_field().get_modulus().to_string())),
                Obj::E(e) => k.push(T(e.get_field().get_modulus().to_string())),
                _ => return Err("field".into()),
            },
            "size" => match obj!(a[0]) {
                Obj::Fp(f) => k.push(T(f.size_bytes().to_string())),
                Obj::Fp2(f) => k.push(T(f.size_bytes().to_string())),
                _ => return Err("field".into()),
            },
            "order" => match obj!(a[0]) {
                Obj::W(e) => k.push(T(e.get_order().to_string())),
                Obj::M(e) => k.push(T(e.get_order().to_string())),
                Obj::E(e) => k.push(T(e.get_order().to_string())),
                _ => return Err("curve".into()),
            },
            "cof" => match obj!(a[0]) {
                Obj::W(e) => k.push(T(e.get_cofactor().to_string())),
                Obj::M(e) => k.push(T(e.get_cofactor().to_string())),
                Obj::E(e) => k.push(T(e.get_cofactor().to_string())),
                _ => return Err("curve".into()),
            },
            "curve" => match obj!(a[0]) {
                Obj::W(e) => k.push(T(format!("{}", e).replace('\n', " "))),
                Obj::M(e) => k.push(T(format!("{}", e).replace('\n', " "))),
                Obj::E(e) => k.push(T(format!("{}", e).replace('\n', " "))),
                _ => return Err("curve".into()),
            },
            // printed forms
            "str" => {
                let t = match pop!() {
                    F(x) => x.to_string(),
                    F2(x) => x.to_string(),
                    SW(x) => x.to_string(),
                    SM(x) => x.to_string(),
                    SE(x) => x.to_string(),
                    PW(x) => x.to_string(),
                    PM(x) => x.to_string(),
                    PE(x) => x.to_string(),
                    T(s) => s,
                };
                k.push(T(hex(t.as_bytes())))
            }
            "ostr" => {
                let t = match obj!(a[0]) {
                    Obj::Fp(f) => f.to_string(),
                    Obj::Fp2(f) => f.to_string(),
                    Obj::W(e) => e.to_string(),
                    Obj::M(e) => e.to_string(),
                    Obj::E(e) => e.to_string(),
                    _ => return Err("ostr".into()),
                };
                k.push(T(hex(t.as_bytes())))
            }
            "idstr" => {
                let t = match a[0] {
                    "P256" => P256.to_string(),
                    "P384" => P384.to_string(),
                    "P521" => P521.to_string(),
                    "SECP256K1" => SECP256K1.to_string(),
                    "SECP256K1_3ISO" => SECP256K1_3ISO.to_string(),
                    "BLS12381G1" => BLS12381G1.to_string(),
                    "BLS12381G1_11ISO" => BLS12381G1_11ISO.to_string(),
                    "CURVE25519" => CURVE25519.to_string(),
                    "CURVE448" => CURVE448.to_string(),
                    "EDWARDS25519" => EDWARDS25519.to_string(),
                    "EDWARDS448" => EDWARDS448.to_string(),
                    _ => return Err("instance".into()),
                };
                k.push(T(hex(t.as_bytes())))
            }
            "reread" => match (pop!(), obj!(a[0])) {
                (F(x), Obj::Fp(f)) => k.push(F(f.from(x.to_string().as_str()))),
                _ => return Err("reread".into()),
            },
            // binary operators
            "add" => {
                let (y, x) = (pop!(), pop!());
                k.push(bin!(x, y, form, +, [F F2 SW SM SE PW PM PE]))
            }
            "sub" => {
                let (y, x) = (pop!(), pop!());
                k.push(bin!(x, y, form, -, [F F2 SW SM SE PW PM PE]))
            }
            "mul" => {
                let (y, x) = (pop!(), pop!());
                k.push(match (x, y) {
                    (PW(x), SW(y)) => PW(forms!(form, x, y, *)),
                    (PM(x), SM(y)) => PM(forms!(form, x, y, *)),
                    (PE(x), SE(y)) => PE(forms!(form, x, y, *)),
                    (x, y) => bin!(x, y, form, *, [F F2 SW SM SE]),
                })
            }
            "div" => {
                let (y, x) = (pop!(), pop!());
                k.push(bin!(x, y, form, /, [F F2 SW SM SE]))
            }
            "lmul" => {
                // scalar times point
                let (y, x) = (pop!(), pop!());
                macro_rules! lm {
                    ($x:expr, $y:expr) => {
                        match form {
                            "oo" => $x.clone() * $y.clone(),
                            "or" => $x.clone() * &$y,
                            _ => &$x * &$y,
                        }
                    };
                }
                k.push(match (x, y) {
                    (SW(x), PW(y)) => PW(lm!(x, y)),
                    (SM(x), PM(y)) => PM(lm!(x, y)),
                    (SE(x), PE(y)) => PE(lm!(x, y)),
                    _ => return Err("types".into()),
                })
            }
            "neg" => {
                let x = pop!();
                k.push(if form == "o" {
                    un!(x, [F F2 SW SM SE PW PM PE], |y| -y)
                } else {
                    un!(x, [F F2 SW SM SE PW PM PE], |y| -&y)
                })
            }
            "xu" => {
                let n: u32 = a[0].parse().unwrap();
                let x = pop!();
                k.push(if form == "o" { un!(x, [F F2], |y| y ^ n) } else { un!(x, [F F2], |y| &y ^ n) })
            }
            "xi" => {
                let n: i32 = a[0].parse().unwrap();
                let x = pop!();
                k.push(if form == "o" { un!(x, [F F2], |y| y ^ n) } else { un!(x, [F F2], |y| &y ^ n) })
            }
            "pow" => {
                let n: BigUint = a[0].parse().unwrap();
                let x = pop!();
                k.push(un!(x, [F F2], |y| &y ^ &n))
            }
            "powi" => {
                let n = int(a[0]);
                let x = pop!();
                k.push(un!(x, [F F2], |y| &y ^ &n))
            }
            "udiv" => {
                let n: u32 = a[0].parse().unwrap();
                let x = pop!();
                k.push(un!(x, [F F2 SW SM SE], |y| n / &y))
            }
            "sqrt" => {
                let x = pop!();
                k.push(un!(x, [F F2], |y| y.sqrt()))
            }
            "issq" => {
                let x = pop!();
                k.push(get!(x, [F F2], |y| b(y.is_square())))
            }
            "sgn0" => {
                let x = pop!();
                k.push(get!(x, [F F2], |y| T(y.sgn0().to_string())))
            }
            "cmov" => {
                let (y, x) = (pop!(), pop!());
                let c = a[0] == "1";
                k.push(match (x, y) {
                    (F(x), F(y)) => F(FpElt::cmov(&x, &y, c)),
                    (F2(x), F2(y)) => F2(Fp2Elt::cmov(&x, &y, c)),
                    _ => return Err("types".into()),
                })
            }
            "be" => {
                let x = pop!();
                k.push(get!(x, [F F2 SW SM SE], |y| T(hex(&y.to_bytes_be()))))
            }
            "le" => {
                let x = pop!();
                k.push(get!(x, [F F2 SW SM SE], |y| T(hex(&y.to_bytes_le()))))
            }
            "eq" => {
                let (y, x) = (pop!(), pop!());
                k.push(match (x, y) {
                    (F(x), F(y)) => b(x == y),
                    (F2(x), F2(y)) => b(x == y),
                    (SW(x), SW(y)) => b(x == y),
                    (SE(x), SE(y)) => b(x == y),
                    (PW(x), PW(y)) => b(x == y),
                    (PM(x), PM(y)) => b(x == y),
                    (PE(x), PE(y)) => b(x == y),
                    _ => return Err("types".into()),
                })
            }
            "objeq" => k.push(match (obj!(a[0]), obj!(a[1])) {
                (Obj::Fp(x), Obj::Fp(y)) => b(x == y),
                (Obj::Fp2(x), Obj::Fp2(y)) => b(x == y),
                (Obj::W(x), Obj::W(y)) => b(x == y),
                (Obj::M(x), Obj::M(y)) => b(x == y),
                (Obj::E(x), Obj::E(y)) => b(x == y),
                _ => return Err("types".into()),
            }),
            "iszero" => {
                let x = pop!();
                k.push(match x {
                    F(y) => b(y.is_zero()),
                    F2(y) => b(y.is_zero()),
                    PW(y) => b(y.is_zero()),
                    PM(y) => b(y.is_zero()),
                    PE(y) => b(y.is_zero()),
                    _ => return Err("types".into()),
                })
            }
            "isone" => {
                let x = pop!();
                k.push(get!(x, [F F2], |y| b(y.is_one())))
            }
            "setone" => {
                let x = pop!();
                k.push(un!(x, [F F2], |y| { let mut y = y; y.set_one(); y }))
            }
            "setzero" => {
                let x = pop!();
                k.push(un!(x, [F F2], |y| { let mut y = y; y.set_zero(); y }))
            }
            // scalars
            "sc" => match obj!(a[0]) {
                Obj::W(e) => k.push(SW(e.new_scalar(int(a[1])))),
                Obj::M(e) => k.push(SM(e.new_scalar(int(a[1])))),
                Obj::E(e) => k.push(SE(e.new_scalar(int(a[1])))),
                _ => return Err("curve".into()),
            },
            "scr" => {
                let r = int(a[2]).to_biguint().unwrap();
                k.push(match a[0] {
                    "w" => SW(weierstrass::Scalar::new(int(a[1]), &r)),
                    "m" => SM(montgomery::Scalar::new(int(a[1]), &r)),
                    _ => SE(edwards::Scalar::new(int(a[1]), &r)),
                })
            }
            "lr" => {
                let n: usize = a[0].parse().unwrap();
                let x = pop!();
                k.push(get!(x, [SW SM SE], |y| T(bits(y.iter_lr(), n))))
            }
            "rl" => {
                let n: usize = a[0].parse().unwrap();
                let x = pop!();
                k.push(get!(x, [SW SM SE], |y| T(bits(y.iter_rl(), n))))
            }
            // points
            "O" => match obj!(a[0]) {
                Obj::W(e) => k.push(PW(e.identity())),
                Obj::M(e) => k.push(PM(e.identity())),
                Obj::E(e) => k.push(PE(e.identity())),
                _ => return Err("curve".into()),
            },
            "G" => match obj!(a[0]) {
                Obj::W(e) => k.push(PW(e.get_generator())),
                Obj::M(e) => k.push(PM(e.get_generator())),
                Obj::E(e) => k.push(PE(e.get_generator())),
                _ => return Err("curve".into()),
            },
            "pt" => {
                macro_rules! mkpt {
                    ($e:expr, $w:ident) => {{
                        let f = $e.get_field();
                        let (x, y) = (f.elt(int(a[1])), f.elt(int(a[2])));
                        k.push($w($e.new_point(x, y)))
                    }};
                }
                match obj!(a[0]) {
                    Obj::W(e) => mkpt!(e, PW),
                    Obj::M(e) => mkpt!(e, PM),
                    Obj::E(e) => mkpt!(e, PE),
                    _ => return Err("curve".into()),
                }
            }
            "ptf" => {
                let (y, x) = match (pop!(), pop!()) {
                    (F(y), F(x)) => (y, x),
                    _ => return Err("types".into()),
                };
                match obj!(a[0]) {
                    Obj::W(e) => k.push(PW(e.new_point(x, y))),
                    Obj::M(e) => k.push(PM(e.new_point(x, y))),
                    Obj::E(e) => k.push(PE(e.new_point(x, y))),
                    _ => return Err("curve".into()),
                }
            }
            "norm" => {
                let x = pop!();
                k.push(un!(x, [PW PM PE], |y| { let mut y = y; y.normalize(); y }))
            }
            "enc" => {
                let x = pop!();
                let c = a[0] == "1";
                k.push(get!(x, [PW PM PE], |y| T(hex(&y.encode(c)))))
            }
            "dec" => {
                let v = unhex(a[1]);
                match obj!(a[0]) {
                    Obj::W(e) => k.push(e.decode(&v).map(PW).unwrap_or(T("err".into()))),
                    Obj::M(e) => k.push(e.decode(&v).map(PM).unwrap_or(T("err".into()))),
                    Obj::E(e) => k.push(e.decode(&v).map(PE).unwrap_or(T("err".into()))),
                    _ => return Err("curve".into()),
                }
            }
            "encdec" => {
                let x = pop!();
                let c = a[1] == "1";
                match (obj!(a[0]), x) {
                    (Obj::W(e), PW(x)) => k.push(e.decode(&x.encode(c)).map(PW).unwrap_or(T("err".into()))),
                    (Obj::M(e), PM(x)) => k.push(e.decode(&x.encode(c)).map(PM).unwrap_or(T("err".into()))),
                    (Obj::E(e), PE(x)) => k.push(e.decode(&x.encode(c)).map(PE).unwrap_or(T("err".into()))),
                    _ => return Err("types".into()),
                }
            }
            "oncurve" => {
                let x = pop!();
                match (obj!(a[0]), x) {
                    (Obj::W(e), PW(x)) => k.push(b(e.is_on_curve(&x))),
                    (Obj::M(e), PM(x)) => k.push(b(e.is_on_curve(&x))),
                    (Obj::E(e), PE(x)) => k.push(b(e.is_on_curve(&x))),
                    _ => return Err("types".into()),
                }
            }
            "two" => {
                let x = pop!();
                k.push(match x {
                    PM(y) => b(y.is_two_torsion()),
                    _ => return Err("types".into()),
                })
            }
            "map" => {
                let x = match pop!() {
                    F(x) => x,
                    _ => return Err("types".into()),
                };
                k.push(match obj!(a[0]) {
                    Obj::MapW(m) => PW(m.map(&x)),
                    Obj::MapM(m) => PM(m.map(&x)),
                    Obj::MapE(m) => PE(m.map(&x)),
                    _ => return Err("map".into()),
                })
            }
            "push" => {
                let x = pop!();
                k.push(match (obj!(a[0]), x) {
                    (Obj::Rat(m), PE(x)) => PM(m.push(x)),
                    (Obj::Iso(m), PW(x)) => PW(m.push(x)),
                    _ => return Err("types".into()),
                })
            }
            "pull" => {
                let x = pop!();
                k.push(match (obj!(a[0]), x) {
                    (Obj::Rat(m), PM(x)) => PE(m.pull(x)),
                    _ => return Err("types".into()),
                })
            }
            "domain" => match obj!(a[1]) {
                Obj::Rat(m) => {
                    st.reg.insert(a[0].into(), Obj::E(m.domain()));
                }
                Obj::Iso(m) => {
                    st.reg.insert(a[0].into(), Obj::W(m.domain()));
                }
                _ => return Err("types".into()),
            },
            "codomain" => match obj!(a[1]) {
                Obj::Rat(m) => {
                    st.reg.insert(a[0].into(), Obj::M(m.codomain()));
                }
                Obj::Iso(m) => {
                    st.reg.insert(a[0].into(), Obj::W(m.codomain()));
                }
                _ => return Err("types".into()),
            },
            // stack
            "dup" => {
                let x = pop!();
                k.push(x.clone());
                k.push(x)
            }
            "swap" => {
                let (y, x) = (pop!(), pop!());
                k.push(y);
                k.push(x)
            }
            "over" => {
                let (y, x) = (pop!(), pop!());
                k.push(x.clone());
                k.push(y);
                k.push(x)
            }
            "pick" => {
                let n: usize = a[0].parse().unwrap();
                let x = k[k.len() - 1 - n].clone();
                k.push(x)
            }
            "!" => {}
            "drop" => {
                pop!();
            }
            _ => return Err(format!("token {}", tok)),
        }
    }
    Ok(k)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = St { reg: HashMap::new() };
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line == "flush" {
            out.flush().unwrap();
            continue;
        }
        let toks: Vec<&str> = line.split(' ').filter(|t| !t.is_empty()).collect();
        let at = std::cell::Cell::new(0usize);
        let r = catch_unwind(AssertUnwindSafe(|| exec(&mut st, &toks, &at)));
        // a panic while a value is shown is a panic of the operation as well
        let s = match r {
            Ok(Ok(k)) => match catch_unwind(AssertUnwindSafe(|| {
                k.iter().map(show).collect::<Vec<_>>().join(" | ")
            })) {
                Ok(s) => format!("OK {}", s),
                Err(_) => "PANIC show".to_string(),
            },
            Ok(Err(e)) => format!("BAD {}", e),
            Err(_) => format!("PANIC {}", at.get()),
        };
        writeln!(out, "{}", s).unwrap();
    }
    out.flush().unwrap();
}
