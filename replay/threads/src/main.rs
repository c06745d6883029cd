//! Stress test for C30: several threads use elements of one field handle at once; every result must be the
//! one a single thread gets on a handle of its own, and no thread may panic.
//! usage: threads SEED SECONDS; prints one line per difference and a summary.
use num_bigint::{BigInt, BigUint};
use redox_ecc::ellipticcurve::EllipticCurve;
use redox_ecc::field::{Field, Sgn0, Sqrt};
use redox_ecc::instances::{GetCurve, CURVE25519, EDWARDS25519, P256};
use redox_ecc::ops::{Deserialize, Serialize};
use redox_ecc::primefield::Fp;
use redox_ecc::quadraticfield::Fp2;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

const THREADS: u64 = 8;

fn next(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

fn big(s: &mut u64) -> BigInt {
    let v: Vec<u32> = (0..17).map(|_| next(s) as u32).collect();
    BigInt::from(BigUint::new(v))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// one operation of a thread, described by numbers only
#[derive(Clone, Copy)]
struct Op {
    kind: u64,
    seed: u64,
}

fn fp(f: &Fp, op: Op) -> String {
    let mut s = op.seed | 1;
    let x = f.elt(big(&mut s));
    let y = f.elt(big(&mut s));
    match op.kind {
        0 | 1 | 2 => hex(&(&x * &x).sqrt().to_bytes_be()),
        3 => hex(&x.sqrt().to_bytes_be()),
        4 => format!("{}", x.is_square()),
        5 => hex(&(&x / &y + &x * &y - &y).to_bytes_le()),
        6 => hex(&(&x ^ &big(&mut s)).to_bytes_be()) + &x.sgn0().to_string(),
        _ => hex(&f.from_bytes_be(&x.to_bytes_be()).unwrap().to_bytes_be()),
    }
}

fn fp2(f: &Fp2, op: Op) -> String {
    let mut s = op.seed | 1;
    let n = |s: &mut u64| format!("{},{}", big(s), big(s));
    use redox_ecc::ops::FromFactory;
    let x = f.from(n(&mut s).as_str());
    let y = f.from(n(&mut s).as_str());
    match op.kind {
        0 | 1 => hex(&(&x * &x).sqrt().to_bytes_be()),
        2 => hex(&x.sqrt().to_bytes_be()),
        3 => format!("{}", x.is_square()),
        4 => hex(&(&x / &y + &x * &y - &y).to_bytes_le()),
        _ => hex(&(&x ^ &BigUint::from(op.seed)).to_bytes_be()) + &x.sgn0().to_string(),
    }
}

fn guarded<F: FnOnce() -> String>(f: F) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
            format!("panic: {}", m.unwrap_or_default())
        }
    }
}

fn race<H, F>(what: &str, make: &dyn Fn() -> H, run: F, seed: &mut u64, kinds: u64, per: usize) -> (u64, u64)
where
    H: Clone + Send + 'static,
    F: Fn(&H, Op) -> String + Copy + Send + 'static,
{
    // few different inputs: threads meet the same elements again
    let pool: Vec<u64> = (0..3).map(|_| next(seed)).collect();
    let mut pick = |k: u64| next(seed) % k;
    let plans: Vec<Vec<Op>> = (0..THREADS)
        .map(|_| (0..per).map(|_| Op { kind: pick(kinds), seed: pool[pick(3) as usize] }).collect())
        .collect();
    let shared = make();
    let gate = Arc::new(Barrier::new(THREADS as usize));
    let hs: Vec<_> = plans
        .iter()
        .cloned()
        .map(|p| {
            let (h, g) = (shared.clone(), gate.clone());
            std::thread::spawn(move || {
                g.wait();
                p.into_iter().map(|op| guarded(|| run(&h, op))).collect::<Vec<_>>()
            })
        })
        .collect();
    let (mut n, mut bad) = (0, 0);
    for (t, (h, p)) in hs.into_iter().zip(&plans).enumerate() {
        let got = h.join().unwrap_or_default();
        for (i, op) in p.iter().enumerate() {
            n += 1;
            let alone = make();
            let want = guarded(|| run(&alone, *op));
            let g = got.get(i).cloned().unwrap_or_else(|| "thread died".into());
            if g != want {
                bad += 1;
                if bad <= 2 {
                    println!("DIFF {what}: thread {t} of {THREADS}, operation {i} (kind {} seed {}): {g} instead of {want}", op.kind, op.seed);
                }
            }
        }
    }
    (n, bad)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut seed = a[1].parse::<u64>().unwrap().wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let end = Instant::now() + Duration::from_secs_f64(a[2].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let one = BigUint::from(1u32);
    let primes = vec![
        BigUint::from(7u32),
        BigUint::from(13u32),
        BigUint::from(1019u32),
        BigUint::from(1021u32),
        (&one << 127usize) - 1u32,
        (&one << 255usize) - 19u32,
        (&one << 521usize) - 1u32,
    ];
    let (mut n, mut bad) = (0, 0);
    while Instant::now() < end && bad < 20 {
        for p in &primes {
            for per in [1usize, 4, 16] {
                let q = p.clone();
                let (x, y) = race(&format!("GF({p})"), &|| Fp::new(q.clone()), fp, &mut seed, 8, per);
                n += x;
                bad += y;
                if p % 4u32 == BigUint::from(3u32) {
                    let (x, y) = race(&format!("GF({p}^2)"), &|| Fp2::new(q.clone()), fp2, &mut seed, 6, per);
                    n += x;
                    bad += y;
                }
            }
        }
        macro_rules! curve {
            ($c:expr, $n:expr) => {{
                let run = |e: &_, op: Op| points(e, op);
                let (x, y) = race(&format!("points of {}", $n), &|| $c.get(), run, &mut seed, 2, 2);
                n += x;
                bad += y;
            }};
        }
        curve!(P256, "P-256");
        curve!(CURVE25519, "curve25519");
        curve!(EDWARDS25519, "edwards25519");
    }
    println!("SUMMARY {n} {bad}");
}

fn points<E>(e: &E, op: Op) -> String
where
    E: EllipticCurve + redox_ecc::ellipticcurve::Decode<Deser = <E as EllipticCurve>::Point>,
    <E as EllipticCurve>::Point: redox_ecc::ellipticcurve::Encode + Clone,
    for<'a> &'a <E as EllipticCurve>::Point: std::ops::Add<&'a <E as EllipticCurve>::Point, Output = <E as EllipticCurve>::Point>,
{
    use redox_ecc::ellipticcurve::Encode;
    let mut p = e.get_generator();
    for _ in 0..(op.seed % 5) {
        p = &p + &p;
    }
    let b = p.encode(true);
    match e.decode(&b) {
        Ok(q) => hex(&q.encode(op.kind == 0)),
        Err(_) => "error".into(),
    }
}
