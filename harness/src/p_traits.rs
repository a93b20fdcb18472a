//! C20 integer/fraction helper traits, C21 primes
use mccore::engine::*;
use mccore::ints::*;
use mccore::refmath::*;
use algebraics::traits::*;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::Ratio;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, Signed, Zero};
use std::fmt::Debug;

// ------------------------------------------------------------------------------------------------ C20
fn gcd_ref(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
fn gcd_space<V: Int + GCD<Output = V> + Sync + Send>(name: &str, bound: &str, vs: Vec<V>) -> Space {
    let n = vs.len();
    Space::new(name, bound, n as u64, move |i, rec| {
        let a = &vs[i as usize];
        for b in &vs {
            let (ab, bb) = (a.big(), b.big());
            let g = gcd_ref(&ab, &bb);
            let l = if g.is_zero() { bi(0) } else { (&ab * &bb).abs() / &g };
            rec.distinct(1);
            let Some(gv) = V::from_big(&g) else { continue };
            // the type's own minimum cannot be negated
            let lim = |x: &BigInt| V::from_big(&x.abs()).is_none();
            if lim(&ab) || lim(&bb) {
                continue;
            }
            eqv!(GCD::gcd(a, b), gv, "{} gcd({:?}, {:?})", V::NAME, a, b);
            rec.step();
            rec.outcome(&gv);
            if let Some(lv) = V::from_big(&l) {
                eqv!(GCD::lcm(a, b), lv, "{} lcm({:?}, {:?})", V::NAME, a, b);
                let r = GCD::gcd_lcm(a, b);
                eqv!((r.gcd, r.lcm), (gv, lv), "{} gcd_lcm({:?}, {:?})", V::NAME, a, b);
                rec.steps(2);
            }
        }
        rec.compared();
        rec.sample(|| format!("{} {:?} against {} values", V::NAME, a, n));
        Ok(())
    })
}
fn egcd_space<V: Int + ExtendedGCD<Output = V> + Sync + Send>(name: &str, bound: &str, vs: Vec<V>) -> Space {
    let n = vs.len();
    Space::new(name, bound, n as u64, move |i, rec| {
        let a = &vs[i as usize];
        for b in &vs {
            let (ab, bb) = (a.big(), b.big());
            let g = gcd_ref(&ab, &bb);
            let l = if g.is_zero() { bi(0) } else { (&ab * &bb).abs() / &g };
            rec.distinct(1);
            let lim = |x: &BigInt| V::from_big(&x.abs()).is_none();
            if lim(&ab) || lim(&bb) {
                continue;
            }
            let r = ExtendedGCD::extended_gcd(a, b);
            eqv!(r.gcd.big(), g, "{} extended_gcd({:?}, {:?})", V::NAME, a, b);
            eqv!(r.x.big() * &ab + r.y.big() * &bb, g, "{} extended_gcd({:?}, {:?}) cofactors {:?} {:?}", V::NAME, a, b, r.x, r.y);
            rec.step();
            rec.outcome(&(&r.x, &r.y));
            if V::from_big(&l).is_some() {
                let r = ExtendedGCD::extended_gcd_lcm(a, b);
                eqv!((r.gcd.big(), r.lcm.big()), (g.clone(), l), "{} extended_gcd_lcm({:?}, {:?})", V::NAME, a, b);
                eqv!(r.x.big() * &ab + r.y.big() * &bb, g, "{} extended_gcd_lcm({:?}, {:?}) cofactors", V::NAME, a, b);
                rec.step();
            }
        }
        rec.compared();
        rec.sample(|| format!("{} {:?} against {} values", V::NAME, a, n));
        Ok(())
    })
}
macro_rules! ediv_checks {
    ($rec:expr, $a:expr, $b:expr, $ex:expr, $c:expr) => {{
        let (a, b, ex) = (&$a, &$b, &$ex);
        eqv!((a.clone()).checked_exact_div(b.clone()), *ex, "{} move move", $c);
        eqv!((a.clone()).checked_exact_div(b), *ex, "{} move ref", $c);
        eqv!((a).checked_exact_div(b.clone()), *ex, "{} ref move", $c);
        eqv!((a).checked_exact_div(b), *ex, "{} ref ref", $c);
        let mut t = a.clone();
        eqv!(t.checked_exact_div_assign(b).is_ok(), ex.is_some(), "{} assign ref", $c);
        eqv!(t, ex.clone().unwrap_or(a.clone()), "{} assign ref", $c);
        let mut t = a.clone();
        eqv!(t.checked_exact_div_assign(b.clone()).is_ok(), ex.is_some(), "{} assign move", $c);
        eqv!(t, ex.clone().unwrap_or(a.clone()), "{} assign move", $c);
        $rec.steps(6);
        match ex {
            Some(q) => {
                eqv!(&(a.clone()).exact_div(b.clone()), q, "{} exact move move", $c);
                eqv!(&(a.clone()).exact_div(b), q, "{} exact move ref", $c);
                eqv!(&(a).exact_div(b.clone()), q, "{} exact ref move", $c);
                eqv!(&(a).exact_div(b), q, "{} exact ref ref", $c);
                let mut t = a.clone();
                t.exact_div_assign(b);
                eqv!(&t, q, "{} exact assign ref", $c);
                let mut t = a.clone();
                t.exact_div_assign(b.clone());
                eqv!(&t, q, "{} exact assign move", $c);
                $rec.steps(6);
            }
            None => {
                ensure!(catch(|| a.exact_div(b)).is_err(), "{} exact_div answered", $c);
                let mut t = a.clone();
                ensure!(catch(|| t.exact_div_assign(b)).is_err(), "{} exact_div_assign answered", $c);
                $rec.steps(2);
            }
        }
    }};
}
fn ratio_val(n: i64, d: i64) -> Q {
    q(n, d)
}

pub fn c20(tier: Tier) -> Property {
    let mut sp = vec![];
    macro_rules! per_type {
        ($($t:ty => $lo:expr, $hi:expr),*) => {$(
            sp.push(gcd_space::<$t>(concat!("gcd-small-", stringify!($t)), "all pairs of a contiguous range", range($lo, $hi)));
            sp.push(gcd_space::<$t>(concat!("gcd-boundary-", stringify!($t)), "all pairs of boundary values", boundary()));
            {
                let mut vs: Vec<$t> = range($lo, $hi);
                vs.extend(boundary::<$t>());
                vs.sort();
                vs.dedup();
                sp.push(Space::new(concat!("exactdiv-", stringify!($t)), "all pairs of a contiguous range and boundary values, all forms", vs.len() as u64, move |i, rec| {
                    let a = &vs[i as usize];
                    for b in &vs {
                        let (ab, bb) = (a.big(), b.big());
                        let ex: Option<$t> = if bb.is_zero() || !(&ab % &bb).is_zero() { None } else { <$t as Int>::from_big(&(&ab / &bb)) };
                        ediv_checks!(rec, *a, *b, ex, format!("{} {:?} / {:?}", <$t as Int>::NAME, a, b));
                        rec.distinct(1);
                        rec.outcome(&ex);
                    }
                    rec.compared();
                    Ok(())
                }));
            }
        )*};
    }
    per_type!(i8 => -128, 127, u8 => 0, 255, i16 => -60, 60, u16 => 0, 90, i32 => -60, 60, u32 => 0, 90, i64 => -60, 60, u64 => 0, 90,
        i128 => -60, 60, u128 => 0, 90, isize => -60, 60, usize => 0, 90, BigInt => -60, 60, BigUint => 0, 90);
    macro_rules! per_signed {
        ($($t:ty => $n:expr),*) => {$(
            sp.push(egcd_space::<$t>(concat!("egcd-small-", stringify!($t)), "all pairs of a contiguous range", range(-$n, $n)));
            sp.push(egcd_space::<$t>(concat!("egcd-boundary-", stringify!($t)), "all pairs of boundary values", boundary()));
        )*};
    }
    per_signed!(i8 => 128, i16 => 80, i32 => 80, i64 => 80, i128 => 80, isize => 80, BigInt => 120);
    // fractions
    let lim = tier.pick(9i64, 16);
    let mut fr: Vec<Q> = vec![];
    for d in 1..=lim {
        for n in -lim..=lim {
            fr.push(ratio_val(n, d));
        }
    }
    fr.push(Ratio::new(BigInt::one() << 64u32, bi(3)));
    fr.push(Ratio::new(-(BigInt::one() << 33u32) + 1, BigInt::one() << 65u32));
    fr.push(Ratio::new(bi(4294967296), bi(4294967295)));
    fr.sort();
    fr.dedup();
    let f1 = fr.clone();
    sp.push(Space::new("fraction-gcd", "all pairs of fractions with |numerator|, denominator up to the bound, and large ones", fr.len() as u64, move |i, rec| {
        let a = &f1[i as usize];
        for b in &f1 {
            let c = format!("fractions {} and {}", a, b);
            let g = GCD::gcd(a, b);
            let l = GCD::lcm(a, b);
            let r = GCD::gcd_lcm(a, b);
            eqv!((&r.gcd, &r.lcm), (&g, &l), "{}", c);
            // reference: gcd of numerators over a common denominator
            let den = a.denom() * b.denom();
            let (na, nb) = (a.numer() * b.denom(), b.numer() * a.denom());
            let gr = Ratio::new(gcd_ref(&na, &nb), den.clone());
            eqv!(g.abs(), gr, "{} gcd (up to sign)", c);
            let lr = if gr.is_zero() { Q::zero() } else { (a * b / &gr).abs() };
            eqv!(l.abs(), lr, "{} lcm (up to sign)", c);
            let e = ExtendedGCD::extended_gcd_lcm(a, b);
            eqv!(e.gcd.abs(), gr, "{} extended gcd", c);
            eqv!(e.lcm.abs(), lr, "{} extended lcm", c);
            eqv!(&e.x * a + &e.y * b, e.gcd, "{} cofactors", c);
            ensure!(e.x.is_integer() && e.y.is_integer(), "{}: cofactors are not integers", c);
            let e2 = ExtendedGCD::extended_gcd(a, b);
            eqv!(&e2.x * a + &e2.y * b, e2.gcd, "{} cofactors", c);
            eqv!(e2.gcd.abs(), gr, "{} extended gcd", c);
            rec.steps(5);
            rec.distinct(1);
            rec.outcome(&gr);
        }
        rec.compared();
        Ok(())
    }));
    let f2 = fr.clone();
    sp.push(Space::new("fraction-div", "all pairs of the same fractions; fraction by integer", fr.len() as u64, move |i, rec| {
        let a = &f2[i as usize];
        for b in &f2 {
            let ex = if b.is_zero() { None } else { Some(a / b) };
            ediv_checks!(rec, *a, *b, ex, format!("{} / {}", a, b));
            rec.distinct(1);
            rec.outcome(&ex);
            if b.is_integer() {
                let n = b.numer().clone();
                ediv_checks!(rec, *a, n, ex, format!("{} / integer {}", a, n));
            }
        }
        rec.compared();
        Ok(())
    }));
    // logarithms
    fn log_check<V: Int + FloorLog2 + CeilLog2 + TrailingZeros>(v: &V, rec: &mut Rec) -> Result<(), String> {
        let b = v.big();
        let (mut f, mut c) = (None, None);
        if b.is_positive() {
            let mut k = 0usize;
            while (BigInt::one() << (k + 1)) <= b {
                k += 1;
            }
            f = Some(k);
            c = Some(if (BigInt::one() << k) == b { k } else { k + 1 });
        }
        let mut t = None;
        if !b.is_zero() {
            let mut k = 0usize;
            let mut x = b.clone();
            while x.is_even() {
                x = x / 2;
                k += 1;
            }
            t = Some(k);
        }
        eqv!(FloorLog2::floor_log2(v), f, "{} floor_log2({:?})", V::NAME, v);
        eqv!(CeilLog2::ceil_log2(v), c, "{} ceil_log2({:?})", V::NAME, v);
        eqv!(TrailingZeros::trailing_zeros(v), t, "{} trailing_zeros({:?})", V::NAME, v);
        rec.steps(3);
        rec.distinct(1);
        rec.outcome(&(f, c, t));
        Ok(())
    }
    macro_rules! logs {
        ($($t:ty),*) => {$({
            sp.push(Space::new(concat!("log2-", stringify!($t)), "all values of 8- and 16-bit types; otherwise +-(2^i + s*2^j + d), s in -1..=1, d in -1..=1, all i, j that fit", 303, move |i, rec| {
                let one = BigInt::one();
                if i == 302 {
                    for v in -32768i64..=65535 {
                        if let Some(v) = <$t as Int>::from_big(&bi(v)) { log_check(&v, rec)?; }
                    }
                    rec.compared();
                    return Ok(());
                }
                let i = i as usize;
                let js: Vec<usize> = if i <= 130 { (0..=i).collect() } else { (0..=i).filter(|j| j % 7 == 0 || *j + 2 > i || j % 32 < 2).collect() };
                for j in js {
                    for s in [0i64, -1, 1] {
                        for d in [-1i64, 0, 1] {
                            let v: BigInt = (&one << i) + (&one << j) * s + d;
                            for v in [v.clone(), -v] {
                                if let Some(v) = <$t as Int>::from_big(&v) { log_check(&v, rec)?; }
                            }
                        }
                    }
                }
                rec.compared();
                Ok(())
            }));
        })*};
    }
    logs!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint);
    let _ = tier;
    Property { id: "C20", spaces: sp, assumptions: vec!["results that do not fit the type (overflow of lcm, the magnitude of the minimum of a signed type) are outside the property".into(), "the gcd and lcm of fractions are compared up to sign".into()] }
}

// ------------------------------------------------------------------------------------------------ C21
fn sieve(lo: u64, hi: u64) -> Vec<bool> {
    // primality of lo..hi by division-free segmented sieve
    let mut is = vec![true; (hi - lo) as usize];
    let mut d = 2u64;
    while d * d < hi {
        // only prime d matter; composite d merely repeat work, skip even ones
        let mut x = (lo + d - 1) / d * d;
        if x < d * d {
            x = d * d;
        }
        while x < hi {
            is[(x - lo) as usize] = false;
            x += d;
        }
        d += if d == 2 { 1 } else { 2 };
    }
    for v in lo..hi.min(2) {
        is[(v - lo) as usize] = false;
    }
    is
}
pub fn c21(tier: Tier) -> Property {
    use algebraics::util::*;
    const B: u64 = 1 << 16;
    let nblocks = 1u64 << 16;
    let mut blocks: Vec<(u64, bool)> = vec![]; // (block, step functions on every value)
    for b in 0..nblocks {
        let near = |c: u64, r: u64| b + r >= c && b <= c + r;
        let dense = b < tier.pick(8, 64) || b >= nblocks - tier.pick(2, 16) || near(1 << 15, tier.pick(1, 8)) || near(65521 * 65521 / B, 0);
        // blocks with the largest gaps between consecutive primes below 2^32
        let gap = [155921u64, 370261, 1357201, 2010733, 4652353, 17051707, 20831323, 47326693, 122164747, 189695659, 191912783, 387096133, 436273009, 1294268491, 1453168141, 2300942549, 3842610773];
        let dense = dense || gap.iter().any(|g| g / B == b || (g + 400) / B == b);
        let some = dense || b < 64 || b >= nblocks - 8 || near(1 << 15, 4) || b % 509 == 0 || (b.is_power_of_two());
        if some || tier == Tier::Thorough {
            blocks.push((b, dense));
        }
    }
    let bl = blocks.clone();
    let mut s1 = Space::new(
        "blocks",
        tier.pick("65536-wide blocks: the first 64, last 8, those around 2^31 and powers of two, every 509th; stepping from every value in the first 8, last 2, around 2^31 and at the 17 largest prime gaps, elsewhere from every prime and its neighbours", "all 2^32 values; stepping from every value in the low, high and 2^31 blocks, elsewhere from every prime and its neighbours"),
        bl.len() as u64,
        move |i, rec| {
            let (b, dense) = bl[i as usize];
            let (lo, hi) = (b * B, (b + 1) * B);
            // margin for neighbours: the largest prime gap below 2^32 is 336
            let (slo, shi) = (lo.saturating_sub(400), (hi + 400).min(1 << 32));
            let is = sieve(slo, shi);
            let n = is.len();
            let mut prev = vec![None; n];
            let mut last = None;
            for k in 0..n {
                prev[k] = last;
                if is[k] {
                    last = Some(slo + k as u64);
                }
            }
            let mut next = vec![None; n];
            let mut last = None;
            for k in (0..n).rev() {
                next[k] = last;
                if is[k] {
                    last = Some(slo + k as u64);
                }
            }
            for v in lo..hi {
                let k = (v - slo) as usize;
                let u = v as u32;
                ensure!(is_prime_u32(u) == is[k], "is_prime_u32({}) = {}", v, !is[k]);
                rec.step();
                let edge = is[k] || (k > 0 && is[k - 1]) || (k + 1 < n && is[k + 1]);
                if dense || edge {
                    let p = prev[k].map(|x| x as u32);
                    let nx = next[k].map(|x| x as u32);
                    let g = prev_prime_u32(u);
                    ensure!(g == p, "prev_prime_u32({}) = {:?}, expected {:?}", v, g, p);
                    let g = next_prime_u32(u);
                    ensure!(g == nx, "next_prime_u32({}) = {:?}, expected {:?}", v, g, nx);
                    rec.steps(2);
                    if v < 1 << 31 {
                        let g = prev_prime_i32(v as i32);
                        let p = p.map(|x| x as i32);
                        ensure!(g == p, "prev_prime_i32({}) = {:?}, expected {:?}", v, g, p);
                        let nx = nx.filter(|x| *x < 1 << 31).map(|x| x as i32);
                        let g = next_prime_i32(v as i32);
                        ensure!(g == nx, "next_prime_i32({}) = {:?}, expected {:?}", v, g, nx);
                        rec.steps(2);
                    }
                }
            }
            rec.distinct(B);
            rec.outcome(&is.iter().filter(|x| **x).count());
            rec.compared();
            rec.sample(|| format!("block {}..{} stepping {}", lo, hi, if dense { "everywhere" } else { "at primes" }));
            Ok(())
        },
    );
    s1.chunk = 1;
    // products of two primes: every p*q with p below 2^16 and q one of the primes nearest p and nearest the limit
    let small: Vec<u64> = {
        let s = sieve(0, 1 << 17);
        (0..1u64 << 17).filter(|v| s[*v as usize]).collect()
    };
    let nsmall = small.iter().filter(|p| **p < 1 << 16).count() as u64;
    let s2 = Space::new("semiprimes", "for every prime p < 2^16: p^2 and p*q for the 12 primes q from p on and the 12 largest q < 2^17 with p*q < 2^32", nsmall, move |i, rec| {
        let p = small[i as usize];
        let lim = small.partition_point(|q| p * q < 1 << 32);
        for k in (i as usize..(i as usize + 12).min(lim)).chain(lim.saturating_sub(12).max(i as usize)..lim) {
            let v = p * small[k];
            ensure!(!is_prime_u32(v as u32), "is_prime_u32({}) = true but it is {} * {}", v, p, small[k]);
            rec.step();
            rec.state(&v);
        }
        ensure!(is_prime_u32(p as u32), "is_prime_u32({}) = false", p);
        rec.outcome(&p);
        rec.compared();
        Ok(())
    });
    // the shapes of strong pseudoprimes and Carmichael numbers
    let ps: Vec<u64> = {
        let s = sieve(0, 1 << 16);
        (0..1u64 << 16).filter(|v| s[*v as usize]).collect()
    };
    let s4 = Space::new("pseudoprime shapes", "for every prime p < 2^16 all p (m (p-1) + 1) below 2^32 for m in 2..=24, and p (2p-1) (3p-2), p (m(p-1)+1) (n(p-1)+1) for m, n <= 8", nsmall, move |i, rec| {
        let p = ps[i as usize];
        for m in 2..=24u64 {
            let q = m * (p - 1) + 1;
            for n in 0..=8u64 {
                let v = p * q * if n == 0 || m > 8 { 1 } else { n * (p - 1) + 1 };
                if p > 2 && v < 1 << 32 {
                    ensure!(!is_prime_u32(v as u32), "is_prime_u32({}) = true but it is divisible by {}", v, p);
                    rec.step();
                    rec.state(&v);
                }
            }
        }
        rec.compared();
        Ok(())
    });
    let s3 = Space::new("negative", "i32: all of -65536..0, the minimum and its neighbours, negatives of powers of two", 1, move |_, rec| {
        let mut vs: Vec<i32> = (-65536..0).collect();
        vs.extend((0..31).map(|k| -(1i64 << k) as i32));
        vs.extend([i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MIN + 3]);
        for v in vs {
            ensure!(next_prime_i32(v) == Some(2), "next_prime_i32({}) = {:?}", v, next_prime_i32(v));
            ensure!(prev_prime_i32(v).is_none(), "prev_prime_i32({}) = {:?}", v, prev_prime_i32(v));
            rec.steps(2);
            rec.state(&v);
        }
        rec.compared();
        rec.outcome(&0);
        Ok(())
    });
    Property { id: "C21", spaces: vec![s1, s2, s4, s3], assumptions: vec!["the reference sieve is correct".into()] }
}

// ------------------------------------------------------------------------------------------------ C29
fn sign_space<T: PartialOrd + Zero + Debug + Clone + Send + Sync + 'static>(name: &str, vs: Vec<(T, i32)>) -> Space {
    use algebraics::util::Sign;
    Space::new(&format!("sign of {}", name), "all of a contiguous range around zero, the extremes and word boundaries", vs.len() as u64, move |i, rec| {
        let (v, s) = &vs[i as usize];
        let want = match s {
            -1 => Some(Sign::Negative),
            1 => Some(Sign::Positive),
            _ => None,
        };
        rec.distinct(1);
        eqv!(Sign::new(v), want, "sign of {:?}", v);
        rec.step();
        rec.outcome(&s);
        rec.compared();
        Ok(())
    })
}
pub fn c29(tier: Tier) -> Property {
    use algebraics::util::Sign;
    use algebraics::RealAlgebraicNumber;
    use std::cmp::Ordering;
    let mut sp = vec![];
    fn sg(b: &BigInt) -> i32 {
        match b.sign() {
            num_bigint::Sign::Minus => -1,
            num_bigint::Sign::NoSign => 0,
            num_bigint::Sign::Plus => 1,
        }
    }
    macro_rules! per_type {
        ($($t:ty),*) => {$({
            let k = tier.pick(100, 127);
            let mut vs: Vec<$t> = range(-k, k);
            vs.extend(boundary::<$t>());
            sp.push(sign_space(<$t as Int>::NAME, vs.into_iter().map(|v| { let s = sg(&v.big()); (v, s) }).collect()));
        })*};
    }
    per_type!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint);
    let mut qs = vec![];
    for n in -12..=12i64 {
        for d in 1..=12i64 {
            qs.push((q(n, d), n.signum() as i32));
        }
    }
    sp.push(sign_space("Ratio<i64>", qs.iter().map(|(x, s)| (Ratio::new(i64::try_from(x.numer().clone()).unwrap(), i64::try_from(x.denom().clone()).unwrap()), *s)).collect()));
    sp.push(sign_space("RealAlgebraicNumber", qs.iter().map(|(x, s)| (RealAlgebraicNumber::from(x.clone()), *s)).collect()));
    sp.push(sign_space("Ratio<BigInt>", qs));
    sp.push(sign_space("f64", vec![(0.0, 0), (-0.0, 0), (f64::NAN, 0), (1.0, 1), (-1.0, -1), (f64::MIN_POSITIVE, 1), (-f64::MIN_POSITIVE, -1), (f64::INFINITY, 1), (f64::NEG_INFINITY, -1), (5e-324, 1), (-5e-324, -1)]));
    sp.push(Space::new("sign algebra", "all pairs of signs, every operator in every by-value, by-reference and in-place form", 4, |i, rec| {
        let all = [Sign::Negative, Sign::Positive];
        let (a, b) = (all[i as usize % 2], all[i as usize / 2]);
        let (x, y) = (i % 2 == 0, i / 2 == 0); // negative?
        rec.distinct(1);
        let mk = |neg: bool| if neg { Sign::Negative } else { Sign::Positive };
        eqv!(bool::from(a), x, "bool of {:?}", a);
        eqv!(Sign::from(x), a, "sign of {:?}", x);
        eqv!(Sign::default(), Sign::Positive, "default sign");
        ensure!(-a == mk(!x) && -&a == mk(!x) && !a == mk(!x) && !&a == mk(!x), "opposite of {:?}", a);
        ensure!((a == b) == (x == y), "{:?} == {:?}", a, b);
        let want = match (x, y) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => Ordering::Equal,
        };
        ensure!(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want), "{:?} cmp {:?}", a, b);
        eqv!(a < b, want == Ordering::Less, "{:?} < {:?}", a, b);
        eqv!(a.max(b), mk(x && y), "max of {:?} and {:?}", a, b);
        macro_rules! op {
            ($op:tt $opa:tt $f:expr) => {{
                let w = mk($f);
                ensure!((a $op b) == w && (&a $op b) == w && (a $op &b) == w && (&a $op &b) == w, "{:?} {} {:?}", a, stringify!($op), b);
                let mut t = a;
                t $opa b;
                let mut u = a;
                u $opa &b;
                ensure!(t == w && u == w, "{:?} {} {:?}", a, stringify!($opa), b);
                rec.steps(6);
            }};
        }
        op!(& &= x & y);
        op!(| |= x | y);
        op!(^ ^= x ^ y);
        rec.steps(12);
        rec.outcome(&(x, y));
        rec.compared();
        Ok(())
    }));
    sp.push(Space::new("type widths", "every primitive integer type", 1, |_, rec| {
        macro_rules! w {
            ($($t:ty)*) => {$(
                eqv!(<$t as IntegerBits>::BITS, std::mem::size_of::<$t>() * 8, "bits of {}", stringify!($t));
                for v in [<$t>::MIN, 0, 1, <$t>::MAX] {
                    eqv!(v.type_bits(), std::mem::size_of::<$t>() * 8, "type_bits of {}", v);
                    rec.step();
                }
                rec.distinct(4);
            )*};
        }
        w!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
        rec.compared();
        Ok(())
    }));
    Property { id: "C29", spaces: sp, assumptions: vec![] }
}
