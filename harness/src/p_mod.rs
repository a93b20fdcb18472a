//! C19 modular integers
use mccore::engine::*;
use mccore::ints::*;
use mccore::refmath::*;
use algebraics::mod_int::*;
use algebraics::traits::*;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, Signed, Zero};
use std::fmt::Debug;

struct Exp<V> {
    a: V,
    b: V,
    add: V,
    sub: V,
    mul: V,
    neg: V,
}
fn check_ring<V: Int + ModularReduce, M: Modulus<V> + Debug>(ra: &V, rb: &V, m: &M, e: &Exp<V>, rec: &mut Rec) -> Result<(), String> {
    let c = || format!("{} values {:?}, {:?} modulus {:?}", V::NAME, ra, rb, m);
    let a = ModularInteger::new(ra.clone(), m.clone());
    let b = ModularInteger::new(rb.clone(), m.clone());
    eqv!(a.value(), &e.a, "{} new", c());
    eqv!(b.value(), &e.b, "{} new", c());
    eqv!(a.modulus(), m, "{} modulus", c());
    ensure!(a.has_matching_moduli(&b), "{}: moduli do not match", c());
    // addition in all forms
    macro_rules! forms {
        ($op:tt, $asg:tt, $chk:ident, $exp:expr, $n:expr) => {{
            let ex = ModularInteger::new($exp.clone(), m.clone());
            eqv!(a.clone() $op b.clone(), ex, "{} {} move move", c(), $n);
            eqv!(a.clone() $op &b, ex, "{} {} move ref", c(), $n);
            eqv!(&a $op b.clone(), ex, "{} {} ref move", c(), $n);
            eqv!(&a $op &b, ex, "{} {} ref ref", c(), $n);
            let mut t = a.clone();
            t $asg b.clone();
            eqv!(t, ex, "{} {} assign move", c(), $n);
            let mut t = a.clone();
            t $asg &b;
            eqv!(t, ex, "{} {} assign ref", c(), $n);
            eqv!(a.$chk(&b), Some(ex), "{} {} checked", c(), $n);
            rec.steps(7);
        }};
    }
    forms!(+, +=, checked_add, e.add, "add");
    forms!(-, -=, checked_sub, e.sub, "sub");
    forms!(*, *=, checked_mul, e.mul, "mul");
    eqv!((-&a).value(), &e.neg, "{} neg ref", c());
    eqv!((-a.clone()).value(), &e.neg, "{} neg move", c());
    let mut t = a.clone();
    t.neg_assign();
    eqv!(t.value(), &e.neg, "{} neg_assign", c());
    let (v, mm): (V, M) = a.clone().into();
    eqv!(v, e.a, "{} into", c());
    eqv!(&mm, m, "{} into", c());
    eqv!(ModularInteger::from((ra.clone(), m.clone())), a, "{} from", c());
    rec.steps(6);
    Ok(())
}
/// division: `inv` is the exact inverse of b or None
fn check_div<V, M>(ra: &V, rb: &V, m: &M, quo: Option<V>, inv: Option<V>, rec: &mut Rec) -> Result<(), String>
where
    V: Int + ModularReduce + One + Zero + GCD<Output = V> + ExtendedGCD,
    M: Modulus<V> + Debug,
{
    let c = || format!("{} values {:?}, {:?} modulus {:?}", V::NAME, ra, rb, m);
    let a = ModularInteger::new(ra.clone(), m.clone());
    let b = ModularInteger::new(rb.clone(), m.clone());
    eqv!(b.checked_inverse().map(|v| v.value().clone()), inv, "{} checked_inverse", c());
    let q = quo.map(|v| ModularInteger::new(v, m.clone()));
    eqv!(a.checked_div(&b), q, "{} checked_div", c());
    eqv!(a.clone().checked_exact_div(b.clone()), q, "{} checked_exact_div move move", c());
    eqv!(a.clone().checked_exact_div(&b), q, "{} checked_exact_div move ref", c());
    eqv!((&a).checked_exact_div(b.clone()), q, "{} checked_exact_div ref move", c());
    eqv!((&a).checked_exact_div(&b), q, "{} checked_exact_div ref ref", c());
    let mut t = a.clone();
    let r = t.checked_exact_div_assign(&b);
    eqv!(r.is_ok(), q.is_some(), "{} checked_exact_div_assign", c());
    eqv!(t, q.clone().unwrap_or(a.clone()), "{} checked_exact_div_assign", c());
    let mut t = a.clone();
    let r = t.checked_exact_div_assign(b.clone());
    eqv!(r.is_ok(), q.is_some(), "{} checked_exact_div_assign move", c());
    eqv!(t, q.clone().unwrap_or(a.clone()), "{} checked_exact_div_assign move", c());
    rec.steps(8);
    if let Some(q) = q {
        eqv!(&a / &b, q, "{} ref / ref", c());
        eqv!(a.clone() / &b, q, "{} move / ref", c());
        eqv!(&a / b.clone(), q, "{} ref / move", c());
        eqv!(a.clone() / b.clone(), q, "{} move / move", c());
        let mut t = a.clone();
        t /= &b;
        eqv!(t, q, "{} /= ref", c());
        let mut t = a.clone();
        t /= b.clone();
        eqv!(t, q, "{} /= move", c());
        let mut t = a.clone();
        t.exact_div_assign(&b);
        eqv!(t, q, "{} exact_div_assign", c());
        eqv!((&a).exact_div(&b), q, "{} exact_div", c());
        eqv!(b.inverse().value().clone(), inv.unwrap(), "{} inverse", c());
        rec.steps(9);
    } else {
        ensure!(catch(|| &a / &b).is_err(), "{}: division by a non-invertible value answered", c());
        ensure!(catch(|| b.inverse()).is_err(), "{}: inverse of a non-invertible value answered", c());
        rec.steps(2);
    }
    Ok(())
}
fn inv_mod(b: &BigInt, m: &BigInt) -> Option<BigInt> {
    // brute definition through the extended Euclid on integers
    let e = b.extended_gcd_(m);
    if e.0.is_one() {
        Some(e.1.mod_floor(m))
    } else {
        None
    }
}
trait Egcd {
    fn extended_gcd_(&self, m: &BigInt) -> (BigInt, BigInt);
}
impl Egcd for BigInt {
    fn extended_gcd_(&self, m: &BigInt) -> (BigInt, BigInt) {
        let (mut r0, mut r1) = (self.clone(), m.clone());
        let (mut s0, mut s1) = (BigInt::one(), BigInt::zero());
        while !r1.is_zero() {
            let q = r0.div_floor(&r1);
            let r = &r0 - &q * &r1;
            r0 = r1;
            r1 = r;
            let s = &s0 - &q * &s1;
            s0 = s1;
            s1 = s;
        }
        if r0.is_negative() {
            (-r0, -s0)
        } else {
            (r0, s0)
        }
    }
}
fn exp_of<V: Int>(a: &BigInt, b: &BigInt, m: &BigInt) -> Exp<V> {
    let f = |v: BigInt| V::from_big(&v.mod_floor(m)).unwrap();
    Exp { a: f(a.clone()), b: f(b.clone()), add: f(a + b), sub: f(a - b), mul: f(a * b), neg: f(-a) }
}
fn ring_space<V: Int + ModularReduce + Modulus<V> + Sync + Send>(name: &str, bound: &str, ms: Vec<V>, vs: Vec<V>) -> Space
where
    V: ModularReduce,
{
    let n = vs.len();
    Space::new(name, bound, (ms.len() * n) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let m = &ms[ix.take(ms.len())];
        let a = &vs[ix.take(n)];
        let mb = m.big();
        let ab = a.big();
        for b in &vs {
            let bb = b.big();
            let e = exp_of::<V>(&ab, &bb, &mb);
            check_ring(a, b, m, &e, rec)?;
            rec.distinct(1);
            rec.outcome(&(&e.add, &e.mul));
        }
        rec.compared();
        rec.sample(|| format!("{} modulus {:?} a {:?} against {} b", V::NAME, m, a, n));
        Ok(())
    })
}
fn div_space<V>(name: &str, bound: &str, ms: Vec<V>, vs: Vec<V>) -> Space
where
    V: Int + ModularReduce + Modulus<V> + Sync + Send + One + Zero + GCD<Output = V> + ExtendedGCD,
{
    let n = vs.len();
    let ms: Vec<V> = ms.into_iter().filter(|m| m.big() >= bi(2)).collect();
    Space::new(name, bound, (ms.len() * n) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let m = &ms[ix.take(ms.len())];
        let b = &vs[ix.take(n)];
        let mb = m.big();
        let inv = inv_mod(&b.big(), &mb);
        for a in &vs {
            let quo = inv.as_ref().map(|v| V::from_big(&(a.big() * v).mod_floor(&mb)).unwrap());
            check_div(a, b, m, quo, inv.as_ref().map(|v| V::from_big(v).unwrap()), rec)?;
            rec.distinct(1);
        }
        rec.outcome(&inv);
        rec.compared();
        rec.sample(|| format!("{} modulus {:?} divisor {:?} inverse {:?}", V::NAME, m, b, inv));
        Ok(())
    })
}
fn pow_ref(a: &BigInt, e: &BigInt, m: &BigInt) -> BigInt {
    let mut r = BigInt::one().mod_floor(m);
    let mut b = a.mod_floor(m);
    let mut e = e.clone();
    while !e.is_zero() {
        if e.is_odd() {
            r = (r * &b).mod_floor(m);
        }
        b = (&b * &b).mod_floor(m);
        e = e / 2;
    }
    r
}
fn pow_space<V, X>(name: &str, bound: &str, ms: Vec<V>, vs: Vec<V>, xs: Vec<X>) -> Space
where
    V: Int + ModularReduce + Modulus<V> + ModularReducePow<X> + Sync + Send,
    X: Int + Sync + Send,
{
    let n = vs.len();
    let total = (ms.len() * n) as u64;
    Space::new(name, bound, total, move |i, rec| {
        let mut ix = Ix(i);
        let m = &ms[ix.take(ms.len())];
        let a = &vs[ix.take(n)];
        for x in &xs {
            let ex = V::from_big(&pow_ref(&a.big(), &x.big(), &m.big())).unwrap();
            let got = a.pow_modular_reduce(x, m);
            eqv!(got, ex, "{} {:?} pow {:?} mod {:?}", V::NAME, a, x, m);
            rec.step();
            rec.distinct(1);
            rec.outcome(&ex);
        }
        rec.compared();
        rec.sample(|| format!("{} {:?}^{}.. mod {:?}", V::NAME, a, xs.len(), m));
        Ok(())
    })
}
fn from_space<V>(name: &str, ms: Vec<V>) -> Space
where
    V: Int + ModularReduce + Modulus<V> + Sync + Send,
{
    let total = ms.len() as u64;
    Space::new(name, "every positive boundary modulus x boundary values of every primitive type and big integers", total, move |i, rec| {
        let m = &ms[i as usize];
        let mb = m.big();
        macro_rules! one {
            ($t:ty, $f:ident, $g:ident) => {
                for v in boundary::<$t>() {
                    let ex = V::from_big(&v.big().mod_floor(&mb)).unwrap();
                    eqv!(ModularInteger::<V, V>::$f(v.clone(), m.clone()).value(), &ex, "{} {}({:?}) mod {:?}", V::NAME, stringify!($f), v, m);
                    eqv!(V::$g(v.clone(), m.clone()), ex, "{} {}({:?}) mod {:?}", V::NAME, stringify!($g), v, m);
                    rec.steps(2);
                    rec.distinct(1);
                    rec.outcome(&ex);
                }
            };
        }
        one!(u8, from_u8, modular_reduce_from_u8);
        one!(i8, from_i8, modular_reduce_from_i8);
        one!(u16, from_u16, modular_reduce_from_u16);
        one!(i16, from_i16, modular_reduce_from_i16);
        one!(u32, from_u32, modular_reduce_from_u32);
        one!(i32, from_i32, modular_reduce_from_i32);
        one!(u64, from_u64, modular_reduce_from_u64);
        one!(i64, from_i64, modular_reduce_from_i64);
        one!(u128, from_u128, modular_reduce_from_u128);
        one!(i128, from_i128, modular_reduce_from_i128);
        one!(usize, from_usize, modular_reduce_from_usize);
        one!(isize, from_isize, modular_reduce_from_isize);
        for v in boundary::<BigInt>() {
            let ex = V::from_big(&v.mod_floor(&mb)).unwrap();
            eqv!(ModularInteger::<V, V>::from_bigint(&v, m.clone()).value(), &ex, "{} from_bigint({}) mod {:?}", V::NAME, v, m);
            rec.step();
            rec.distinct(1);
        }
        for v in boundary::<BigUint>() {
            let ex = V::from_big(&v.big().mod_floor(&mb)).unwrap();
            eqv!(ModularInteger::<V, V>::from_biguint(&v, m.clone()).value(), &ex, "{} from_biguint({}) mod {:?}", V::NAME, v, m);
            rec.step();
            rec.distinct(1);
        }
        rec.compared();
        rec.sample(|| format!("{} modulus {:?}", V::NAME, m));
        Ok(())
    })
}
fn mismatch<V>() -> Space
where
    V: Int + ModularReduce + Modulus<V> + Sync + Send,
{
    let ms: Vec<V> = range(1, 8);
    let n = ms.len() as u64;
    Space::new(&format!("mismatch-{}", V::NAME), "all ordered pairs of distinct moduli 1..=8, values 0..=8", n * n, move |i, rec| {
        let mut ix = Ix(i);
        let (m1, m2) = (&ms[ix.take(ms.len())], &ms[ix.take(ms.len())]);
        if m1 == m2 {
            return Ok(());
        }
        for a in range::<V>(0, 8) {
            for b in range::<V>(0, 8) {
                let x = ModularInteger::new(a.clone(), m1.clone());
                let y = ModularInteger::new(b.clone(), m2.clone());
                ensure!(!x.has_matching_moduli(&y), "moduli {:?} and {:?} match", m1, m2);
                ensure!(x.checked_add(&y).is_none() && x.checked_sub(&y).is_none() && x.checked_mul(&y).is_none(), "{} checked op with moduli {:?} and {:?} answered", V::NAME, m1, m2);
                ensure!(catch(|| &x + &y).is_err() && catch(|| &x - &y).is_err() && catch(|| &x * &y).is_err(), "{} op with moduli {:?} and {:?} answered", V::NAME, m1, m2);
                ensure!(catch(|| x.clone() + y.clone()).is_err() && catch(|| x.clone() - &y).is_err() && catch(|| &x * y.clone()).is_err(), "{} op with moduli {:?} and {:?} answered", V::NAME, m1, m2);
                let mut t = x.clone();
                ensure!(catch(|| t += &y).is_err(), "{} += with different moduli answered", V::NAME);
                let mut t = x.clone();
                ensure!(catch(|| t -= y.clone()).is_err(), "{} -= with different moduli answered", V::NAME);
                let mut t = x.clone();
                ensure!(catch(|| t *= &y).is_err(), "{} *= with different moduli answered", V::NAME);
                ensure!(x != y, "values of different rings compare equal");
                rec.steps(12);
                rec.distinct(1);
            }
        }
        rec.compared();
        rec.outcome(&1);
        Ok(())
    })
}
fn statics<V>() -> Space
where
    V: Int + ModularReduce + Sync + Send + Modulus<V> + Integer + std::fmt::Display,
    Mod1: StaticModulus<V>, Mod2: StaticModulus<V> + PrimeModulus<V>, Mod3: StaticModulus<V> + PrimeModulus<V>, Mod4: StaticModulus<V> + PrimePowerModulus<V>,
    Mod5: StaticModulus<V> + PrimeModulus<V>, Mod6: StaticModulus<V>, Mod7: StaticModulus<V> + PrimeModulus<V>, Mod8: StaticModulus<V> + PrimePowerModulus<V>,
    Mod9: StaticModulus<V> + PrimePowerModulus<V>, Mod10: StaticModulus<V>, Mod11: StaticModulus<V> + PrimeModulus<V>, Mod12: StaticModulus<V>,
    Mod13: StaticModulus<V> + PrimeModulus<V>, Mod14: StaticModulus<V>, Mod15: StaticModulus<V>, Mod16: StaticModulus<V> + PrimePowerModulus<V>,
{
    let vs: Vec<V> = range(-20, 20);
    Space::new(&format!("static-{}", V::NAME), "the 16 static moduli x all values -20..=20 squared; prime and odd wrappers", 16, move |i, rec| {
        fn go<V: Int + ModularReduce + std::fmt::Display, M: StaticModulus<V> + Debug + std::fmt::Display>(m: M, n: i64, vs: &[V], rec: &mut Rec) -> Result<(), String> {
            let nb = bi(n);
            eqv!(M::get_modulus().big(), nb, "static modulus");
            eqv!(m.to_modulus().big(), nb, "static modulus");
            eqv!(KnownPrime::new_unsafe(m).to_modulus().big(), nb, "KnownPrime");
            eqv!(KnownOdd::new_unsafe(m).to_modulus().big(), nb, "KnownOdd");
            for a in vs {
                let text = format!("mod_int({}, {})", a.big().mod_floor(&nb), n);
                eqv!(ModularInteger::<V, M>::new(a.clone(), m).to_string(), text, "Display with a static modulus");
                eqv!(ModularInteger::<V, _>::new(a.clone(), KnownPrime::new_unsafe(m)).to_string(), text, "Display with a KnownPrime modulus");
                eqv!(ModularInteger::<V, _>::new(a.clone(), KnownOdd::new_unsafe(m)).to_string(), text, "Display with a KnownOdd modulus");
                rec.steps(3);
                for b in vs {
                    let e = exp_of::<V>(&a.big(), &b.big(), &nb);
                    check_ring(a, b, &m, &e, rec)?;
                    check_ring(a, b, &KnownPrime::new_unsafe(m), &e, rec)?;
                    rec.distinct(1);
                }
            }
            rec.outcome(&n);
            Ok(())
        }
        fn pp<V: Int + Integer, M: PrimePowerModulus<V>>(m: M, base: i64, e: usize) -> Result<(), String> {
            let x = m.base_and_exponent();
            ensure!(x.base.big() == bi(base) && x.exponent == e, "base and exponent of a static modulus: {:?} {}", x.base, x.exponent);
            Ok(())
        }
        match i + 1 {
            1 => go::<V, _>(Mod1, 1, &vs, rec)?,
            2 => { go::<V, _>(Mod2, 2, &vs, rec)?; pp::<V, _>(Mod2, 2, 1)? }
            3 => { go::<V, _>(Mod3, 3, &vs, rec)?; pp::<V, _>(Mod3, 3, 1)? }
            4 => { go::<V, _>(Mod4, 4, &vs, rec)?; pp::<V, _>(Mod4, 2, 2)? }
            5 => { go::<V, _>(Mod5, 5, &vs, rec)?; pp::<V, _>(Mod5, 5, 1)? }
            6 => go::<V, _>(Mod6, 6, &vs, rec)?,
            7 => { go::<V, _>(Mod7, 7, &vs, rec)?; pp::<V, _>(Mod7, 7, 1)?; pp::<V, _>(KnownPrime::new_unsafe(Mod7), 7, 1)? }
            8 => { go::<V, _>(Mod8, 8, &vs, rec)?; pp::<V, _>(Mod8, 2, 3)? }
            9 => { go::<V, _>(Mod9, 9, &vs, rec)?; pp::<V, _>(Mod9, 3, 2)? }
            10 => go::<V, _>(Mod10, 10, &vs, rec)?,
            11 => { go::<V, _>(Mod11, 11, &vs, rec)?; pp::<V, _>(Mod11, 11, 1)? }
            12 => go::<V, _>(Mod12, 12, &vs, rec)?,
            13 => { go::<V, _>(Mod13, 13, &vs, rec)?; pp::<V, _>(Mod13, 13, 1)? }
            14 => go::<V, _>(Mod14, 14, &vs, rec)?,
            15 => go::<V, _>(Mod15, 15, &vs, rec)?,
            _ => { go::<V, _>(Mod16, 16, &vs, rec)?; pp::<V, _>(Mod16, 2, 4)? }
        }
        rec.compared();
        Ok(())
    })
}
fn pos<V: Int>(v: Vec<V>) -> Vec<V> {
    v.into_iter().filter(|x| x.big().is_positive()).collect()
}

pub fn c19(tier: Tier) -> Property {
    let mut sp = vec![];
    // exhaustive small types
    sp.push(ring_space::<i8>("ring-i8-all", "all moduli 1..=127, all residues pairs (values 0..=127)", pos(range(1, 127)), range(tier.pick(-6, -128), 127)));
    sp.push(ring_space::<u8>("ring-u8-all", "all moduli 1..=255 (quick: every 3rd), all value pairs 0..=255 (quick: every 5th and 250..)",
        range::<u8>(1, 255).into_iter().filter(|m| tier == Tier::Thorough || m % 3 == 0 || *m > 250 || *m < 20).collect(),
        range::<u8>(0, 255).into_iter().filter(|m| tier == Tier::Thorough || m % 5 == 0 || *m > 250 || *m < 20).collect()));
    sp.push(div_space::<i8>("div-i8-all", "all moduli 2..=127, all divisors -128..=127 (quick -6..), all dividends", range(2, 127), range(tier.pick(-6, -128), 127)));
    macro_rules! per_type {
        ($($t:ty),*) => {$(
            sp.push(ring_space::<$t>(concat!("ring-small-", stringify!($t)), "all moduli 1..=16, all values -20..=20", pos(range(1, 16)), range(-20, 20)));
            sp.push(ring_space::<$t>(concat!("ring-boundary-", stringify!($t)), "all boundary moduli x all boundary value pairs", pos(boundary()), boundary()));
            sp.push(pow_space::<$t, usize>(concat!("pow-small-", stringify!($t)), "all moduli 1..=16, values -20..=20, exponents 0..=40", pos(range(1, 16)), range(-20, 20), range(0, 40)));
            sp.push(pow_space::<$t, u64>(concat!("pow-boundary-", stringify!($t)), "boundary moduli x boundary values x boundary exponents", pos(boundary()), boundary(), boundary()));
            sp.push(from_space::<$t>(concat!("from-", stringify!($t)), pos(boundary())));
            sp.push(mismatch::<$t>());
            sp.push(statics::<$t>());
        )*};
    }
    per_type!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint);
    macro_rules! per_signed {
        ($($t:ty),*) => {$(
            sp.push(div_space::<$t>(concat!("div-small-", stringify!($t)), "all moduli 2..=30, all values -31..=31", range(2, 30), range(-31, 31)));
            sp.push(div_space::<$t>(concat!("div-boundary-", stringify!($t)), "all boundary moduli x all boundary value pairs", pos(boundary()), boundary()));
        )*};
    }
    per_signed!(i16, i32, i64, i128, isize, BigInt);
    sp.push(pow_space::<i8, i8>("pow-i8-i8", "all moduli 1..=127, values -128..=127, all exponents 0..=127", pos(range(1, 127)), range(-128, 127), range(0, 127)));
    sp.push(pow_space::<u8, BigInt>("pow-u8-big", "all moduli 1..=255, all values 0..=255, exponents 0..=18 and big", range(1, 255), range(0, 255), {
        let mut v: Vec<BigInt> = (0..=18).map(bi).collect();
        v.extend([254i64, 255, 256, 65535].map(bi));
        v.push((BigInt::one() << 70u32) + 5);
        v
    }));
    Property { id: "C19", spaces: sp, assumptions: vec!["moduli are positive; inverses and quotients are checked for moduli of at least two".into(), "num-bigint arithmetic (shared with the oracle) is correct".into()] }
}
