//! C08 interval arithmetic, C09 interval functions, C10 (sequential histories) cached constants
use mccore::engine::*;
use mccore::refmath::*;
use algebraics::interval_arithmetic::DyadicFractionInterval as I;
use algebraics::traits::*;
use num_bigint::{BigInt, BigUint};
use num_rational::Ratio;
use num_traits::{One, Pow, Signed, Zero};

/// exact interval
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct X {
    lo: Q,
    hi: Q,
}
/// dyadic interval as plain data: lower numerator, upper numerator, log2 of the denominator
pub type D = (BigInt, BigInt, usize);
pub fn mk(d: &D) -> I {
    I::new(d.0.clone(), d.1.clone(), d.2)
}
pub fn un(i: &I) -> D {
    i.clone().destructure()
}
pub fn ex(d: &D) -> X {
    let s = pow2(-(d.2 as i64));
    X { lo: Q::from_integer(d.0.clone()) * &s, hi: Q::from_integer(d.1.clone()) * s }
}
fn round_out(x: &X, k: usize) -> D {
    (floor_at(&x.lo, k), ceil_at(&x.hi, k), k)
}
fn hull(v: &[Q]) -> X {
    X { lo: v.iter().min().unwrap().clone(), hi: v.iter().max().unwrap().clone() }
}
fn mulx(a: &X, b: &X) -> X {
    hull(&[&a.lo * &b.lo, &a.lo * &b.hi, &a.hi * &b.lo, &a.hi * &b.hi])
}
fn has_zero(a: &X) -> bool {
    !a.lo.is_positive() && !a.hi.is_negative()
}
fn recipx(a: &X) -> X {
    X { lo: a.hi.recip(), hi: a.lo.recip() }
}
fn inside(inner: &X, outer: &X) -> bool {
    outer.lo <= inner.lo && inner.hi <= outer.hi
}
fn valid(d: &D) -> Result<(), String> {
    ensure!(d.0 <= d.1, "bounds out of order: {:?}", d);
    Ok(())
}
fn powx(a: &X, n: u64) -> X {
    let (l, h) = (qpow(&a.lo, n), qpow(&a.hi, n));
    if n == 0 {
        return X { lo: Q::one(), hi: Q::one() };
    }
    if n % 2 == 1 {
        X { lo: l, hi: h }
    } else if has_zero(a) {
        X { lo: Q::zero(), hi: l.max(h) }
    } else {
        hull(&[l, h])
    }
}

fn small_intervals(n: i64, denoms: &[usize]) -> Vec<D> {
    let mut v = vec![];
    for &d in denoms {
        for lo in -n..=n {
            for hi in lo..=n {
                v.push((bi(lo), bi(hi), d));
            }
        }
    }
    v
}
fn big_intervals() -> Vec<D> {
    let one = BigInt::one();
    let mut b: Vec<BigInt> = vec![bi(0), bi(1), bi(2), bi(3)];
    for k in [31u32, 32, 63, 64, 65] {
        for d in [-1i64, 0, 1] {
            if k != 65 || d == 1 {
                b.push((&one << k) + d);
            }
        }
    }
    let mut c: Vec<BigInt> = b.iter().map(|x| -x).collect();
    c.extend(b);
    c.sort();
    c.dedup();
    let mut v = vec![];
    for (i, lo) in c.iter().enumerate() {
        for hi in c[i..].iter() {
            // thin out: points, and pairs of bounds of different size classes
            let keep = lo == hi || (lo.bits() + 3 * hi.bits()) % 5 == 0 || lo.is_zero() || hi.is_zero();
            if keep {
                for d in [0usize, 1, 31, 32, 63, 64, 65] {
                    if (lo.bits() as usize + 2 * hi.bits() as usize + d) % 6 < 2 || lo == hi {
                        v.push((lo.clone(), hi.clone(), d));
                    }
                }
            }
        }
    }
    v
}
fn sh(d: &D) -> String {
    format!("[{}, {}]/2^{}", d.0, d.1, d.2)
}

macro_rules! six {
    ($rec:expr, $a:expr, $b:expr, $op:tt, $asg:tt, $want:expr, $n:expr) => {{
        let (a, b) = (&$a, &$b);
        let first = un(&(a $op b));
        $want(&first)?;
        eqv!(un(&(a.clone() $op b)), first, "{} move ref", $n());
        eqv!(un(&(a $op b.clone())), first, "{} ref move", $n());
        eqv!(un(&(a.clone() $op b.clone())), first, "{} move move", $n());
        let mut t = a.clone();
        t $asg b;
        eqv!(un(&t), first, "{} assign ref", $n());
        let mut t = a.clone();
        t $asg b.clone();
        eqv!(un(&t), first, "{} assign move", $n());
        $rec.steps(6);
        first
    }};
}

fn binary_case(da: &D, db: &D, rec: &mut Rec) -> Result<(), String> {
    let (a, b) = (mk(da), mk(db));
    let (xa, xb) = (ex(da), ex(db));
    let k = da.2.max(db.2);
    let same = |name: &'static str, want: D| {
        let (da, db) = (da.clone(), db.clone());
        move |got: &D| -> Result<(), String> {
            ensure!(*got == want, "{} {} {}: got {}, the tightest enclosure is {}", sh(&da), name, sh(&db), sh(got), sh(&want));
            Ok(())
        }
    };
    let n = |o: &'static str| move || format!("{} {} {}", sh(da), o, sh(db));
    six!(rec, a, b, +, +=, same("+", round_out(&X { lo: &xa.lo + &xb.lo, hi: &xa.hi + &xb.hi }, k)), n("+"));
    six!(rec, a, b, -, -=, same("-", round_out(&X { lo: &xa.lo - &xb.hi, hi: &xa.hi - &xb.lo }, k)), n("-"));
    let m = six!(rec, a, b, *, *=, same("*", round_out(&mulx(&xa, &xb), k)), n("*"));
    rec.outcome(&m);
    // union
    let want = round_out(&hull(&[xa.lo.clone(), xa.hi.clone(), xb.lo.clone(), xb.hi.clone()]), k);
    let u = |g: D, f: &str| -> Result<(), String> {
        ensure!(g == want, "union ({}) of {} and {}: got {}, expected {}", f, sh(da), sh(db), sh(&g), sh(&want));
        Ok(())
    };
    u(un(&(&a).interval_union(&b)), "ref ref")?;
    u(un(&a.clone().interval_union(&b)), "move ref")?;
    u(un(&(&a).interval_union(b.clone())), "ref move")?;
    u(un(&a.clone().interval_union(b.clone())), "move move")?;
    let mut t = a.clone();
    t.interval_union_assign(&b);
    u(un(&t), "assign ref")?;
    let mut t = a.clone();
    t.interval_union_assign(b.clone());
    u(un(&t), "assign move")?;
    rec.steps(6);
    ensure!(a.is_same(&b) == (da == db), "is_same of {} and {}", sh(da), sh(db));
    // division
    let dn = n("/");
    if has_zero(&xb) {
        ensure!((&a).checked_exact_div(&b).is_none(), "{} answered", dn());
        ensure!(a.clone().checked_exact_div(b.clone()).is_none(), "{} answered", dn());
        let mut t = a.clone();
        ensure!(t.checked_exact_div_assign(&b).is_err(), "{} answered", dn());
        eqv!(un(&t), *da, "{}: failed division changed the dividend", dn());
        let mut t = a.clone();
        ensure!(t.checked_exact_div_assign(b.clone()).is_err(), "{} answered", dn());
        ensure!(catch(|| &a / &b).is_err(), "{} answered", dn());
        rec.steps(5);
    } else {
        let exact = mulx(&xa, &recipx(&xb));
        let outer = round_out(&mulx(&xa, &ex(&round_out(&recipx(&xb), db.2))), k);
        let tight = |got: &D| -> Result<(), String> {
            ensure!(got.2 == k, "{}: precision {}, expected {}", dn(), got.2, k);
            ensure!(inside(&exact, &ex(got)), "{}: {} misses possible quotients {} .. {}", dn(), sh(got), exact.lo, exact.hi);
            ensure!(inside(&ex(got), &ex(&outer)), "{}: {} is wider than {}", dn(), sh(got), sh(&outer));
            Ok(())
        };
        let f = six!(rec, a, b, /, /=, tight, &dn);
        eqv!((&a).checked_exact_div(&b).as_ref().map(un), Some(f.clone()), "{} checked", dn());
        eqv!((&a).checked_exact_div(b.clone()).as_ref().map(un), Some(f.clone()), "{} checked", dn());
        eqv!(a.clone().checked_exact_div(b.clone()).as_ref().map(un), Some(f.clone()), "{} checked", dn());
        eqv!(un(&a.clone().exact_div(&b)), f, "{} exact_div", dn());
        let mut t = a.clone();
        ensure!(t.checked_exact_div_assign(&b).is_ok(), "{} refused", dn());
        eqv!(un(&t), f, "{} checked assign", dn());
        rec.steps(5);
    }
    rec.state(&(da, db));
    rec.compared();
    rec.sample(|| format!("{} with {}", sh(da), sh(db)));
    Ok(())
}

fn unary_case(d: &D, ks: &[usize], rec: &mut Rec) -> Result<(), String> {
    let a = mk(d);
    let x = ex(d);
    let k = d.2;
    let c = || sh(d);
    eqv!(un(&-&a), (-&d.1, -&d.0, k), "-{}", c());
    eqv!(un(&-a.clone()), (-&d.1, -&d.0, k), "-{}", c());
    // abs
    let ab = if has_zero(&x) { X { lo: Q::zero(), hi: x.lo.abs().max(x.hi.abs()) } } else { hull(&[x.lo.abs(), x.hi.abs()]) };
    let want = round_out(&ab, k);
    eqv!(un(&a.abs()), want, "abs {}", c());
    eqv!(un(&a.clone().into_abs()), want, "into_abs {}", c());
    let mut t = a.clone();
    t.abs_assign();
    eqv!(un(&t), want, "abs_assign {}", c());
    // square
    let want = round_out(&powx(&x, 2), k);
    eqv!(un(&a.square()), want, "square {}", c());
    eqv!(un(&a.clone().into_square()), want, "into_square {}", c());
    let mut t = a.clone();
    t.square_assign();
    eqv!(un(&t), want, "square_assign {}", c());
    // reciprocal
    ensure!(a.contains_zero() == has_zero(&x), "contains_zero {}", c());
    if has_zero(&x) {
        ensure!(a.checked_recip().is_none(), "reciprocal of {} answered", c());
        ensure!(catch(|| a.recip()).is_err(), "reciprocal of {} answered", c());
    } else {
        let want = round_out(&recipx(&x), k);
        eqv!(a.checked_recip().as_ref().map(un), Some(want.clone()), "checked_recip {}", c());
        eqv!(un(&a.recip()), want, "recip {}", c());
    }
    rec.steps(13);
    // conversions
    for &nk in ks {
        let want = round_out(&x, nk);
        eqv!(un(&a.to_converted_log2_denom(nk)), want, "{} converted to {}", c(), nk);
        eqv!(un(&a.clone().into_converted_log2_denom(nk)), want, "{} converted to {}", c(), nk);
        let mut t = a.clone();
        t.convert_log2_denom(nk);
        eqv!(un(&t), want, "{} converted to {}", c(), nk);
        let fl = X { lo: Q::from_integer(floor_q(&x.lo)), hi: Q::from_integer(floor_q(&x.hi)) };
        let want = round_out(&fl, nk);
        eqv!(un(&a.floor(nk)), want, "floor {} at {}", c(), nk);
        eqv!(un(&a.clone().into_floor(nk)), want, "floor {} at {}", c(), nk);
        let mut t = a.clone();
        t.floor_assign(nk);
        eqv!(un(&t), want, "floor {} at {}", c(), nk);
        let ce = X { lo: Q::from_integer(ceil_q(&x.lo)), hi: Q::from_integer(ceil_q(&x.hi)) };
        let want = round_out(&ce, nk);
        eqv!(un(&a.ceil(nk)), want, "ceil {} at {}", c(), nk);
        eqv!(un(&a.clone().into_ceil(nk)), want, "ceil {} at {}", c(), nk);
        let mut t = a.clone();
        t.ceil_assign(nk);
        eqv!(un(&t), want, "ceil {} at {}", c(), nk);
        eqv!(un(&I::from_ratio_range(x.lo.clone(), x.hi.clone(), nk)), round_out(&x, nk), "from_ratio_range {} {}", x.lo, x.hi);
        eqv!(un(&I::from_ratio(x.lo.clone(), nk)), round_out(&X { lo: x.lo.clone(), hi: x.lo.clone() }, nk), "from_ratio {}", x.lo);
        let third = &x.hi / qi(3);
        eqv!(un(&I::from_ratio(third.clone(), nk)), round_out(&X { lo: third.clone(), hi: third.clone() }, nk), "from_ratio {}", third);
        let l3 = &x.lo / qi(3);
        eqv!(un(&I::from_ratio_range(l3.clone(), third.clone(), nk)), round_out(&X { lo: l3.clone(), hi: third.clone() }, nk), "from_ratio_range {} {}", l3, third);
        rec.steps(13);
    }
    // construction and access
    eqv!((a.lower_bound(), a.upper_bound()), (x.lo.clone(), x.hi.clone()), "bounds of {}", c());
    eqv!((a.clone().into_lower_bound(), a.clone().into_upper_bound()), (x.lo.clone(), x.hi.clone()), "bounds of {}", c());
    eqv!(a.to_ratio_range(), (x.lo.clone(), x.hi.clone()), "range of {}", c());
    eqv!(a.clone().into_ratio_range(), (x.lo.clone(), x.hi.clone()), "range of {}", c());
    eqv!((a.lower_bound_numer(), a.upper_bound_numer(), a.log2_denom()), (&d.0, &d.1, d.2), "parts of {}", c());
    let p = |n: &BigInt| (n.clone(), n.clone(), k);
    let one = BigInt::one() << k;
    eqv!(un(&I::from_int(d.0.clone(), k)), p(&(&d.0 << k)), "from_int {}", d.0);
    eqv!(un(&I::from_int_range(d.0.clone(), d.1.clone(), k)), (&d.0 << k, &d.1 << k, k), "from_int_range {}", c());
    eqv!(un(&I::from_dyadic_fraction(d.1.clone(), k)), p(&d.1), "from_dyadic_fraction {}", c());
    eqv!(un(&I::zero(k)), p(&bi(0)), "zero");
    eqv!(un(&I::one(k)), p(&one), "one");
    eqv!(un(&I::negative_one(k)), p(&-one.clone()), "negative_one");
    macro_rules! set {
        ($f:ident ($($x:expr),*), $w:expr) => {{
            let mut t = a.clone();
            t.$f($($x),*);
            eqv!(un(&t), $w, "{} of {}", stringify!($f), c());
        }};
    }
    set!(set_zero(), p(&bi(0)));
    set!(set_one(), p(&one));
    set!(set_negative_one(), p(&-one.clone()));
    set!(set_to_lower_bound(), p(&d.0));
    set!(set_to_upper_bound(), p(&d.1));
    set!(set_lower_bound_numer(d.1.clone()), p(&d.1));
    set!(set_upper_bound_numer(d.0.clone()), p(&d.0));
    let mut t = a.clone();
    ensure!(catch(|| t.set_lower_bound_numer(&d.1 + 1)).is_err(), "lower bound above upper bound accepted");
    let mut t = a.clone();
    ensure!(catch(|| t.set_upper_bound_numer(&d.0 - 1)).is_err(), "upper bound below lower bound accepted");
    if !d.1.is_negative() {
        set!(set_lower_bound_to_zero(), (bi(0), d.1.clone(), k));
    }
    if !d.0.is_positive() {
        set!(set_upper_bound_to_zero(), (d.0.clone(), bi(0), k));
    }
    eqv!(format!("{}", a), format!("[{} / 2^{}, {} / 2^{}]", d.0, k, d.1, k), "Display");
    rec.steps(25);
    rec.state(d);
    rec.outcome(&want);
    rec.compared();
    rec.sample(|| sh(d));
    Ok(())
}

fn pow_case(d: &D, n: i64, rec: &mut Rec) -> Result<(), String> {
    let a = mk(d);
    let x = ex(d);
    let c = || format!("{} ^ {}", sh(d), n);
    let k = d.2;
    rec.state(&(d, n));
    if n < 0 && has_zero(&x) {
        ensure!(catch(|| (&a).pow(n)).is_err(), "{} answered", c());
        rec.step();
        rec.compared();
        return Ok(());
    }
    let base = if n < 0 { ex(&round_out(&recipx(&x), k)) } else { x.clone() };
    let e = n.unsigned_abs();
    let exact = if n < 0 { powx(&recipx(&x), e) } else { powx(&x, e) };
    let got = un(&(&a).pow(n));
    valid(&got)?;
    ensure!(got.2 == k, "{}: precision {}", c(), got.2);
    ensure!(inside(&exact, &ex(&got)), "{}: {} misses possible values {} .. {}", c(), sh(&got), exact.lo, exact.hi);
    // every multiplication may round outward by one unit, scaled by the remaining factors
    let nominal = powx(&base, e);
    let ulp = pow2(-(k as i64));
    let m = (base.lo.abs().max(base.hi.abs()) + &ulp).max(Q::one());
    let slack = if e <= 1 { Q::zero() } else { qi(4 * e as i64) * &ulp * qpow(&m, e) };
    let outer = X { lo: &nominal.lo - &slack, hi: &nominal.hi + &slack };
    ensure!(inside(&ex(&got), &outer), "{}: {} is much wider than {} .. {}", c(), sh(&got), nominal.lo, nominal.hi);
    eqv!(un(&a.clone().pow(n)), got, "{} by value", c());
    eqv!(un(&(&a).pow(n as i32)), got, "{} i32 exponent", c());
    eqv!(un(&(&a).pow(n as i8)), got, "{} i8 exponent", c());
    eqv!(un(&(&a).pow(bi(n))), got, "{} BigInt exponent", c());
    if n >= 0 {
        eqv!(un(&(&a).pow(n as u8)), got, "{} u8 exponent", c());
        eqv!(un(&(&a).pow(n as usize)), got, "{} usize exponent", c());
        eqv!(un(&(&a).pow(BigUint::from(n as u64))), got, "{} BigUint exponent", c());
        rec.steps(3);
    }
    rec.steps(5);
    rec.outcome(&got);
    rec.compared();
    rec.sample(c);
    Ok(())
}

fn scalar_case(d: &D, num: &BigInt, den: &BigInt, rec: &mut Rec) -> Result<(), String> {
    let a = mk(d);
    let x = ex(d);
    let k = d.2;
    let r = Ratio::new(num.clone(), den.clone());
    let p = X { lo: r.clone(), hi: r.clone() };
    let want_add = round_out(&X { lo: &x.lo + &r, hi: &x.hi + &r }, k);
    let want_sub = round_out(&X { lo: &x.lo - &r, hi: &x.hi - &r }, k);
    let want_mul = round_out(&mulx(&x, &p), k);
    let want_div = if r.is_zero() { None } else { Some(round_out(&mulx(&x, &recipx(&p)), k)) };
    macro_rules! with {
        ($s:expr, $ty:expr) => {{
            let s = $s;
            let name = |o: &'static str| { let (d, r) = (d.clone(), r.clone()); move || format!("{} {} {} ({})", sh(&d), o, r, $ty) };
            let same = |name: &'static str, want: D| {
                let (d, r) = (d.clone(), r.clone());
                move |got: &D| -> Result<(), String> {
                    ensure!(*got == want, "{} {} {} ({}): got {}, the tightest enclosure is {}", sh(&d), name, r, $ty, sh(got), sh(&want));
                    Ok(())
                }
            };
            six!(rec, a, s, +, +=, same("+", want_add.clone()), name("+"));
            six!(rec, a, s, -, -=, same("-", want_sub.clone()), name("-"));
            six!(rec, a, s, *, *=, same("*", want_mul.clone()), name("*"));
            match &want_div {
                Some(w) => { six!(rec, a, s, /, /=, same("/", w.clone()), name("/")); }
                None => {
                    ensure!(catch(|| &a / &s).is_err() && catch(|| a.clone() / s.clone()).is_err(), "{} / 0 ({}) answered", sh(d), $ty);
                    rec.steps(2);
                }
            }
        }};
    }
    with!(r.clone(), "Ratio<BigInt>");
    macro_rules! types {
        ($($t:ty),*) => {$(
            if let (Ok(n), Ok(m)) = (<$t>::try_from(r.numer().clone()), <$t>::try_from(r.denom().clone())) {
                with!(Ratio::<$t>::new(n.clone(), m), concat!("Ratio<", stringify!($t), ">"));
                if r.is_integer() {
                    with!(n, stringify!($t));
                }
            }
        )*};
    }
    types!(u8, u16, u32, u64, u128, usize, BigUint, i8, i16, i32, i64, i128, isize);
    if r.is_integer() {
        with!(r.numer().clone(), "BigInt");
    }
    rec.state(&(d, &r));
    rec.outcome(&want_mul);
    rec.compared();
    rec.sample(|| format!("{} with {}", sh(d), r));
    Ok(())
}

pub fn c08(tier: Tier) -> Property {
    let mut sp = vec![];
    let s = small_intervals(tier.pick(3, 5), tier.pick(&[0, 1, 2, 4], &[0, 1, 2, 3, 4, 7]));
    let n = s.len() as u64;
    sp.push(Space::new("binary-small", "all ordered pairs of intervals with numerators -3..=3 (thorough -5..=5) and denominators 2^0,2^1,2^2,2^4 (thorough more)", n * n, move |i, rec| {
        let mut ix = Ix(i);
        binary_case(&s[ix.take(n as usize)], &s[ix.take(n as usize)], rec)
    }));
    let s = small_intervals(tier.pick(7, 12), &[3]);
    let n = s.len() as u64;
    sp.push(Space::new("binary-eighths", "all ordered pairs of intervals with numerators -7..=7 (thorough -12..=12) over 8", n * n, move |i, rec| {
        let mut ix = Ix(i);
        binary_case(&s[ix.take(n as usize)], &s[ix.take(n as usize)], rec)
    }));
    let b = big_intervals();
    let step = tier.pick(3usize, 1);
    let b1: Vec<D> = b.iter().step_by(step).cloned().collect();
    let n = b1.len() as u64;
    sp.push(Space::new("binary-big", "all ordered pairs of intervals with bounds next to 2^31, 2^32, 2^63, 2^64, 2^65 and denominators up to 2^65 (fixed selection)", n * n, move |i, rec| {
        let mut ix = Ix(i);
        binary_case(&b1[ix.take(n as usize)], &b1[ix.take(n as usize)], rec)
    }));
    let mut u = small_intervals(tier.pick(9, 20), &[0, 1, 2, 3, 4, 5, 7, 10]);
    u.extend(b.iter().cloned());
    sp.push(Space::new("unary", "every interval with numerators -9..=9 (thorough -20..=20) over 2^0..2^10 and every big interval: negation, abs, square, reciprocal, floor, ceil, conversion to 14 precisions, constructors, setters", u.len() as u64, move |i, rec| {
        unary_case(&u[i as usize], &[0, 1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65], rec)
    }));
    let mut u = small_intervals(tier.pick(6, 12), &[0, 1, 2, 3, 5]);
    u.extend(b.iter().filter(|d| d.0.bits() < 40 && d.1.bits() < 40).cloned());
    let exps: Vec<i64> = (tier.pick(-6, -9)..=tier.pick(12, 24)).chain([31, 32, 33]).collect();
    let (nu, ne) = (u.len(), exps.len());
    sp.push(Space::new("power", "every interval with numerators -6..=6 (thorough -12..=12) over 2^0..2^5 and the 31/32-bit intervals x exponents -6..=12 (thorough -9..=24), 31..=33, seven exponent types", (nu * ne) as u64, move |i, rec| {
        let mut ix = Ix(i);
        pow_case(&u[ix.take(nu)], exps[ix.take(ne)], rec)
    }));
    let mut rs: Vec<(BigInt, BigInt)> = vec![];
    for den in 1..=tier.pick(4i64, 7) {
        for num in -5..=5i64 {
            rs.push((bi(num), bi(den)));
        }
    }
    let one = BigInt::one();
    for k in [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        for d in [-1i64, 0] {
            rs.push(((&one << k) + d, bi(1)));
            rs.push((-(&one << k) - d, bi(1)));
            rs.push((bi(3), (&one << k) + d));
            rs.push((bi(-7), (&one << k) + d));
        }
    }
    let mut u = small_intervals(3, &[0, 1, 3]);
    u.extend(b.iter().step_by(tier.pick(7, 2)).cloned());
    let (nu, nr) = (u.len(), rs.len());
    sp.push(Space::new("scalar", "intervals x integers and fractions (small, and at every word boundary) of all 14 integer types and their Ratio types, + - * / in six forms", (nu * nr) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let d = &u[ix.take(nu)];
        let (n, m) = &rs[ix.take(nr)];
        scalar_case(d, n, m, rec)
    }));
    Property {
        id: "C08",
        spaces: sp,
        assumptions: vec!["division may lose the rounding of the reciprocal to the divisor's precision, powers the rounding of each multiplication; every other operation must return the tightest enclosure".into()],
    }
}

// ---------------------------------------------------------------------------------------------------- C09
/// decides `bound <= f` (upper = false) or `bound >= f` (upper = true) for a real f given by enclosures
fn sound(bound: &Q, upper: bool, exact: Option<&Q>, enc: &dyn Fn(usize) -> (Q, Q), f0: usize) -> Result<bool, String> {
    if let Some(v) = exact {
        return Ok(if upper { bound >= v } else { bound <= v });
    }
    let mut f = f0;
    for _ in 0..6 {
        let (lo, hi) = enc(f);
        assert!(lo <= hi);
        if upper {
            if *bound >= hi {
                return Ok(true);
            }
            if *bound < lo {
                return Ok(false);
            }
        } else {
            if *bound <= lo {
                return Ok(true);
            }
            if *bound > hi {
                return Ok(false);
            }
        }
        f *= 2;
    }
    Err("reference enclosure too wide".into())
}

fn sqrt_case(d: &D, rec: &mut Rec) -> Result<(), String> {
    let a = mk(d);
    rec.state(d);
    if d.0.is_negative() {
        ensure!(catch(|| a.sqrt()).is_err(), "sqrt of {} answered", sh(d));
        rec.step();
        rec.compared();
        return Ok(());
    }
    let want = (sqrt_floor(&(&d.0 << d.2)), sqrt_ceil(&(&d.1 << d.2)), d.2);
    eqv!(un(&a.sqrt()), want, "sqrt {}", sh(d));
    eqv!(un(&a.clone().into_sqrt()), want, "into_sqrt {}", sh(d));
    let mut t = a.clone();
    t.sqrt_assign();
    eqv!(un(&t), want, "sqrt_assign {}", sh(d));
    rec.steps(3);
    rec.outcome(&want);
    rec.compared();
    rec.sample(|| format!("sqrt {}", sh(d)));
    Ok(())
}
fn encloses(what: &dyn Fn() -> String, got: &D, k: usize, at_lo: (Option<Q>, &dyn Fn(usize) -> (Q, Q)), at_hi: (Option<Q>, &dyn Fn(usize) -> (Q, Q)), f0: usize) -> Result<(), String> {
    ensure!(got.2 == k, "{}: precision {}, expected {}", what(), got.2, k);
    valid(got).map_err(|e| format!("{}: {}", what(), e))?;
    let x = ex(got);
    ensure!(sound(&x.lo, false, at_lo.0.as_ref(), at_lo.1, f0)?, "{}: {} lies above the smallest value", what(), sh(got));
    ensure!(sound(&x.hi, true, at_hi.0.as_ref(), at_hi.1, f0)?, "{}: {} lies below the largest value", what(), sh(got));
    Ok(())
}
pub const LOG_ULP: i64 = 3;
pub const AGM_ULP: i64 = 12;
pub const EXP_ULP: i64 = 3;
fn log_case(d: &D, rec: &mut Rec) -> Result<(), String> {
    let a = mk(d);
    let x = ex(d);
    rec.state(d);
    if !d.0.is_positive() {
        ensure!(catch(|| a.log()).is_err(), "log of {} answered", sh(d));
        rec.step();
        rec.compared();
        return Ok(());
    }
    let got = un(&catch(|| a.log()).map_err(|e| format!("log {} panicked: {}", sh(d), e))?);
    rec.step();
    let one = |v: &Q| if v.is_one() { Some(Q::zero()) } else { None };
    let what = || format!("log {}", sh(d));
    encloses(&what, &got, d.2, (one(&x.lo), &|f| ln_enc(&x.lo, f)), (one(&x.hi), &|f| ln_enc(&x.hi, f)), d.2 + 32)?;
    if d.0 == d.1 {
        let w = &got.1 - &got.0;
        ensure!(w <= bi(LOG_ULP), "log {}: {} is {} units wide", sh(d), sh(&got), w);
    }
    rec.outcome(&got);
    rec.compared();
    rec.sample(|| format!("log {} = {}", sh(d), sh(&got)));
    Ok(())
}
fn exp_case(d: &D, rec: &mut Rec) -> Result<(), String> {
    let a = mk(d);
    let x = ex(d);
    rec.state(d);
    let got = un(&catch(|| a.exp()).map_err(|e| format!("exp {} panicked: {}", sh(d), e))?);
    eqv!(un(&a.clone().into_exp()), got, "into_exp {}", sh(d));
    rec.steps(2);
    let one = |v: &Q| if v.is_zero() { Some(Q::one()) } else { None };
    let what = || format!("exp {}", sh(d));
    let big = |v: &Q| *v < qi(-(1 << 20));
    ensure!(got.0 >= bi(0), "exp {}: {} has a negative bound", sh(d), sh(&got));
    // very negative arguments: 0 < exp(x) < 2^-(2^20)
    let tiny = |_f: usize| (Q::zero(), pow2(-(1 << 20)));
    let el = |f: usize| if big(&x.lo) { tiny(f) } else { exp_enc(&x.lo, f) };
    let eh = |f: usize| if big(&x.hi) { tiny(f) } else { exp_enc(&x.hi, f) };
    let magnitude = 2 * usize::try_from(ceil_q(&x.hi).max(BigInt::zero())).unwrap();
    encloses(&what, &got, d.2, (one(&x.lo), &el), (one(&x.hi), &eh), d.2 + 32 + magnitude)?;
    if d.0 == d.1 {
        let w = &got.1 - &got.0;
        ensure!(w <= bi(EXP_ULP), "exp {}: {} is {} units wide", sh(d), sh(&got), w);
    }
    rec.outcome(&got);
    rec.compared();
    rec.sample(|| format!("exp {} = {}", sh(d), sh(&got)));
    Ok(())
}
fn agm_case(da: &D, db: &D, rec: &mut Rec) -> Result<(), String> {
    let (a, b) = (mk(da), mk(db));
    let (xa, xb) = (ex(da), ex(db));
    rec.state(&(da, db));
    if da.0.is_negative() || db.0.is_negative() {
        ensure!(catch(|| a.arithmetic_geometric_mean(&b)).is_err(), "mean of {} and {} answered", sh(da), sh(db));
        rec.step();
        rec.compared();
        return Ok(());
    }
    let got = un(&a.arithmetic_geometric_mean(&b));
    eqv!(un(&a.clone().into_arithmetic_geometric_mean(b.clone())), got, "into_arithmetic_geometric_mean");
    rec.steps(2);
    let k = da.2.max(db.2);
    let exact = |a: &Q, b: &Q| {
        if a.is_zero() || b.is_zero() {
            Some(Q::zero())
        } else if a == b {
            Some(a.clone())
        } else {
            None
        }
    };
    let what = || format!("mean of {} and {}", sh(da), sh(db));
    encloses(&what, &got, k, (exact(&xa.lo, &xb.lo), &|f| agm_enc(&xa.lo, &xb.lo, f)), (exact(&xa.hi, &xb.hi), &|f| agm_enc(&xa.hi, &xb.hi, f)), k + 32)?;
    {
        let w = &got.1 - &got.0;
        let un = (xa.hi.clone().max(xb.hi.clone()) - xa.lo.clone().min(xb.lo.clone())) * pow2(k as i64);
        ensure!(Q::from_integer(w.clone()) <= un, "{}: {} is wider than the operands are apart", what(), sh(&got));
    }
    if da.0 == da.1 && db.0 == db.1 && xa.lo >= Q::one() && xb.lo >= Q::one() && xa.lo <= &xb.lo * qi(16) && xb.lo <= &xa.lo * qi(16) {
        let w = &got.1 - &got.0;
        ensure!(w <= bi(AGM_ULP), "{}: {} is {} units wide", what(), sh(&got), w);
    }
    rec.outcome(&got);
    rec.compared();
    rec.sample(|| format!("{} = {}", what(), sh(&got)));
    Ok(())
}
/// numerators worth trying at any precision
fn numers(dense: i64, maxbits: usize) -> Vec<BigInt> {
    let one = BigInt::one();
    let mut v: Vec<BigInt> = (0..=dense).map(bi).collect();
    let mut k = 4;
    while k <= maxbits {
        for m in [8i64, 9, 11, 12, 13, 15] {
            for d in [-1i64, 0, 1] {
                v.push(((&one << k) * m >> 3) + d);
            }
        }
        k += if k < 24 { 1 } else { 8 };
    }
    for k in [31usize, 32, 33, 63, 64, 65] {
        if k <= maxbits {
            for d in [-1i64, 0, 1] {
                v.push((&one << k) + d);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn c09(tier: Tier) -> Property {
    let mut sp = vec![];
    let precs: Vec<usize> = tier.pick(vec![0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 47, 53, 63, 64, 65, 100], (0..=70).chain([95, 96, 127, 128, 129, 200, 255, 256, 300]).collect());
    // sqrt
    let mut v = small_intervals(tier.pick(24, 60), &[0, 1, 2, 3, 4, 5, 6, 7]);
    v.retain(|d| !d.1.is_negative());
    for &p in precs.iter().chain(&tier.pick(vec![129usize, 200, 301], vec![400, 513])) {
        let ns = numers(20, 160);
        for (i, n) in ns.iter().enumerate() {
            v.push((n.clone(), n.clone(), p));
            v.push((n.clone(), n + 1, p));
            v.push((n.clone(), ns[(i * 7 + 11).min(ns.len() - 1).max(i)].clone(), p));
            v.push((n * n, n * n + 1, p));
            v.push((n * n, n * n, p));
        }
    }
    sp.push(Space::new("sqrt", "every interval with numerators up to 24 (thorough 60) over 2^0..2^7 and points, neighbours, perfect squares and wide intervals with up to 160-bit numerators at 21 (thorough 82) precisions up to 2^301 (2^513); against exact floor/ceil roots", v.len() as u64, move |i, rec| sqrt_case(&v[i as usize], rec)));
    // log, exp: all small intervals
    let mut v = small_intervals(tier.pick(12, 24), &[0, 1, 2, 3, 4]);
    v.retain(|d| d.1.is_positive());
    for &p in &precs {
        let ns = numers(tier.pick(40, 200), tier.pick(90, 160));
        for (i, n) in ns.iter().enumerate() {
            if n.is_positive() {
                v.push((n.clone(), n.clone(), p));
                if i % tier.pick(5, 1) == 0 {
                    v.push((n.clone(), n + 1, p));
                    v.push((n.clone(), ns[(i * 3 + 5).min(ns.len() - 1).max(i)].clone(), p));
                }
            }
        }
    }
    // dense sweep of points at one precision
    for n in 1..=tier.pick(600, 3000) {
        v.push((bi(n), bi(n), 8));
    }
    sp.push(Space::new("log", "every interval with numerators up to 12 (thorough 24) over 2^0..2^4; every point n/2^8, n <= 600 (thorough 3000); points, neighbours and wide intervals around powers of two with up to 90-bit (thorough 160-bit) numerators at every listed precision", v.len() as u64, move |i, rec| log_case(&v[i as usize], rec)));
    // magnitudes far outside the precision
    let mut v = vec![];
    let es: Vec<usize> = tier.pick(vec![200, 500, 1023, 1024, 2000, 4096], vec![128, 200, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 8192]);
    for &p in &tier.pick(vec![0usize, 1, 3, 8, 20, 32], vec![0, 1, 2, 3, 5, 8, 12, 20, 31, 32, 33, 64]) {
        for &e in &es {
            for m in [8i64, 9, 11, 15] {
                for d in [-1i64, 0, 1] {
                    let n: BigInt = ((BigInt::one() << e) * m >> 3usize) + d;
                    v.push((n.clone(), n.clone(), p));
                    if d == 0 {
                        v.push((n.clone(), &n + 1, p));
                        v.push((bi(1), n.clone(), p));
                    }
                }
            }
        }
    }
    for &p in &tier.pick(vec![300usize, 500], vec![300, 500, 700, 1000]) {
        for n in [1i64, 2, 3, 5, 7, 100] {
            v.push((bi(n), bi(n), p));
            v.push((bi(n), bi(n) << (p - 3), p));
        }
    }
    sp.push(Space::new("log-magnitude", "points and intervals around 2^200 to 2^4096 (thorough 2^8192) at precisions 0 to 32 (64), and the smallest values at precisions of hundreds of bits", v.len() as u64, move |i, rec| log_case(&v[i as usize], rec)));
    let mut v = small_intervals(tier.pick(9, 20), &[0, 1, 2, 3, 4, 5]);
    for &p in &precs {
        let ns = numers(tier.pick(20, 100), p + tier.pick(6, 7));
        for (i, n) in ns.iter().enumerate() {
            for s in [1i64, -1] {
                let m = n * s;
                v.push((m.clone(), m.clone(), p));
                if i % tier.pick(5, 1) == 0 {
                    v.push((m.clone(), &m + 1, p));
                    v.push((m.clone(), &m + n, p));
                    v.push((-n, n.clone(), p));
                }
            }
        }
        // multiples of ln 2 rounded both ways, and very negative arguments
        let (l, _) = ln2_enc(p + 64);
        for k in [-70i64, -33, -32, -31, -10, -3, -2, -1, 1, 2, 3, 10, 31, 32, 33, 70] {
            let n = floor_at(&(&l * qi(k)), p);
            v.push((n.clone(), n.clone(), p));
            v.push((&n + 1, &n + 1, p));
            v.push((n.clone(), &n + 1, p));
        }
        for k in [100i64, 1000, 1 << 21] {
            v.push((bi(-k) << p, bi(-k) << p, p));
            v.push((bi(-k) << p, bi(1), p));
        }
        let huge: BigInt = -(BigInt::one() << (p + 70));
        v.push((huge.clone(), huge.clone(), p));
        v.push((huge.clone(), bi(3), p));
    }
    for n in -tier.pick(300i64, 2000)..=tier.pick(300, 2000) {
        v.push((bi(n), bi(n), 7));
    }
    // large arguments and high precisions
    for &p in &tier.pick(vec![0usize, 1, 8, 33, 100, 200, 301], vec![0, 1, 2, 5, 8, 16, 33, 64, 100, 200, 301, 400, 513]) {
        for m in tier.pick(vec![1i64, 15, 90, 400, 1500], vec![1, 2, 15, 40, 90, 200, 400, 800, 1500, 3000, 6000]) {
            for (n, d) in [(1i64, 1i64), (2, 3), (-2, 3), (5, 7), (-1, 1)] {
                let x: BigInt = ((bi(m) << p) * n) / d;
                v.push((x.clone(), x.clone(), p));
            }
            v.push((bi(-m), bi(m), p));
        }
    }
    sp.push(Space::new("exp", "every interval with numerators -9..=9 (thorough -20..=20) over 2^0..2^5; every point n/2^7, |n| <= 300 (thorough 2000); points, neighbours and wide intervals up to magnitude 2^6, roundings of multiples of ln 2 and arguments down to -2^70 at every listed precision; arguments up to 1500 (thorough 6000) at precisions up to 2^301 (2^513)", v.len() as u64, move |i, rec| exp_case(&v[i as usize], rec)));
    // agm
    let mut s = small_intervals(tier.pick(6, 10), &[0, 1, 3, 6]);
    s.retain(|d| !d.0.is_negative() || d.0 == bi(-1));
    let n = s.len();
    sp.push(Space::new("agm-small", "all ordered pairs of intervals with numerators 0..=6 (thorough 10), and some negative ones, over 2^0, 2^1, 2^3, 2^6", (n * n) as u64, move |i, rec| {
        let mut ix = Ix(i);
        agm_case(&s[ix.take(n)], &s[ix.take(n)], rec)
    }));
    let mut s = vec![];
    for &p in precs.iter().step_by(tier.pick(3, 4)) {
        for (i, n) in numers(4, 80).iter().enumerate() {
            if i % tier.pick(16, 7) == 0 {
                s.push((n.clone(), n.clone(), p));
                if i % 3 == 0 {
                    s.push((n.clone(), n + 5, p));
                }
            }
        }
    }
    let n = s.len();
    sp.push(Space::new("agm-big", "all ordered pairs from a fixed list of points and intervals with up to 80-bit numerators at every third listed precision", (n * n) as u64, move |i, rec| {
        let mut ix = Ix(i);
        agm_case(&s[ix.take(n)], &s[ix.take(n)], rec)
    }));
    Property {
        id: "C09",
        spaces: sp,
        assumptions: vec![
            "reference enclosures of ln, exp and agm come from the harness's own directed fixed-point arithmetic, refined until each bound is decided".into(),
            format!("a point's logarithm may be {} units wide, the mean of two points of at least one and within a factor 16 of each other {}, its exponential {}", LOG_ULP, AGM_ULP, EXP_ULP),
        ],
    }
}
