//! C11..C16 polynomials
use algebraics::mod_int::*;
use algebraics::polynomial::*;
use algebraics::traits::*;
use mccore::engine::*;
use mccore::refmath::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::Ratio;
use num_traits::*;
use std::borrow::Cow;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- model rings
pub trait Ring: Sync + Send + Clone + 'static {
    type L: PolynomialCoefficient + Debug + Display;
    type M: Clone + Eq + Debug + Hash + Sync + Send + 'static;
    fn name(&self) -> String;
    fn lib(&self, m: &Self::M) -> Self::L;
    fn model(&self, l: &Self::L) -> Self::M;
    fn add(&self, a: &Self::M, b: &Self::M) -> Self::M;
    fn mul(&self, a: &Self::M, b: &Self::M) -> Self::M;
    fn neg(&self, a: &Self::M) -> Self::M;
    fn int(&self, v: i64) -> Self::M;
    fn is_zero(&self, a: &Self::M) -> bool {
        *a == self.int(0)
    }
    fn sub(&self, a: &Self::M, b: &Self::M) -> Self::M {
        self.add(a, &self.neg(b))
    }
    /// exact quotient a/b when it exists (b not zero)
    fn div(&self, a: &Self::M, b: &Self::M) -> Option<Self::M>;
    fn det(&self, m: &[Vec<Self::M>]) -> Self::M {
        mdet(self, m)
    }
}
/// integers through a library integer type
#[derive(Clone)]
pub struct Zr<T>(std::marker::PhantomData<fn() -> T>);
#[allow(non_snake_case)]
pub fn ZR<T>() -> Zr<T> {
    Zr(std::marker::PhantomData)
}
impl<T> Ring for Zr<T>
where
    T: PolynomialCoefficient + Debug + Display + mccore::ints::Int,
{
    type L = T;
    type M = BigInt;
    fn name(&self) -> String {
        T::NAME.into()
    }
    fn lib(&self, m: &BigInt) -> T {
        T::from_big(m).expect("model integer fits the coefficient type")
    }
    fn model(&self, l: &T) -> BigInt {
        l.big()
    }
    fn add(&self, a: &BigInt, b: &BigInt) -> BigInt {
        a + b
    }
    fn mul(&self, a: &BigInt, b: &BigInt) -> BigInt {
        a * b
    }
    fn neg(&self, a: &BigInt) -> BigInt {
        -a
    }
    fn int(&self, v: i64) -> BigInt {
        bi(v)
    }
    fn det(&self, m: &[Vec<BigInt>]) -> BigInt {
        let d = bareiss(m);
        assert!(m.len() > 5 || d == mdet_subsets(self, m));
        d
    }
    fn div(&self, a: &BigInt, b: &BigInt) -> Option<BigInt> {
        if b.is_zero() {
            return None;
        }
        let (q, r) = a.div_rem(b);
        if r.is_zero() {
            Some(q)
        } else {
            None
        }
    }
}
#[derive(Clone)]
pub struct Qbig;
impl Ring for Qbig {
    type L = Ratio<BigInt>;
    type M = Q;
    fn name(&self) -> String {
        "Ratio<BigInt>".into()
    }
    fn lib(&self, m: &Q) -> Q {
        m.clone()
    }
    fn model(&self, l: &Q) -> Q {
        l.clone()
    }
    fn add(&self, a: &Q, b: &Q) -> Q {
        a + b
    }
    fn mul(&self, a: &Q, b: &Q) -> Q {
        a * b
    }
    fn neg(&self, a: &Q) -> Q {
        -a
    }
    fn int(&self, v: i64) -> Q {
        qi(v)
    }
    fn div(&self, a: &Q, b: &Q) -> Option<Q> {
        if b.is_zero() {
            None
        } else {
            Some(a / b)
        }
    }
}
#[derive(Clone)]
pub struct Q64;
impl Ring for Q64 {
    type L = Ratio<i64>;
    type M = Q;
    fn name(&self) -> String {
        "Ratio<i64>".into()
    }
    fn lib(&self, m: &Q) -> Ratio<i64> {
        Ratio::new(m.numer().to_i64().unwrap(), m.denom().to_i64().unwrap())
    }
    fn model(&self, l: &Ratio<i64>) -> Q {
        Ratio::new_raw(bi(*l.numer()), bi(*l.denom()))
    }
    fn add(&self, a: &Q, b: &Q) -> Q {
        a + b
    }
    fn mul(&self, a: &Q, b: &Q) -> Q {
        a * b
    }
    fn neg(&self, a: &Q) -> Q {
        -a
    }
    fn int(&self, v: i64) -> Q {
        qi(v)
    }
    fn div(&self, a: &Q, b: &Q) -> Option<Q> {
        if b.is_zero() {
            None
        } else {
            Some(a / b)
        }
    }
}
fn minv(a: &BigInt, m: &BigInt) -> Option<BigInt> {
    let e = num_integer::Integer::extended_gcd(a, m);
    if e.gcd.is_one() {
        Some(e.x.mod_floor(m))
    } else {
        None
    }
}
macro_rules! mod_ring {
    ($n:ident, $v:ty, $m:ty, $mk:expr, $tobig:expr, $frombig:expr) => {
        #[derive(Clone)]
        pub struct $n(pub BigInt);
        impl Ring for $n {
            type L = ModularInteger<$v, $m>;
            type M = BigInt;
            fn name(&self) -> String {
                format!("{} mod {}", stringify!($n), self.0)
            }
            fn lib(&self, m: &BigInt) -> Self::L {
                ModularInteger::new($frombig(m), $mk($frombig(&self.0)))
            }
            fn model(&self, l: &Self::L) -> BigInt {
                $tobig(l.value())
            }
            fn add(&self, a: &BigInt, b: &BigInt) -> BigInt {
                (a + b).mod_floor(&self.0)
            }
            fn mul(&self, a: &BigInt, b: &BigInt) -> BigInt {
                (a * b).mod_floor(&self.0)
            }
            fn neg(&self, a: &BigInt) -> BigInt {
                (-a).mod_floor(&self.0)
            }
            fn int(&self, v: i64) -> BigInt {
                bi(v).mod_floor(&self.0)
            }
            fn div(&self, a: &BigInt, b: &BigInt) -> Option<BigInt> {
                Some((a * minv(b, &self.0)?).mod_floor(&self.0))
            }
        }
    };
}
mod_ring!(GfI32, i32, KnownPrime<i32>, KnownPrime::new_unsafe, |v: &i32| bi(*v as i64), |b: &BigInt| b.to_i32().unwrap());
mod_ring!(GfOdd, i32, KnownOddPrime<i32>, KnownOddPrime::new_odd_prime_unsafe, |v: &i32| bi(*v as i64), |b: &BigInt| b.to_i32().unwrap());
mod_ring!(GfBig, BigInt, KnownOddPrime<BigInt>, KnownOddPrime::new_odd_prime_unsafe, |v: &BigInt| v.clone(), |b: &BigInt| b.clone());
mod_ring!(ModI32, i32, i32, |m| m, |v: &i32| bi(*v as i64), |b: &BigInt| b.to_i32().unwrap());
mod_ring!(ModBig, BigInt, BigInt, |m| m, |v: &BigInt| v.clone(), |b: &BigInt| b.clone());

/// polynomials over a ring as coefficients
#[derive(Clone)]
pub struct Nested<R>(pub R);
impl<R: Ring> Ring for Nested<R>
where
    R::L: PolynomialCoefficient<Divisor = DivisorIsOne, Element = <R as Ring>::L> + One + Zero,
{
    type L = Polynomial<R::L>;
    type M = Vec<R::M>;
    fn name(&self) -> String {
        format!("Polynomial<{}>", self.0.name())
    }
    fn lib(&self, m: &Vec<R::M>) -> Self::L {
        m.iter().map(|c| self.0.lib(c)).collect::<Vec<_>>().into()
    }
    fn model(&self, l: &Self::L) -> Vec<R::M> {
        l.iter().map(|c| self.0.model(&c)).collect()
    }
    fn add(&self, a: &Vec<R::M>, b: &Vec<R::M>) -> Vec<R::M> {
        madd(&self.0, a, b)
    }
    fn mul(&self, a: &Vec<R::M>, b: &Vec<R::M>) -> Vec<R::M> {
        mmul(&self.0, a, b)
    }
    fn neg(&self, a: &Vec<R::M>) -> Vec<R::M> {
        mneg(&self.0, a)
    }
    fn int(&self, v: i64) -> Vec<R::M> {
        mtrim(&self.0, vec![self.0.int(v)])
    }
    fn div(&self, a: &Vec<R::M>, b: &Vec<R::M>) -> Option<Vec<R::M>> {
        let (q, r) = mdivrem(&self.0, a, b)?;
        if r.is_empty() {
            Some(q)
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- model polynomials
pub type Mp<R> = Vec<<R as Ring>::M>;
fn mtrim<R: Ring>(r: &R, mut p: Mp<R>) -> Mp<R> {
    while p.last().map_or(false, |c| r.is_zero(c)) {
        p.pop();
    }
    p
}
fn madd<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>) -> Mp<R> {
    let z = r.int(0);
    mtrim(r, (0..a.len().max(b.len())).map(|i| r.add(a.get(i).unwrap_or(&z), b.get(i).unwrap_or(&z))).collect())
}
fn mneg<R: Ring>(r: &R, a: &Mp<R>) -> Mp<R> {
    a.iter().map(|c| r.neg(c)).collect()
}
fn msub<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>) -> Mp<R> {
    madd(r, a, &mneg(r, b))
}
fn mmul<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>) -> Mp<R> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![r.int(0); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] = r.add(&o[i + j], &r.mul(x, y));
        }
    }
    mtrim(r, o)
}
fn mscale<R: Ring>(r: &R, a: &Mp<R>, c: &R::M) -> Mp<R> {
    mtrim(r, a.iter().map(|x| r.mul(x, c)).collect())
}
fn mone<R: Ring>(r: &R) -> Mp<R> {
    mtrim(r, vec![r.int(1)])
}
fn mpow<R: Ring>(r: &R, a: &Mp<R>, n: usize) -> Mp<R> {
    (0..n).fold(mone(r), |p, _| mmul(r, &p, a))
}
fn mderiv<R: Ring>(r: &R, a: &Mp<R>) -> Mp<R> {
    mtrim(r, a.iter().enumerate().skip(1).map(|(i, c)| r.mul(c, &r.int(i as i64))).collect())
}
fn meval<R: Ring>(r: &R, a: &Mp<R>, x: &R::M) -> R::M {
    let mut s = r.int(0);
    let mut p = r.int(1);
    for c in a {
        s = r.add(&s, &r.mul(c, &p));
        p = r.mul(&p, x);
    }
    s
}
/// quotient and remainder with all coefficient divisions exact in the ring, or None
fn mdivrem<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>) -> Option<(Mp<R>, Mp<R>)> {
    let lc = b.last()?;
    let mut rem = a.clone();
    let mut q = vec![];
    if rem.len() < b.len() {
        return Some((q, rem));
    }
    q = vec![r.int(0); rem.len() - b.len() + 1];
    while rem.len() >= b.len() {
        let k = rem.len() - b.len();
        let c = r.div(rem.last().unwrap(), lc)?;
        for (i, y) in b.iter().enumerate() {
            rem[k + i] = r.sub(&rem[k + i], &r.mul(&c, y));
        }
        q[k] = c;
        debug_assert!(r.is_zero(rem.last().unwrap()));
        rem = mtrim(r, rem);
    }
    Some((q, rem))
}
fn mmonic<R: Ring>(r: &R, a: &Mp<R>) -> Mp<R> {
    match a.last() {
        None => vec![],
        Some(l) => a.iter().map(|c| r.div(c, l).unwrap()).collect(),
    }
}
fn mgcd<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>) -> Mp<R> {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_empty() {
        let (_, rem) = mdivrem(r, &a, &b).expect("field");
        a = b;
        b = rem;
    }
    mmonic(r, &a)
}
/// determinant over a commutative ring by the Samuelson-Berkowitz recurrence (no division)
fn berkowitz<R: Ring>(r: &R, a: &[Vec<R::M>]) -> R::M {
    let n = a.len();
    let mut p = vec![r.int(1)]; // characteristic polynomial of the trailing block, highest power first
    for k in (0..n).rev() {
        let m = n - k - 1;
        let mut col = vec![r.int(1), r.neg(&a[k][k])];
        let mut v: Vec<R::M> = (0..m).map(|i| a[k + 1 + i][k].clone()).collect();
        for _ in 0..m {
            let dot = (0..m).fold(r.int(0), |s, j| if r.is_zero(&v[j]) || r.is_zero(&a[k][k + 1 + j]) { s } else { r.add(&s, &r.mul(&a[k][k + 1 + j], &v[j])) });
            col.push(r.neg(&dot));
            v = (0..m)
                .map(|i| (0..m).fold(r.int(0), |s, j| if r.is_zero(&v[j]) || r.is_zero(&a[k + 1 + i][k + 1 + j]) { s } else { r.add(&s, &r.mul(&a[k + 1 + i][k + 1 + j], &v[j])) }))
                .collect();
        }
        p = (0..m + 2).map(|i| (0..p.len()).filter(|j| *j <= i).fold(r.int(0), |s, j| r.add(&s, &r.mul(&col[i - j], &p[j])))).collect();
    }
    if n % 2 == 1 {
        r.neg(&p[n])
    } else {
        p[n].clone()
    }
}
/// determinant over a commutative ring by expansion over column subsets
fn mdet<R: Ring>(r: &R, m: &[Vec<R::M>]) -> R::M {
    let n = m.len();
    if n > 9 {
        return berkowitz(r, m);
    }
    assert!(n != 4 || berkowitz(r, m) == mdet_subsets(r, m));
    mdet_subsets(r, m)
}
fn mdet_subsets<R: Ring>(r: &R, m: &[Vec<R::M>]) -> R::M {
    let n = m.len();
    let mut cur: std::collections::HashMap<u32, R::M> = Default::default();
    cur.insert(0, r.int(1));
    for row in m {
        let mut next: std::collections::HashMap<u32, R::M> = Default::default();
        for (mask, v) in &cur {
            for c in 0..n {
                if mask >> c & 1 == 0 && !r.is_zero(&row[c]) {
                    let inv = (mask >> (c + 1)).count_ones();
                    let mut t = r.mul(v, &row[c]);
                    if inv % 2 == 1 {
                        t = r.neg(&t);
                    }
                    let e = next.entry(mask | 1 << c).or_insert_with(|| r.int(0));
                    *e = r.add(e, &t);
                }
            }
        }
        cur = next;
    }
    cur.remove(&((1u32 << n) - 1)).unwrap_or_else(|| r.int(0))
}
/// fraction-free elimination over the integers
fn bareiss(m: &[Vec<BigInt>]) -> BigInt {
    let mut a = m.to_vec();
    let n = a.len();
    let (mut prev, mut neg) = (BigInt::one(), false);
    for k in 0..n {
        match (k..n).find(|&i| !a[i][k].is_zero()) {
            None => return BigInt::zero(),
            Some(i) if i != k => {
                a.swap(i, k);
                neg = !neg;
            }
            _ => {}
        }
        for i in k + 1..n {
            for j in k + 1..n {
                let t = (&a[i][j] * &a[k][k] - &a[i][k] * &a[k][j]) / &prev;
                a[i][j] = t;
            }
            a[i][k] = BigInt::zero();
        }
        prev = a[k][k].clone();
    }
    if neg {
        -prev
    } else {
        prev
    }
}
fn sylvester<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>) -> R::M {
    let (m, n) = (a.len() - 1, b.len() - 1);
    let mut rows = vec![];
    for i in 0..n {
        let mut row = vec![r.int(0); m + n];
        for (j, c) in a.iter().rev().enumerate() {
            row[i + j] = c.clone();
        }
        rows.push(row);
    }
    for i in 0..m {
        let mut row = vec![r.int(0); m + n];
        for (j, c) in b.iter().rev().enumerate() {
            row[i + j] = c.clone();
        }
        rows.push(row);
    }
    r.det(&rows)
}

// ---------------------------------------------------------------- binding
type Lp<R> = Polynomial<<R as Ring>::L>;
fn lib<R: Ring>(r: &R, p: &Mp<R>) -> Lp<R> {
    p.iter().map(|c| r.lib(c)).collect::<Vec<_>>().into()
}
fn model<R: Ring>(r: &R, p: &Lp<R>) -> Mp<R> {
    p.clone().into_coefficients().iter().map(|c| r.model(c)).collect()
}
fn h<T: Hash>(v: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}
/// got is exactly the polynomial want, in normal form
fn same<R: Ring>(r: &R, got: &Lp<R>, want: &Mp<R>, ctx: &dyn Fn() -> String) -> Result<(), String> {
    let m = model(r, got);
    if &m != want {
        return Err(format!("{}: got coefficients {:?}, expected {:?}", ctx(), m, want));
    }
    let e = lib(r, want);
    ensure!(*got == e, "{}: result {:?} is not in normal form {:?}", ctx(), got, e);
    ensure!(h(got) == h(&e), "{}: hashes of equal polynomials {:?} and {:?} differ", ctx(), got, e);
    ensure!(got.len() == want.len(), "{}: len {} of {:?}", ctx(), got.len(), want);
    Ok(())
}
/// all polynomials of length <= len over a coefficient set that contains zero, in normal form, decoded from an index
fn digit_poly<R: Ring>(r: &R, set: &[R::M], len: usize, i: usize) -> Mp<R> {
    let mut ix = Ix(i as u64);
    mtrim(r, (0..len).map(|_| set[ix.take(set.len())].clone()).collect())
}
fn zset(v: &[i64]) -> Vec<BigInt> {
    v.iter().map(|&x| bi(x)).collect()
}
fn qset(v: &[(i64, i64)]) -> Vec<Q> {
    v.iter().map(|&(a, b)| q(a, b)).collect()
}

// ---------------------------------------------------------------- C11
fn ring_pair<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String> {
    let (la, lb) = (lib(r, a), lib(r, b));
    macro_rules! forms {
        ($op:tt, $asg:tt, $chk:ident, $exp:expr) => {{
            let want = $exp;
            let c = || format!("{}: ({:?}) {} ({:?})", r.name(), a, stringify!($op), b);
            let ex = &la $op &lb;
            same(r, &ex, &want, &c)?;
            ensure!(la.clone() $op lb.clone() == ex, "{}: move/move differs from ref/ref", c());
            ensure!(la.clone() $op &lb == ex, "{}: move/ref differs from ref/ref", c());
            ensure!(&la $op lb.clone() == ex, "{}: ref/move differs from ref/ref", c());
            let mut t = la.clone();
            t $asg lb.clone();
            ensure!(t == ex, "{}: assign-by-value differs from ref/ref", c());
            let mut t = la.clone();
            t $asg &lb;
            ensure!(t == ex, "{}: assign-by-ref differs from ref/ref", c());
            ensure!(la.$chk(&lb) == Some(ex), "{}: checked form differs from ref/ref", c());
            rec.steps(7);
        }};
    }
    forms!(+, +=, checked_add, madd(r, a, b));
    forms!(-, -=, checked_sub, msub(r, a, b));
    forms!(*, *=, checked_mul, mmul(r, a, b));
    // composition: evaluation at a polynomial
    let mut want: Mp<R> = vec![];
    for c in a.iter().rev() {
        want = madd(r, &mmul(r, &want, b), &mtrim(r, vec![c.clone()]));
    }
    let c = || format!("{}: ({:?}) evaluated at the polynomial ({:?})", r.name(), a, b);
    same(r, &la.eval_generic(&lb, Zero::zero()), &want, &c)?;
    same(r, &la.into_eval_generic(&lb, Zero::zero()), &want, &c)?;
    rec.steps(2);
    Ok(())
}
fn ring_scalar<R: Ring>(r: &R, a: &Mp<R>, s: &R::M, rec: &mut Rec) -> Result<(), String> {
    let (la, ls) = (lib(r, a), r.lib(s));
    macro_rules! forms {
        ($op:tt, $asg:tt, $exp:expr) => {{
            let want = $exp;
            let c = || format!("{}: ({:?}) {} scalar {:?}", r.name(), a, stringify!($op), s);
            let ex = &la $op &ls;
            same(r, &ex, &want, &c)?;
            ensure!(la.clone() $op ls.clone() == ex, "{}: move/move differs from ref/ref", c());
            ensure!(la.clone() $op &ls == ex, "{}: move/ref differs from ref/ref", c());
            ensure!(&la $op ls.clone() == ex, "{}: ref/move differs from ref/ref", c());
            let mut t = la.clone();
            t $asg ls.clone();
            ensure!(t == ex, "{}: assign-by-value differs from ref/ref", c());
            let mut t = la.clone();
            t $asg &ls;
            ensure!(t == ex, "{}: assign-by-ref differs from ref/ref", c());
            rec.steps(6);
        }};
    }
    let sp = mtrim(r, vec![s.clone()]);
    forms!(+, +=, madd(r, a, &sp));
    forms!(-, -=, msub(r, a, &sp));
    forms!(*, *=, mscale(r, a, s));
    let c = || format!("{}: ({:?}) at {:?}", r.name(), a, s);
    let v = meval(r, a, s);
    eqv!(r.model(&la.eval(&ls)), v, "{} eval", c());
    eqv!(r.model(&la.clone().into_eval(&ls)), v, "{} into_eval", c());
    rec.steps(2);
    Ok(())
}
fn ring_unary<R: Ring>(r: &R, a: &Mp<R>, max_exp: usize, rec: &mut Rec) -> Result<(), String> {
    let la = lib(r, a);
    let n = || format!("{}: ({:?})", r.name(), a);
    let c = |w: &'static str| move || format!("{} {}", n(), w);
    let neg = mneg(r, a);
    same(r, &-&la, &neg, &c("neg ref"))?;
    same(r, &-la.clone(), &neg, &c("neg move"))?;
    let mut t = la.clone();
    t.negate();
    same(r, &t, &neg, &c("negate"))?;
    let d = mderiv(r, a);
    same(r, &la.derivative(), &d, &c("derivative"))?;
    same(r, &la.clone().into_derivative(), &d, &c("into_derivative"))?;
    rec.steps(5);
    for e in 0..=max_exp {
        if a.is_empty() && e == 0 {
            continue; // 0^0 is refused: see the property's domain
        }
        let want = mpow(r, a, e);
        let c = || format!("{} ^ {}", n(), e);
        let got: Lp<R> = Pow::pow(&la, e);
        same(r, &got, &want, &c)?;
        ensure!(Pow::pow(la.clone(), e as u8) == got, "{}: u8 exponent by value differs", c());
        ensure!(Pow::pow(&la, e as i64) == got, "{}: i64 exponent differs", c());
        ensure!(Pow::pow(&la, bi(e as i64)) == got, "{}: BigInt exponent differs", c());
        rec.steps(4);
    }
    ensure!(catch(|| Pow::pow(&la, -1i32)).is_err(), "{}: a negative power was answered", n());
    rec.step();
    Ok(())
}
fn monomial<R: Ring>(r: &R, s: &R::M, e: usize, rec: &mut Rec) -> Result<(), String> {
    let c = || format!("{}: make_monomial({:?}, {})", r.name(), s, e);
    let mut want = vec![r.int(0); e];
    want.push(s.clone());
    let want = mtrim(r, want);
    same(r, &Polynomial::make_monomial(r.lib(s), e), &want, &c)?;
    rec.step();
    Ok(())
}
fn c11_ring<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, len: usize, scal: Vec<R::M>, max_exp: usize) {
    let n = set.len().pow(len as u32);
    let bound = format!("all ordered pairs of polynomials with at most {} coefficients from {:?}; all forms of + - * and composition", len, set);
    let (r1, s1) = (r.clone(), set.clone());
    v.push(Space::new(&format!("pairs {} {}x{}", r.name(), set.len(), len), &bound, (n * n) as u64, move |i, rec| {
        let a = digit_poly(&r1, &s1, len, i as usize % n);
        let b = digit_poly(&r1, &s1, len, i as usize / n);
        rec.distinct(1);
        ring_pair(&r1, &a, &b, rec)?;
        rec.outcome(&mmul(&r1, &a, &b));
        rec.compared();
        rec.sample(|| format!("{:?} x {:?}", a, b));
        Ok(())
    }));
    let bound = format!("all polynomials with at most {} coefficients from {:?}: negation, derivative, powers 0..={}; with every scalar/point of {:?}; monomials of degree 0..=9", len, set, max_exp, scal);
    v.push(Space::new(&format!("unary and scalar {} {}x{}", r.name(), set.len(), len), &bound, n as u64, move |i, rec| {
        let a = digit_poly(&r, &set, len, i as usize);
        rec.distinct(1);
        ring_unary(&r, &a, max_exp, rec)?;
        for s in &scal {
            ring_scalar(&r, &a, s, rec)?;
        }
        if i < 10 {
            for s in scal.iter().chain(&set) {
                monomial(&r, s, i as usize, rec)?;
            }
        }
        rec.outcome(&mderiv(&r, &a));
        rec.compared();
        Ok(())
    }));
}
/// longer polynomials: every 0/1-coefficient pattern of the given degree scaled by a coefficient, against every other, and with every listed scalar of either sign
fn c11_long<R: Ring>(v: &mut Vec<Space>, r: R, pats: usize, c: Vec<R::M>) {
    let n = (1usize << pats) * c.len();
    let bound = format!("all pairs of polynomials of degree < {} whose coefficients are 0 or one of a rotating list {:?}; each with those values and their negatives as scalars", pats, c);
    v.push(Space::new(&format!("long {}", r.name()), &bound, (n * n) as u64, move |i, rec| {
        let mk = |k: usize| {
            let (m, s) = (k % (1 << pats), k >> pats);
            mtrim(&r, (0..pats).map(|j| if m >> j & 1 == 1 { c[(s + j) % c.len()].clone() } else { r.int(0) }).collect())
        };
        let (a, b) = (mk(i as usize % n), mk(i as usize / n));
        rec.distinct(1);
        ring_pair(&r, &a, &b, rec)?;
        if i < n as u64 {
            ring_unary(&r, &a, 2, rec)?;
            for s in &c {
                ring_scalar(&r, &a, s, rec)?;
                ring_scalar(&r, &a, &r.neg(s), rec)?;
            }
        }
        rec.compared();
        Ok(())
    }));
}
/// structured polynomials of every listed degree: dense, alternating, sparse, binomial, palindromic, one gap
fn shapes<R: Ring>(r: &R, degs: &[usize], c: &[R::M]) -> Vec<Mp<R>> {
    let z = r.int(0);
    let mut v: Vec<Mp<R>> = vec![vec![]];
    let cc = |j: usize| c[j % c.len()].clone();
    for &d in degs {
        let all: Vec<Mp<R>> = vec![
            (0..=d).map(|j| cc(j)).collect(),
            (0..=d).map(|j| if j % 2 == d % 2 { cc(j / 2) } else { z.clone() }).collect(),
            (0..=d).map(|j| if j == 0 || j == d { cc(j) } else { z.clone() }).collect(),
            (0..=d).map(|j| if j == d { cc(1) } else { z.clone() }).collect(),
            (0..=d).map(|j| cc(j.min(d - j))).collect(),
            (0..=d).map(|j| if j == d / 2 { z.clone() } else { cc(j + 1) }).collect(),
        ];
        for a in all {
            let a = mtrim(r, a);
            if !v.contains(&a) {
                v.push(a);
            }
        }
    }
    v
}
fn shape_space<R: Ring, F>(v: &mut Vec<Space>, what: &str, r: R, degs: &[usize], c: Vec<R::M>, degs2: &[usize], f: F)
where
    F: Fn(&R, &Mp<R>, &Mp<R>, &mut Rec) -> Result<(), String> + Sync + 'static,
{
    let (s1, s2) = (shapes(&r, degs, &c), shapes(&r, degs2, &c));
    let bound = format!("all pairs of {} and {} polynomials: six shapes (dense, alternating, binomial, monomial, palindromic, gapped) of degrees {:?} and {:?} with coefficients from {:?}", s1.len(), s2.len(), degs, degs2, c);
    let n = s1.len();
    v.push(Space::new(&format!("{} shapes {} {}", what, r.name(), c.len()), &bound, (n * s2.len()) as u64, move |i, rec| {
        let (a, b) = (&s1[i as usize % n], &s2[i as usize / n]);
        rec.distinct(1);
        f(&r, a, b, rec)?;
        rec.compared();
        Ok(())
    }));
}
/// one special coefficient among ordinary ones, at every position of every length: what is special can cancel
fn cancel_space<R: Ring>(v: &mut Vec<Space>, r: R, maxlen: usize, special: Vec<R::M>, plain: Vec<R::M>, scal: Vec<R::M>) {
    let bound = format!("all lengths 1..={} and positions of one coefficient from {:?} among zeros or rotating {:?}; with every scalar of {:?} and every monomial that cancels a run of top or single coefficients", maxlen, special, plain, scal);
    let (ns, total) = (special.len(), maxlen * maxlen * special.len() * 2);
    v.push(Space::new(&format!("cancellation {}", r.name()), &bound, total as u64, move |i, rec| {
        let mut ix = Ix(i);
        let (len, pos) = (1 + ix.take(maxlen), ix.take(maxlen));
        let (sp, dense) = (special[ix.take(ns)].clone(), ix.take(2) == 1);
        if pos >= len {
            return Ok(());
        }
        let last = |j: usize| j + 1 == len;
        let a: Mp<R> = mtrim(&r, (0..len).map(|j| if j == pos { sp.clone() } else if dense || last(j) { plain[j % plain.len()].clone() } else { r.int(0) }).collect());
        rec.distinct(1);
        for s in &scal {
            ring_scalar(&r, &a, s, rec)?;
        }
        for j in 0..a.len() {
            let mut m: Mp<R> = vec![r.int(0); j];
            m.push(a[j].clone());
            let (m, top) = (mtrim(&r, m), mtrim(&r, (0..a.len()).map(|k| if k < j { r.int(0) } else { a[k].clone() }).collect()));
            for b in [m, top] {
                let (la, lb) = (lib(&r, &a), lib(&r, &b));
                let c = |w: &'static str| { let (r, a, b) = (&r, &a, &b); move || format!("{}: ({:?}) {} ({:?})", r.name(), a, w, b) };
                same(&r, &(&la - &lb), &msub(&r, &a, &b), &c("-"))?;
                same(&r, &(la.clone() - lb.clone()), &msub(&r, &a, &b), &c("-"))?;
                same(&r, &(&lb - &la), &msub(&r, &b, &a), &c("reversed -"))?;
                same(&r, &(lb.clone() + &la), &madd(&r, &a, &b), &c("+"))?;
                same(&r, &(-lb + la), &msub(&r, &a, &b), &c("+ -"))?;
                rec.steps(5);
            }
        }
        rec.compared();
        Ok(())
    }));
}
fn exponent_space<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, len: usize, exps: &'static [usize]) {
    let n = set.len().pow(len as u32);
    let bound = format!("all polynomials with at most {} coefficients from {:?} to the powers {:?}; monomials of those degrees", len, set, exps);
    v.push(Space::new(&format!("long exponents {}", r.name()), &bound, n as u64, move |i, rec| {
        let a = digit_poly(&r, &set, len, i as usize);
        let la = lib(&r, &a);
        rec.distinct(1);
        let (mut p, mut k) = (mone(&r), 0);
        for &e in exps {
            while k < e {
                p = mmul(&r, &p, &a);
                k += 1;
            }
            let c = || format!("{}: ({:?}) ^ {}", r.name(), a, e);
            same(&r, &Pow::pow(&la, e), &p, &c)?;
            same(&r, &Pow::pow(la.clone(), e as u8), &p, &c)?;
            same(&r, &Pow::pow(&la, bi(e as i64)), &p, &c)?;
            for s in &set {
                monomial(&r, s, e, rec)?;
            }
            rec.steps(3);
        }
        rec.compared();
        Ok(())
    }));
}
/// derivatives (and sums) of polynomials long enough for an index to leave a narrow type
fn long_derivatives<R: Ring>(v: &mut Vec<Space>, r: R, c: Vec<R::M>, degs: &'static [usize]) {
    let sh = shapes(&r, degs, &c);
    v.push(Space::new(&format!("long derivatives {}", r.name()), &format!("six shapes of degrees {:?} with coefficients from {:?}", degs, c), sh.len() as u64, move |i, rec| {
        let a = &sh[i as usize];
        let l = lib(&r, a);
        let n = || format!("{}: derivative of a polynomial of length {}", r.name(), a.len());
        let w = mderiv(&r, a);
        same(&r, &l.derivative(), &w, &n)?;
        same(&r, &l.clone().into_derivative(), &w, &n)?;
        same(&r, &(&l + &l), &madd(&r, a, a), &|| format!("{}: doubling a polynomial of length {}", r.name(), a.len()))?;
        rec.steps(3);
        rec.distinct(1);
        rec.compared();
        Ok(())
    }));
}
fn norms<R: Ring>(r: &R, a: &Mp<R>, rec: &mut Rec) -> Result<(), String>
where
    R::M: Ord,
    R::L: PolynomialCoefficientAbsSupported + Ord + Zero,
{
    let la = lib(r, a);
    let abs = |x: &R::M| if *x < r.int(0) { r.neg(x) } else { x.clone() };
    let mx = a.iter().map(abs).max();
    let sum = a.iter().map(abs).fold(r.int(0), |s, x| r.add(&s, &x));
    let n = || format!("{}: ({:?})", r.name(), a);
    eqv!(la.nonzero_max_norm().map(|x| r.model(&x)), mx, "{} nonzero_max_norm", n());
    eqv!(r.model(&la.max_norm()), mx.unwrap_or(r.int(0)), "{} max_norm", n());
    eqv!(la.nonzero_manhattan_norm().map(|x| r.model(&x)), if a.is_empty() { None } else { Some(sum.clone()) }, "{} nonzero_manhattan_norm", n());
    eqv!(r.model(&la.manhattan_norm()), sum, "{} manhattan_norm", n());
    rec.steps(4);
    Ok(())
}
fn norm_space<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, len: usize)
where
    R::M: Ord,
    R::L: PolynomialCoefficientAbsSupported + Ord + Zero,
{
    let n = set.len().pow(len as u32);
    let bound = format!("all polynomials with at most {} coefficients from {:?}", len, set);
    v.push(Space::new(&format!("norms {}", r.name()), &bound, n as u64, move |i, rec| {
        let a = digit_poly(&r, &set, len, i as usize);
        rec.distinct(1);
        norms(&r, &a, rec)?;
        rec.compared();
        Ok(())
    }));
}
fn big_set() -> Vec<BigInt> {
    let p = |k: u32| BigInt::one() << k;
    vec![bi(0), bi(1), -bi(1), p(31), -p(32), p(63) - 1, -p(64), p(64) + 1, p(128)]
}
fn qs_small() -> Vec<Q> {
    qset(&[(0, 1), (1, 1), (-1, 2), (2, 3), (-3, 4), (5, 6)])
}
fn nest_set() -> Vec<Vec<BigInt>> {
    vec![vec![], zset(&[1]), zset(&[-2]), zset(&[0, 1]), zset(&[1, -1])]
}
pub fn c11(tier: Tier) -> Property {
    let mut v = vec![];
    let sc = zset(&[-3, -1, 0, 1, 2, 5]);
    c11_ring(&mut v, ZR::<BigInt>(), zset(&[0, 1, -1, 2, -3]), tier.pick(3, 4), sc.clone(), 5);
    c11_ring(&mut v, ZR::<i32>(), zset(&[0, 1, -1, 2, -3]), 3, sc.clone(), 5);
    c11_ring(&mut v, ZR::<i8>(), zset(&[0, 1, -1, 2]), 2, zset(&[-2, -1, 0, 1, 2]), 3);
    c11_ring(&mut v, ZR::<i64>(), zset(&[0, -1, 40000, -65536]), 3, zset(&[0, -1, 1, 65535, -40000]), 2);
    c11_ring(&mut v, ZR::<i128>(), zset(&[0, -1, 1 << 31, -(1 << 33)]), 2, zset(&[0, -1, 1, 1 << 32]), 3);
    c11_ring(&mut v, ZR::<BigInt>(), big_set(), tier.pick(2, 3), big_set(), 3);
    c11_ring(&mut v, Qbig, qs_small(), 3, qset(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-2, 3), (7, 4), (3, 1)]), 4);
    c11_ring(&mut v, Q64, qset(&[(0, 1), (1, 1), (-1, 2), (2, 3)]), 3, qset(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-2, 3)]), 4);
    c11_ring(&mut v, GfOdd(bi(5)), zset(&[0, 1, 2, 3, 4]), 3, zset(&[0, 1, 2, 3, 4]), 6);
    c11_ring(&mut v, GfI32(bi(2)), zset(&[0, 1]), tier.pick(6, 7), zset(&[0, 1]), 5);
    c11_ring(&mut v, ModI32(bi(6)), zset(&[0, 1, 2, 3, 4, 5]), tier.pick(2, 3), zset(&[0, 1, 2, 3, 4, 5]), 4);
    c11_ring(&mut v, ModBig(bi(9)), zset(&[0, 1, 2, 3, 6, 8]), 2, zset(&[0, 1, 3, 5, 8]), 4);
    let bp: BigInt = (BigInt::one() << 61u32) - 1;
    c11_ring(&mut v, GfBig(bp.clone()), vec![bi(0), bi(1), &bp - 1, BigInt::one() << 60u32, BigInt::one() << 32u32], 2, vec![bi(0), &bp - 1, bi(3)], 4);
    c11_ring(&mut v, Nested(ZR::<BigInt>()), nest_set(), tier.pick(2, 3), nest_set(), 3);
    c11_ring(&mut v, Nested(ZR::<i32>()), nest_set(), 2, nest_set(), 3);
    c11_long(&mut v, ZR::<BigInt>(), tier.pick(7, 8), zset(&[1, -2, 5]));
    c11_long(&mut v, Qbig, tier.pick(6, 7), qset(&[(1, 2), (-2, 3), (4, 1)]));
    c11_long(&mut v, GfOdd(bi(3)), tier.pick(7, 8), zset(&[1, 2]));
    c11_long(&mut v, ModI32(bi(4)), tier.pick(7, 8), zset(&[2, 1, 3]));
    let degs: &[usize] = tier.pick(&[0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 33], &[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]);
    fn pair_eval<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String> {
        ring_pair(r, a, b, rec)?;
        for s in b.iter().chain(a).take(12) {
            ring_scalar(r, a, s, rec)?;
            ring_scalar(r, a, &r.neg(s), rec)?;
        }
        ring_scalar(r, a, b.last().unwrap_or(&r.int(0)), rec)
    }
    fn pair_only<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String> {
        let (la, lb) = (lib(r, a), lib(r, b));
        let c = |w: &'static str| move || format!("{}: ({:?}) {} ({:?})", r.name(), a, w, b);
        same(r, &(&la + &lb), &madd(r, a, b), &c("+"))?;
        same(r, &(&la - &lb), &msub(r, a, b), &c("-"))?;
        same(r, &(&la * &lb), &mmul(r, a, b), &c("*"))?;
        rec.steps(3);
        Ok(())
    }
    shape_space(&mut v, "algebra", ZR::<BigInt>(), &degs[..5], zset(&[1, -2, 5]), &degs[..5], pair_eval);
    shape_space(&mut v, "algebra", Qbig, &degs[..5], qset(&[(1, 2), (-2, 3), (4, 1), (5, 6)]), &degs[..4], pair_eval);
    shape_space(&mut v, "long algebra", ZR::<BigInt>(), degs, vec![bi(1), -(BigInt::one() << 64u32), bi(3), (BigInt::one() << 65u32) - 1], degs, pair_only);
    shape_space(&mut v, "long algebra", Qbig, degs, qset(&[(1, 2), (-2, 3), (4, 1), (5, 6)]), degs, pair_only);
    shape_space(&mut v, "long algebra", GfOdd(bi(7)), degs, zset(&[1, 6, 3]), degs, pair_only);
    shape_space(&mut v, "long algebra", Nested(ZR::<BigInt>()), &degs[..6], vec![zset(&[1]), zset(&[0, -2, 1]), zset(&[3, 1])], &degs[..6], pair_only);
    let exps: &[usize] = &[6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65];
    exponent_space(&mut v, ZR::<BigInt>(), zset(&[0, 1, -2, 3]), 2, exps);
    exponent_space(&mut v, Qbig, qset(&[(0, 1), (1, 2), (-2, 3)]), 2, exps);
    exponent_space(&mut v, GfOdd(bi(5)), zset(&[0, 1, 2, 4]), 3, exps);
    exponent_space(&mut v, ModI32(bi(6)), zset(&[0, 1, 2, 3]), 2, exps);
    exponent_space(&mut v, Nested(ZR::<BigInt>()), vec![vec![], zset(&[1]), zset(&[0, 1])], 2, &exps[..8]);
    let ld: &[usize] = &[127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513];
    long_derivatives(&mut v, ZR::<BigInt>(), zset(&[1, -2, 5]), ld);
    long_derivatives(&mut v, ZR::<i64>(), zset(&[1, -2, 5]), ld);
    long_derivatives(&mut v, Qbig, qset(&[(1, 2), (-2, 3), (4, 1)]), ld);
    long_derivatives(&mut v, GfOdd(bi(7)), zset(&[1, 6, 3]), ld);
    long_derivatives(&mut v, ModBig(bi(6)), zset(&[1, 2, 3]), ld);
    long_derivatives(&mut v, Nested(ZR::<BigInt>()), vec![zset(&[1]), zset(&[0, -2, 1])], &ld[3..8]);
    let cl = tier.pick(14, 24);
    cancel_space(&mut v, Qbig, cl, qset(&[(1, 2), (-2, 3), (5, 6), (3, 1)]), qset(&[(1, 1), (-2, 1), (6, 1)]), qset(&[(0, 1), (1, 2), (-1, 2), (2, 3), (-2, 3), (1, 6), (-5, 6), (1, 1), (6, 1), (2, 1), (-3, 1)]));
    cancel_space(&mut v, Q64, cl, qset(&[(1, 2), (-2, 3)]), qset(&[(1, 1), (-2, 1), (3, 2)]), qset(&[(0, 1), (1, 2), (-1, 2), (2, 3), (1, 6), (6, 1)]));
    cancel_space(&mut v, ZR::<BigInt>(), cl, vec![bi(0), bi(7), -(BigInt::one() << 64u32)], zset(&[1, -2, 5]), zset(&[0, 1, -7, 7]));
    cancel_space(&mut v, ModI32(bi(6)), cl, zset(&[2, 3, 5]), zset(&[2, 4, 1]), zset(&[0, 1, 2, 3, 4]));
    cancel_space(&mut v, GfOdd(bi(5)), cl, zset(&[0, 2, 4]), zset(&[1, 3]), zset(&[0, 1, 2, 3, 4]));
    cancel_space(&mut v, Nested(ZR::<BigInt>()), tier.pick(6, 9), vec![vec![], zset(&[1, 1]), zset(&[0, 0, -2])], vec![zset(&[1]), zset(&[0, 3])], vec![vec![], zset(&[-1, -1]), zset(&[2])]);
    norm_space(&mut v, ZR::<BigInt>(), big_set(), 3);
    norm_space(&mut v, ZR::<i64>(), zset(&[0, 1, -2, 3, -3, 7]), 4);
    norm_space(&mut v, Qbig, qs_small(), 4);
    Property { id: "C11", spaces: v, assumptions: vec![
        "fixed-width integer coefficients are explored where no intermediate result overflows".into(),
        "the zeroth power of the zero polynomial is refused by design (there is no modulus to build the one from) and excluded".into(),
    ] }
}

// ---------------------------------------------------------------- C12
fn nesting_vars(r_depth: usize) -> &'static str {
    ["X", "Y", "Z"][r_depth]
}
fn conv<R: Ring>(r: &R, raw: &[R::M], rec: &mut Rec) -> Result<(), String> {
    let want = mtrim(r, raw.to_vec());
    let ls: Vec<R::L> = raw.iter().map(|c| r.lib(c)).collect();
    let n = || format!("{}: list {:?}", r.name(), raw);
    let p: Lp<R> = ls.clone().into();
    let ck = |w: &'static str, q: &Lp<R>| -> Result<(), String> {
        same(r, q, &want, &|| format!("{} {}", n(), w))?;
        ensure!(*q == p && h(q) == h(&p), "{} {}: not equal to the polynomial from the same coefficients", n(), w);
        Ok(())
    };
    ck("From<Vec>", &p)?;
    ck("From<&[T]>", &Polynomial::from(&ls[..]))?;
    ck("From<Cow::Borrowed>", &Polynomial::from(Cow::Borrowed(&ls[..])))?;
    ck("From<Cow::Owned>", &Polynomial::from(Cow::Owned(ls.clone())))?;
    ck("FromIterator", &ls.iter().cloned().collect::<Lp<R>>())?;
    match raw.len() {
        0 => {
            ck("From<[T;0]>", &Polynomial::from([] as [R::L; 0]))?;
            ck("default", &Polynomial::default())?;
            ck("zero", &Polynomial::zero())?;
        }
        1 => {
            ck("From<[T;1]>", &Polynomial::from([ls[0].clone()]))?;
            ck("From<T>", &Polynomial::from(ls[0].clone()))?;
            ck("From<&T>", &Polynomial::from(&ls[0]))?;
        }
        2 => ck("From<[T;2]>", &Polynomial::from([ls[0].clone(), ls[1].clone()]))?,
        3 => ck("From<[T;3]>", &Polynomial::from([ls[0].clone(), ls[1].clone(), ls[2].clone()]))?,
        _ => {}
    }
    // queries
    eqv!(p.len(), want.len(), "{} len", n());
    eqv!(p.degree(), want.len().checked_sub(1), "{} degree", n());
    eqv!(p.is_empty(), want.is_empty(), "{} is_empty", n());
    eqv!(p.is_zero(), want.is_empty(), "{} is_zero", n());
    eqv!(Polynomial::is_one(&p), want.len() == 1 && want[0] == r.int(1), "{} is_one", n());
    for i in 0..want.len() + 3 {
        eqv!(p.nonzero_coefficient(i).map(|c| r.model(&c)), want.get(i).cloned(), "{} nonzero_coefficient({})", n(), i);
    }
    eqv!(p.nonzero_highest_power_coefficient().map(|c| r.model(&c)), want.last().cloned(), "{} nonzero_highest_power_coefficient", n());
    eqv!(model(r, &p), want, "{} into_coefficients", n());
    eqv!((&p).into_iter().map(|c| r.model(&c)).collect::<Vec<_>>(), want, "{} &into_iter", n());
    // all interleavings of front and back iteration, one call more than there are coefficients
    let moves: Vec<u64> = if want.len() < 10 {
        (0..1u64 << (want.len() + 1)).collect() // every sequence of front and back moves
    } else {
        let m = (1u64 << (want.len() + 1).min(63)) - 1;
        let mut v: Vec<u64> = [0, m, m / 3, m / 3 * 2, m / 7, 0xcc_cccc_cccc_cccc & m].to_vec();
        v.extend((0..want.len()).map(|k| (1u64 << k) - 1)); // front after k moves at the back
        v.extend((0..want.len()).map(|k| m & !((1u64 << k) - 1)));
        v
    };
    for mask in moves {
        let (mut lo, mut hi) = (0, want.len());
        let mut it = p.iter();
        let mut into = p.clone().into_iter();
        for k in 0..=want.len() {
            eqv!(it.len(), hi - lo, "{} iter len, moves {:b}", n(), mask);
            eqv!(into.size_hint(), (hi - lo, Some(hi - lo)), "{} into_iter size_hint, moves {:b}", n(), mask);
            let (x, y, e) = if mask >> k & 1 == 0 {
                let e = if lo < hi { Some(want[lo].clone()) } else { None };
                lo = (lo + 1).min(hi);
                (it.next(), into.next(), e)
            } else {
                let e = if lo < hi { Some(want[hi - 1].clone()) } else { None };
                hi = lo.max(hi.saturating_sub(1));
                (it.next_back(), into.next_back(), e)
            };
            eqv!(x.map(|c| r.model(&c)), e, "{} iter, moves {:b} step {}", n(), mask, k);
            eqv!(y.map(|c| r.model(&c)), e, "{} into_iter, moves {:b} step {}", n(), mask, k);
            rec.steps(2);
        }
    }
    // one
    let mut t = p.clone();
    let ok = t.set_one_if_nonzero().is_ok();
    eqv!(ok, !want.is_empty(), "{} set_one_if_nonzero", n());
    let one = if want.is_empty() { vec![] } else { mone(r) };
    same(r, &t, &one, &|| format!("{} set_one_if_nonzero", n()))?;
    match p.clone().into_one_if_nonzero() {
        Ok(t) => {
            ensure!(!want.is_empty(), "{} into_one_if_nonzero Ok", n());
            same(r, &t, &one, &|| format!("{} into_one_if_nonzero", n()))?
        }
        Err(t) => ensure!(want.is_empty() && t.is_zero(), "{} into_one_if_nonzero Err", n()),
    }
    eqv!(p.to_one_if_nonzero().map(|t| model(r, &t)), if want.is_empty() { None } else { Some(one) }, "{} to_one_if_nonzero", n());
    let mut t = p.clone();
    t.set_zero();
    ensure!(t.is_zero() && t == Polynomial::zero() && h(&t) == h(&Polynomial::<R::L>::zero()), "{} set_zero", n());
    // text
    let depth = <R::L as PolynomialCoefficient>::NESTING_DEPTH;
    let mut txt = String::new();
    for (i, c) in want.iter().enumerate() {
        let s = r.lib(c).to_string();
        let s = if depth > 0 && i > 0 { format!("({})", s) } else { s };
        match i {
            0 => txt += &s,
            1 => txt += &format!(" + {}*{}", s, nesting_vars(depth)),
            _ => txt += &format!(" + {}*{}^{}", s, nesting_vars(depth), i),
        }
    }
    if want.is_empty() {
        txt = "0".into();
    }
    eqv!(p.to_string(), txt, "{} Display", n());
    rec.steps(20 + want.len() as u64);
    Ok(())
}
fn conv_space<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, len: usize) {
    let tot: u64 = (0..=len).map(|l| (set.len() as u64).pow(l as u32)).sum();
    let bound = format!("all coefficient lists (trailing zeros included) of length 0..={} over {:?}, all constructors, all front/back iteration interleavings", len, set);
    v.push(Space::new(&format!("lists {}", r.name()), &bound, tot, move |i, rec| {
        let mut i = i;
        let mut l = 0;
        while i >= (set.len() as u64).pow(l as u32) {
            i -= (set.len() as u64).pow(l as u32);
            l += 1;
        }
        let mut ix = Ix(i);
        let raw: Vec<R::M> = (0..l).map(|_| set[ix.take(set.len())].clone()).collect();
        rec.distinct(1);
        conv(&r, &raw, rec)?;
        rec.outcome(&mtrim(&r, raw.clone()));
        rec.compared();
        rec.sample(|| format!("{} list {:?}", r.name(), raw));
        Ok(())
    }));
}
/// equality and hash depend on the mathematical polynomial only: build every result along two routes
fn routes<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String> {
    let (la, lb) = (lib(r, a), lib(r, b));
    let n = || format!("{}: ({:?}), ({:?})", r.name(), a, b);
    eqv!(la == lb, a == b, "{} ==", n());
    if a == b {
        eqv!(h(&la), h(&lb), "{} hash", n());
    }
    same(r, &(&(&la + &lb) - &lb), a, &|| format!("{} a+b-b", n()))?;
    same(r, &(&(&la - &lb) + &lb), a, &|| format!("{} a-b+b", n()))?;
    same(r, &(&la - &la), &vec![], &|| format!("{} a-a", n()))?;
    let mut t = la.clone();
    t -= &la;
    t += &lb;
    same(r, &t, b, &|| format!("{} a-a+b in place", n()))?;
    ensure!((&la + &lb) == (&lb + &la) && (&la * &lb) == (&lb * &la), "{} commutativity of representations", n());
    let mut t = la.clone();
    t *= &lb;
    t -= &(&la * &lb);
    same(r, &t, &vec![], &|| format!("{} ab-ab", n()))?;
    rec.steps(12);
    Ok(())
}
fn route_space<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, len: usize) {
    let n = set.len().pow(len as u32);
    let bound = format!("all pairs of polynomials with at most {} coefficients from {:?}", len, set);
    v.push(Space::new(&format!("routes {}", r.name()), &bound, (n * n) as u64, move |i, rec| {
        let a = digit_poly(&r, &set, len, i as usize % n);
        let b = digit_poly(&r, &set, len, i as usize / n);
        rec.distinct(1);
        routes(&r, &a, &b, rec)?;
        // every computed polynomial is in normal form
        ring_pair(&r, &a, &b, rec)?;
        if i as usize / n < set.len() {
            ring_scalar(&r, &a, &set[i as usize / n], rec)?;
        }
        if b.is_empty() {
            ring_unary(&r, &a, 3, rec)?;
        }
        rec.compared();
        Ok(())
    }));
}
/// quotients, remainders, gcds, monic and reduced forms are in normal form
fn field_routes<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, len: usize)
where
    R::L: for<'a> ExactDiv<&'a R::L, Output = R::L>,
{
    let n = set.len().pow(len as u32);
    let bound = format!("quotients, remainders and scalar quotients of all pairs of polynomials with at most {} coefficients from {:?}", len, set);
    v.push(Space::new(&format!("quotient routes {}", r.name()), &bound, (n * n) as u64, move |i, rec| {
        let a = digit_poly(&r, &set, len, i as usize % n);
        let b = digit_poly(&r, &set, len, i as usize / n);
        rec.distinct(1);
        divide(&r, &a, &b, rec)?;
        if (i as usize / n) < set.len() {
            divide_scalar(&r, &a, &set[i as usize / n], rec)?;
        }
        rec.compared();
        Ok(())
    }));
}
fn long_lists<R: Ring>(v: &mut Vec<Space>, r: R, c: Vec<R::M>, maxd: usize) {
    let degs: Vec<usize> = (0..=maxd).collect();
    let sh = shapes(&r, &degs, &c);
    let tails = [0usize, 1, 2, 5, 9, 17];
    let n = sh.len();
    v.push(Space::new(
        &format!("long lists {}", r.name()),
        &format!("{} lists: six shapes of every degree up to {} with coefficients from {:?}, followed by {:?} zeros; routes between neighbouring shapes", n, maxd, c, tails),
        (n * tails.len()) as u64,
        move |i, rec| {
            let mut ix = Ix(i);
            let (k, t) = (ix.take(n), tails[ix.take(tails.len())]);
            let mut raw = sh[k].clone();
            raw.extend((0..t).map(|_| r.int(0)));
            rec.distinct(1);
            conv(&r, &raw, rec)?;
            if t == 0 {
                for d in [0, 1, 2, 6] {
                    routes(&r, &sh[k], &sh[(k + d) % n], rec)?;
                }
            }
            rec.compared();
            Ok(())
        },
    ));
}
fn divisor_space(v: &mut Vec<Space>, len: usize) {
    let els: Vec<i64> = vec![0, 1, -1, 2, 3, -4, 6];
    let divs: Vec<i64> = vec![1, 2, 3, 4, 6, 12, -1, -2, -6];
    let n = els.len().pow(len as u32);
    v.push(Space::new(
        "numerators over a common denominator",
        &format!("all element lists of length {} over {:?} with all denominators {:?}", len, els, divs),
        (n * divs.len()) as u64,
        move |i, rec| {
            let mut ix = Ix(i);
            let d = divs[ix.take(divs.len())];
            let e: Vec<i64> = (0..len).map(|_| els[ix.take(els.len())]).collect();
            let want = mtrim(&Qbig, e.iter().map(|&x| q(x, d)).collect());
            rec.distinct(1);
            let n = || format!("elements {:?} over {}", e, d);
            let p = Polynomial::<Ratio<BigInt>>::from((e.iter().map(|&x| bi(x)).collect::<Vec<_>>(), bi(d)));
            same(&Qbig, &p, &want, &n)?;
            let p64 = Polynomial::<Ratio<i64>>::from((e.clone(), d));
            same(&Q64, &p64, &want, &n)?;
            let (es, dd) = p.clone().split_out_divisor();
            let lcm = want.iter().fold(BigInt::one(), |l, x| num_integer::Integer::lcm(&l, x.denom()));
            eqv!(dd, lcm, "{} split_out_divisor denominator", n());
            eqv!(es.iter().map(|x| Ratio::new(x.clone(), dd.clone())).collect::<Vec<_>>(), want, "{} split_out_divisor", n());
            let (es2, dd2): (Vec<BigInt>, BigInt) = p.clone().into();
            eqv!((es2, dd2), (es, dd), "{} into", n());
            // integers have no denominator
            let z = Polynomial::<i64>::from((e.clone(), DivisorIsOne));
            let wz = mtrim(&ZR::<i64>(), e.iter().map(|&x| bi(x)).collect());
            same(&ZR::<i64>(), &z, &wz, &n)?;
            let (ez, _) = z.split_out_divisor();
            eqv!(ez.iter().map(|&x| bi(x)).collect::<Vec<_>>(), wz, "{} integer split", n());
            rec.steps(6);
            rec.compared();
            Ok(())
        },
    ));
}
fn coef_zero<R: Ring>(r: &R, a: &Mp<R>) -> Result<(), String>
where
    R::L: Zero,
    <R::L as PolynomialCoefficient>::Element: One,
{
    let p = lib(r, a);
    let n = || format!("{}: ({:?})", r.name(), a);
    for i in 0..a.len() + 2 {
        eqv!(r.model(&p.coefficient(i)), a.get(i).cloned().unwrap_or(r.int(0)), "{} coefficient({})", n(), i);
    }
    eqv!(r.model(&p.highest_power_coefficient()), a.last().cloned().unwrap_or(r.int(0)), "{} highest_power_coefficient", n());
    eqv!(One::is_one(&p), *a == mone(r), "{} One::is_one", n());
    let mut t = p.clone();
    t.set_one();
    same(r, &t, &mone(r), &|| format!("{} set_one", n()))?;
    same(r, &One::one(), &mone(r), &|| "one".into())
}
fn arrays(v: &mut Vec<Space>) {
    v.push(Space::new("arrays", "arrays of every supported length 0..=32 with distinct coefficients, and with a zero tail of every length", 33 * 33, |i, rec| {
        let (n, z) = ((i / 33) as usize, (i % 33) as usize);
        if z > n {
            return Ok(());
        }
        rec.distinct(1);
        let raw: Vec<BigInt> = (0..n).map(|k| if k + z >= n { bi(0) } else { bi(k as i64 + 1) }).collect();
        let want = mtrim(&ZR::<BigInt>(), raw.clone());
        macro_rules! arr {
            ($($n:literal)*) => { match n { $($n => {
                let a: [BigInt; $n] = raw.clone().try_into().unwrap();
                Polynomial::from(a)
            })* _ => unreachable!() } };
        }
        let p: Polynomial<BigInt> = arr!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
        same(&ZR::<BigInt>(), &p, &want, &|| format!("array {:?}", raw))?;
        rec.step();
        rec.compared();
        Ok(())
    }));
}
fn primitives(v: &mut Vec<Space>) {
    let mut vals: Vec<i128> = vec![];
    for k in [0u32, 7, 8, 15, 16, 31, 32, 63, 64, 100, 126] {
        for d in -1..=1i128 {
            for s in [1i128, -1] {
                vals.push(s * ((1i128 << k) + d));
            }
        }
    }
    vals.push(i128::MAX);
    vals.push(i128::MIN);
    vals.sort();
    vals.dedup();
    v.push(Space::new("primitives", &format!("all conversions from and to every primitive type at {} boundary values, for the constant and for 32 non-constant polynomials of lengths up to 34", vals.len()), vals.len() as u64, move |i, rec| {
        let x = vals[i as usize];
        rec.distinct(1);
        let r = ZR::<BigInt>();
        let p = lib(&r, &mtrim(&r, vec![BigInt::from(x)]));
        let lin = lib(&r, &vec![BigInt::from(x), bi(1)]);
        let nonconst: Vec<_> = [1usize, 2, 3, 4, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33]
            .iter()
            .flat_map(|&d| {
                let at = |dense: bool| (0..=d).map(|j| if j == 0 { BigInt::from(x) } else { bi((j == d || dense) as i64) }).collect::<Vec<_>>();
                vec![lib(&r, &at(false)), lib(&r, &at(true))]
            })
            .collect();
        macro_rules! prim {
            ($($t:ident $to:ident $from:ident)*) => {$(
                let e = <$t as TryFrom<i128>>::try_from(x).ok();
                eqv!(p.$to(), e, "{} {}", stringify!($to), x);
                for q in &nonconst {
                    eqv!(q.$to(), None, "{} of a polynomial of length {}", stringify!($to), q.len());
                }
                if let Some(e) = e {
                    eqv!(Polynomial::<BigInt>::$from(e), Some(p.clone()), "{} {}", stringify!($from), x);
                    let q: Option<Polynomial<Ratio<BigInt>>> = FromPrimitive::$from(e);
                    eqv!(q, Some(lib(&Qbig, &mtrim(&Qbig, vec![Ratio::from_integer(BigInt::from(x))]))), "{} rational {}", stringify!($from), x);
                    eqv!(Polynomial::<i16>::$from(e).map(|p| p.into_coefficients()), i16::try_from(x).ok().map(|c| if c == 0 { vec![] } else { vec![c] }), "{} i16 {}", stringify!($from), x);
                    rec.steps(3);
                }
                rec.steps(2);
            )*};
        }
        prim!(i8 to_i8 from_i8 u8 to_u8 from_u8 i16 to_i16 from_i16 u16 to_u16 from_u16 i32 to_i32 from_i32 u32 to_u32 from_u32 i64 to_i64 from_i64 u64 to_u64 from_u64 i128 to_i128 from_i128 u128 to_u128 from_u128 isize to_isize from_isize usize to_usize from_usize);
        if x.unsigned_abs() < 1 << 50 {
            eqv!(p.to_f64(), Some(x as f64), "to_f64 {}", x);
            eqv!(Polynomial::<BigInt>::from_f64(x as f64), Some(p.clone()), "from_f64 {}", x);
            eqv!(lin.to_f64(), None, "to_f64 of a linear polynomial");
            rec.steps(3);
        }
        if x.unsigned_abs() < 1 << 20 {
            eqv!(p.to_f32(), Some(x as f32), "to_f32 {}", x);
            eqv!(Polynomial::<BigInt>::from_f32(x as f32), Some(p.clone()), "from_f32 {}", x);
            eqv!(lin.to_f32(), None, "to_f32 of a linear polynomial");
            rec.steps(3);
        }
        rec.compared();
        Ok(())
    }));
}
pub fn c12(tier: Tier) -> Property {
    let mut v = vec![];
    conv_space(&mut v, ZR::<BigInt>(), zset(&[0, 1, -1, 2]), tier.pick(5, 6));
    conv_space(&mut v, ZR::<i32>(), zset(&[0, 1, -1, 7]), tier.pick(4, 5));
    conv_space(&mut v, ZR::<i64>(), zset(&[0, 1, i64::MAX, i64::MIN]), tier.pick(3, 4));
    conv_space(&mut v, Qbig, qs_small(), tier.pick(4, 5));
    conv_space(&mut v, Q64, qset(&[(0, 1), (1, 1), (-1, 2), (1, 3)]), tier.pick(4, 5));
    conv_space(&mut v, GfOdd(bi(5)), zset(&[0, 1, 2, 3, 4]), tier.pick(4, 5));
    conv_space(&mut v, ModBig(bi(6)), zset(&[0, 1, 2, 3]), tier.pick(4, 5));
    conv_space(&mut v, Nested(ZR::<BigInt>()), nest_set(), tier.pick(4, 5));
    conv_space(&mut v, Nested(Nested(ZR::<i32>())), vec![vec![], vec![zset(&[1])], vec![vec![], zset(&[0, 2])]], tier.pick(4, 5));
    route_space(&mut v, ZR::<BigInt>(), zset(&[0, 1, -1, 2]), 3);
    route_space(&mut v, Qbig, qs_small(), tier.pick(3, 3));
    route_space(&mut v, Q64, qset(&[(0, 1), (1, 6), (-5, 6), (1, 4), (1, 1)]), 3);
    route_space(&mut v, GfOdd(bi(3)), zset(&[0, 1, 2]), 4);
    route_space(&mut v, ModBig(bi(6)), zset(&[0, 1, 2, 3]), 3);
    route_space(&mut v, Nested(ZR::<i64>()), nest_set(), 2);
    field_routes(&mut v, Qbig, qset(&[(0, 1), (1, 6), (-5, 6), (2, 1), (1, 3)]), 3);
    field_routes(&mut v, GfOdd(bi(5)), zset(&[0, 1, 2, 4]), 3);
    let qs = qset(&[(0, 1), (1, 1), (-2, 3), (4, 9), (6, 1), (-3, 4), (1, 6)]);
    let n = qs.len().pow(4);
    v.push(Space::new("primitive, monic and reduced routes", &format!("all polynomials with at most 4 coefficients from {:?}", qs), n as u64, move |i, rec| {
        let a = digit_poly(&Qbig, &qs, 4, i as usize);
        rec.distinct(1);
        content(&Qbig, &a, &qcontent(&a), rec)?;
        reduced(&Qbig, &a, &a.last().cloned().unwrap_or(qi(0)), rec)?;
        monic(&Qbig, &a, rec)?;
        rec.compared();
        Ok(())
    }));
    let ml = tier.pick(36, 60);
    long_lists(&mut v, ZR::<BigInt>(), zset(&[1, -2, 5]), ml);
    long_lists(&mut v, ZR::<i32>(), zset(&[1, -2, 5]), ml);
    long_lists(&mut v, Qbig, qset(&[(1, 2), (-2, 3), (4, 1), (5, 6)]), ml);
    long_lists(&mut v, GfOdd(bi(7)), zset(&[1, 6, 3]), ml);
    long_lists(&mut v, Nested(ZR::<BigInt>()), vec![zset(&[1]), zset(&[0, -2, 1]), zset(&[3, 1])], 18);
    divisor_space(&mut v, 3);
    divisor_space(&mut v, 1);
    v.last_mut().unwrap().name = "single numerator over a denominator".into();
    let s = zset(&[0, 1, -1, 2]);
    v.push(Space::new("zero and one coefficients", "all polynomials with at most 4 coefficients from {0,1,-1,2} for integer, rational and nested types", 256, move |i, rec| {
        let a = digit_poly(&ZR::<BigInt>(), &s, 4, i as usize);
        rec.distinct(1);
        coef_zero(&ZR::<BigInt>(), &a)?;
        coef_zero(&ZR::<i8>(), &a)?;
        coef_zero(&Qbig, &a.iter().map(|x| Ratio::new(x.clone(), bi(2))).collect())?;
        coef_zero(&Nested(ZR::<BigInt>()), &a.iter().map(|x| if x.is_zero() { vec![] } else { vec![x.clone()] }).collect())?;
        rec.steps(32);
        rec.compared();
        Ok(())
    }));
    arrays(&mut v);
    primitives(&mut v);
    Property { id: "C12", spaces: v, assumptions: vec![] }
}

// ---------------------------------------------------------------- C13
/// pseudo-division identity in any commutative ring
fn pseudo<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String> {
    let (la, lb) = (lib(r, a), lib(r, b));
    let n = || format!("{}: ({:?}) by ({:?})", r.name(), a, b);
    let got = la.clone().checked_pseudo_div_rem(&lb);
    if b.is_empty() {
        ensure!(got.is_none(), "{} pseudo division by zero answered", n());
        ensure!(catch(|| la.clone().pseudo_div_rem(&lb)).is_err(), "{} pseudo_div_rem by zero answered", n());
        ensure!(catch(|| la.clone().exact_pseudo_div(&lb)).is_err(), "{} exact_pseudo_div by zero answered", n());
        ensure!(la.clone().checked_exact_pseudo_div(&lb).is_none(), "{} checked_exact_pseudo_div by zero answered", n());
        rec.steps(4);
        return Ok(());
    }
    let got = match got {
        Some(g) => g,
        None => return Err(format!("{} pseudo division refused", n())),
    };
    let (q, rem, f) = (model(r, &got.quotient), model(r, &got.remainder), r.model(&got.factor));
    let k = if a.len() < b.len() { 0 } else { a.len() - b.len() + 1 };
    let lc = b.last().unwrap();
    let want_f = (0..k).fold(r.int(1), |p, _| r.mul(&p, lc));
    eqv!(f, want_f, "{} factor", n());
    ensure!(rem.len() < b.len(), "{} remainder {:?} is not of lower degree", n(), rem);
    eqv!(madd(r, &mmul(r, &q, b), &rem), mscale(r, a, &f), "{} quotient {:?} * divisor + remainder {:?} against factor * dividend", n(), q, rem);
    same(r, &got.quotient, &q, &|| format!("{} quotient", n()))?;
    same(r, &got.remainder, &rem, &|| format!("{} remainder", n()))?;
    ensure!(la.clone().pseudo_div_rem(&lb) == got, "{} pseudo_div_rem differs from the checked form", n());
    let e = la.clone().checked_exact_pseudo_div(&lb);
    eqv!(e.is_some(), rem.is_empty(), "{} checked_exact_pseudo_div", n());
    if let Some(e) = e {
        ensure!(e.0 == got.quotient && e.1 == got.factor, "{} checked_exact_pseudo_div value {:?}", n(), e);
        ensure!(la.clone().exact_pseudo_div(&lb) == e, "{} exact_pseudo_div value", n());
    } else {
        ensure!(catch(|| la.clone().exact_pseudo_div(&lb)).is_err(), "{} inexact exact_pseudo_div answered", n());
    }
    rec.steps(5);
    Ok(())
}
/// true division in a domain whose coefficients divide exactly or not
fn divide<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String>
where
    R::L: for<'a> ExactDiv<&'a R::L, Output = R::L>,
{
    let (la, lb) = (lib(r, a), lib(r, b));
    let n = || format!("{}: ({:?}) by ({:?})", r.name(), a, b);
    let want = mdivrem(r, a, b);
    let got = la.clone().checked_div_rem(&lb);
    eqv!(got.as_ref().map(|(x, y)| (model(r, x), model(r, y))), want, "{} checked_div_rem", n());
    if want.is_some() {
        let g = la.clone().div_rem(&lb);
        ensure!(Some(&g) == got.as_ref(), "{} div_rem differs from the checked form", n());
        same(r, &g.0, &want.as_ref().unwrap().0, &|| format!("{} quotient", n()))?;
        same(r, &g.1, &want.as_ref().unwrap().1, &|| format!("{} remainder", n()))?;
    } else {
        ensure!(catch(|| la.clone().div_rem(&lb)).is_err(), "{} inexact div_rem answered", n());
    }
    let ex = match &want {
        Some((q, rem)) if rem.is_empty() => Some(q.clone()),
        _ => None,
    };
    let m = |o: Option<Lp<R>>| o.map(|x| model(r, &x));
    eqv!(m((&la).checked_exact_div(&lb)), ex, "{} checked_exact_div ref ref", n());
    eqv!(m((&la).checked_exact_div(lb.clone())), ex, "{} checked_exact_div ref move", n());
    eqv!(m(la.clone().checked_exact_div(&lb)), ex, "{} checked_exact_div move ref", n());
    eqv!(m(la.clone().checked_exact_div(lb.clone())), ex, "{} checked_exact_div move move", n());
    let mut t = la.clone();
    eqv!(t.checked_exact_div_assign(&lb).is_ok(), ex.is_some(), "{} checked_exact_div_assign ref", n());
    eqv!(model(r, &t), ex.clone().unwrap_or(a.clone()), "{} checked_exact_div_assign ref", n());
    let mut t = la.clone();
    eqv!(t.checked_exact_div_assign(lb.clone()).is_ok(), ex.is_some(), "{} checked_exact_div_assign move", n());
    eqv!(model(r, &t), ex.clone().unwrap_or(a.clone()), "{} checked_exact_div_assign move", n());
    rec.steps(8);
    if let Some(ex) = ex {
        let ex = lib(r, &ex);
        ensure!((&la).exact_div(&lb) == ex, "{} exact_div ref ref", n());
        ensure!((&la).exact_div(lb.clone()) == ex, "{} exact_div ref move", n());
        ensure!(la.clone().exact_div(&lb) == ex, "{} exact_div move ref", n());
        ensure!(la.clone().exact_div(lb.clone()) == ex, "{} exact_div move move", n());
        let mut t = la.clone();
        t.exact_div_assign(&lb);
        ensure!(t == ex, "{} exact_div_assign ref", n());
        let mut t = la.clone();
        t.exact_div_assign(lb.clone());
        ensure!(t == ex, "{} exact_div_assign move", n());
        rec.steps(6);
    } else {
        ensure!(catch(|| (&la).exact_div(&lb)).is_err(), "{} inexact exact_div answered", n());
        rec.step();
    }
    Ok(())
}
fn divide_scalar<R: Ring>(r: &R, a: &Mp<R>, s: &R::M, rec: &mut Rec) -> Result<(), String>
where
    R::L: for<'a> ExactDiv<&'a R::L, Output = R::L>,
{
    if a.is_empty() && r.is_zero(s) {
        return Ok(()); // 0 / 0 with a scalar divisor: no coefficient is divided
    }
    let (la, ls) = (lib(r, a), r.lib(s));
    let n = || format!("{}: ({:?}) by the scalar {:?}", r.name(), a, s);
    let ex: Option<Mp<R>> = if r.is_zero(s) { None } else { a.iter().map(|c| r.div(c, s)).collect() };
    let m = |o: Option<Lp<R>>| o.map(|x| model(r, &x));
    eqv!(m((&la).checked_exact_div(&ls)), ex, "{} checked_exact_div ref ref", n());
    eqv!(m((&la).checked_exact_div(ls.clone())), ex, "{} checked_exact_div ref move", n());
    eqv!(m(la.clone().checked_exact_div(&ls)), ex, "{} checked_exact_div move ref", n());
    eqv!(m(la.clone().checked_exact_div(ls.clone())), ex, "{} checked_exact_div move move", n());
    let mut t = la.clone();
    eqv!(ExactDivAssign::<&R::L>::checked_exact_div_assign(&mut t, &ls).is_ok(), ex.is_some(), "{} checked_exact_div_assign ref", n());
    eqv!(model(r, &t), ex.clone().unwrap_or(a.clone()), "{} checked_exact_div_assign ref (a refused division leaves the value)", n());
    let mut t = la.clone();
    eqv!(ExactDivAssign::<R::L>::checked_exact_div_assign(&mut t, ls.clone()).is_ok(), ex.is_some(), "{} checked_exact_div_assign move", n());
    eqv!(model(r, &t), ex.clone().unwrap_or(a.clone()), "{} checked_exact_div_assign move (a refused division leaves the value)", n());
    rec.steps(6);
    match ex {
        Some(ex) => {
            let e = lib(r, &ex);
            same(r, &(&la / &ls), &ex, &|| format!("{} /", n()))?;
            ensure!(&la / ls.clone() == e, "{} ref / move", n());
            ensure!(la.clone() / &ls == e, "{} move / ref", n());
            ensure!(la.clone() / ls.clone() == e, "{} move / move", n());
            ensure!((&la).exact_div(&ls) == e, "{} exact_div ref ref", n());
            ensure!((&la).exact_div(ls.clone()) == e, "{} exact_div ref move", n());
            ensure!(la.clone().exact_div(&ls) == e, "{} exact_div move ref", n());
            ensure!(la.clone().exact_div(ls.clone()) == e, "{} exact_div move move", n());
            let mut t = la.clone();
            t /= &ls;
            ensure!(t == e, "{} /= ref", n());
            let mut t = la.clone();
            t /= ls.clone();
            ensure!(t == e, "{} /= move", n());
            let mut t = la.clone();
            t.exact_div_assign(&ls);
            ensure!(t == e, "{} exact_div_assign ref", n());
            let mut t = la.clone();
            t.exact_div_assign(ls.clone());
            ensure!(t == e, "{} exact_div_assign move", n());
            rec.steps(12);
        }
        None => {
            ensure!(catch(|| &la / &ls).is_err(), "{} inexact / answered", n());
            rec.step();
        }
    }
    Ok(())
}
/// Div and Rem operators over a field
fn field_div<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String>
where
    R::L: PolynomialDivSupported,
{
    let (la, lb) = (lib(r, a), lib(r, b));
    let n = || format!("{}: ({:?}) by ({:?})", r.name(), a, b);
    let want = mdivrem(r, a, b);
    eqv!(la.checked_div(&lb).map(|x| model(r, &x)), want.as_ref().map(|w| w.0.clone()), "{} checked_div", n());
    eqv!(la.checked_rem(&lb).map(|x| model(r, &x)), want.as_ref().map(|w| w.1.clone()), "{} checked_rem", n());
    rec.steps(2);
    let (wq, wr) = match want {
        Some(w) => (lib(r, &w.0), lib(r, &w.1)),
        None => {
            ensure!(catch(|| &la / &lb).is_err(), "{} division by zero answered", n());
            ensure!(catch(|| la.clone() / lb.clone()).is_err(), "{} division by zero answered", n());
            ensure!(catch(|| &la % &lb).is_err(), "{} remainder by zero answered", n());
            rec.steps(3);
            return Ok(());
        }
    };
    ensure!(&la / &lb == wq, "{} / ref ref", n());
    ensure!(&la / lb.clone() == wq, "{} / ref move", n());
    ensure!(la.clone() / &lb == wq, "{} / move ref", n());
    ensure!(la.clone() / lb.clone() == wq, "{} / move move", n());
    ensure!(&la % &lb == wr, "{} % ref ref", n());
    ensure!(&la % lb.clone() == wr, "{} % ref move", n());
    ensure!(la.clone() % &lb == wr, "{} % move ref", n());
    ensure!(la.clone() % lb.clone() == wr, "{} % move move", n());
    let mut t = la.clone();
    t /= &lb;
    ensure!(t == wq, "{} /= ref", n());
    let mut t = la.clone();
    t /= lb.clone();
    ensure!(t == wq, "{} /= move", n());
    let mut t = la.clone();
    t %= &lb;
    ensure!(t == wr, "{} %= ref", n());
    let mut t = la.clone();
    t %= lb.clone();
    ensure!(t == wr, "{} %= move", n());
    rec.steps(12);
    Ok(())
}
fn powmod<R: Ring>(r: &R, a: &Mp<R>, m: &Mp<R>, max_exp: u64, rec: &mut Rec) -> Result<(), String>
where
    R::L: PolynomialDivSupported,
{
    let (la, lm) = (lib(r, a), lib(r, m));
    let mut p = mone(r);
    for e in 0..=max_exp {
        let n = || format!("{}: ({:?})^{} mod ({:?})", r.name(), a, e, m);
        if !(a.is_empty() && e == 0) {
            let want = if m.is_empty() { None } else { Some(mdivrem(r, &p, m).unwrap().1) };
            eqv!(la.checked_powmod(e, &lm).map(|x| model(r, &x)), want, "{} checked_powmod", n());
            eqv!(la.checked_powmod(BigInt::from(e), &lm).map(|x| model(r, &x)), want, "{} checked_powmod BigInt", n());
            match want {
                Some(w) => {
                    eqv!(model(r, &la.powmod(e as i32, &lm)), w, "{} powmod", n());
                }
                None => ensure!(catch(|| la.powmod(e as i32, &lm)).is_err(), "{} powmod by zero answered", n()),
            }
            rec.steps(3);
        }
        p = mmul(r, &p, a);
        if !m.is_empty() {
            p = mdivrem(r, &p, m).unwrap().1;
        }
    }
    ensure!(la.checked_powmod(-1i32, &lm).is_none(), "{}: ({:?})^-1 mod ({:?}) answered", r.name(), a, m);
    rec.step();
    Ok(())
}
fn pair_space<R: Ring, F>(v: &mut Vec<Space>, what: &str, r: R, set: Vec<R::M>, la: usize, lb: usize, f: F)
where
    F: Fn(&R, &Mp<R>, &Mp<R>, &mut Rec) -> Result<(), String> + Sync + 'static,
{
    let na = set.len().pow(la as u32);
    let nb = set.len().pow(lb as u32);
    let bound = format!("all pairs of polynomials with at most {} / {} coefficients from {:?}", la, lb, set);
    let name = format!("{} {} {}x{}/{}", what, r.name(), set.len(), la, lb);
    v.push(Space::new(&name, &bound, (na * nb) as u64, move |i, rec| {
        let a = digit_poly(&r, &set, la, i as usize % na);
        let b = digit_poly(&r, &set, lb, i as usize / na);
        rec.distinct(1);
        f(&r, &a, &b, rec)?;
        rec.compared();
        rec.sample(|| format!("({:?}), ({:?})", a, b));
        Ok(())
    }));
}
/// dividends that are multiples of the divisor plus a remainder (exact and inexact divisions of higher degree)
fn product_space<R: Ring, F>(v: &mut Vec<Space>, what: &str, r: R, set: Vec<R::M>, l: usize, rems: Vec<Mp<R>>, f: F)
where
    F: Fn(&R, &Mp<R>, &Mp<R>, &mut Rec) -> Result<(), String> + Sync + 'static,
{
    let n = set.len().pow(l as u32);
    let k = rems.len();
    let bound = format!("all a*b+c by b with a, b of at most {} coefficients from {:?} and c in {:?}", l, set, rems);
    let name = format!("{} products {} {}x{}", what, r.name(), set.len(), l);
    v.push(Space::new(&name, &bound, (n * n * k) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let c = &rems[ix.take(k)];
        let a = digit_poly(&r, &set, l, ix.take(n));
        let b = digit_poly(&r, &set, l, ix.take(n));
        rec.distinct(1);
        f(&r, &madd(&r, &mmul(&r, &a, &b), c), &b, rec)?;
        rec.compared();
        Ok(())
    }));
}
pub fn c13(tier: Tier) -> Property {
    let mut v = vec![];
    let z5 = zset(&[0, 1, -1, 2, -3]);
    let z4 = zset(&[0, 1, -2, 3]);
    let t = tier;
    fn all_exact<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String>
    where
        R::L: for<'a> ExactDiv<&'a R::L, Output = R::L>,
    {
        pseudo(r, a, b, rec)?;
        divide(r, a, b, rec)
    }
    fn all_field<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String>
    where
        R::L: PolynomialDivSupported,
    {
        pseudo(r, a, b, rec)?;
        divide(r, a, b, rec)?;
        field_div(r, a, b, rec)
    }
    pair_space(&mut v, "division", ZR::<BigInt>(), z4.clone(), t.pick(5, 6), 3, all_exact);
    pair_space(&mut v, "division", ZR::<i64>(), z5.clone(), 4, t.pick(2, 3), all_exact);
    pair_space(&mut v, "division", ZR::<i32>(), zset(&[0, 1, -1, 2]), 4, 2, all_exact);
    pair_space(&mut v, "division", Qbig, qset(&[(0, 1), (1, 1), (-1, 2), (2, 3)]), t.pick(4, 5), 3, all_field);
    pair_space(&mut v, "division", Q64, qset(&[(0, 1), (1, 1), (-1, 2)]), 4, 3, all_field);
    pair_space(&mut v, "division", GfOdd(bi(5)), zset(&[0, 1, 2, 3, 4]), t.pick(4, 5), 3, all_field);
    pair_space(&mut v, "division", GfI32(bi(2)), zset(&[0, 1]), 7, t.pick(5, 6), all_field);
    pair_space(&mut v, "division", GfBig((BigInt::one() << 61u32) - 1), vec![bi(0), bi(1), BigInt::one() << 60u32, bi(12345)], 4, 3, all_field);
    pair_space(&mut v, "pseudo division", ModI32(bi(6)), zset(&[0, 1, 2, 3]), 5, t.pick(2, 3), pseudo);
    pair_space(&mut v, "pseudo division", ModBig(bi(9)), zset(&[0, 1, 3, 8]), 4, 3, pseudo);
    pair_space(&mut v, "pseudo division", Nested(ZR::<BigInt>()), nest_set(), t.pick(3, 4), t.pick(2, 3), pseudo);
    pair_space(&mut v, "division", Nested(ZR::<BigInt>()), nest_set(), t.pick(3, 4), 2, divide);
    product_space(&mut v, "division", ZR::<BigInt>(), z4, 3, vec![vec![], zset(&[1]), zset(&[0, 2])], all_exact);
    product_space(&mut v, "division", ZR::<BigInt>(), big_set(), 2, vec![vec![], zset(&[1])], all_exact);
    product_space(&mut v, "division", Qbig, qs_small(), t.pick(2, 3), vec![vec![], qset(&[(1, 7)]), qset(&[(0, 1), (3, 2)])], all_field);
    product_space(&mut v, "division", GfOdd(bi(7)), zset(&[0, 1, 3, 6]), 3, vec![vec![], zset(&[1])], all_field);
    product_space(&mut v, "division", Nested(ZR::<BigInt>()), nest_set(), 2, vec![vec![], vec![zset(&[1])]], divide);
    let big: &[usize] = t.pick(&[0, 1, 2, 3, 5, 8, 9, 16, 17], &[0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 33]);
    let small: &[usize] = t.pick(&[0, 1, 2, 3, 5, 8], &[0, 1, 2, 3, 4, 5, 7, 8, 9]);
    shape_space(&mut v, "division", ZR::<BigInt>(), big, zset(&[1, -2, 5]), small, all_exact);
    shape_space(&mut v, "division", ZR::<BigInt>(), &big[..6], vec![bi(3), -(BigInt::one() << 64u32), (BigInt::one() << 65u32) - 1, bi(-1)], small, all_exact);
    shape_space(&mut v, "division", Qbig, big, qset(&[(1, 2), (-2, 3), (4, 1), (5, 6)]), small, all_field);
    shape_space(&mut v, "division", GfOdd(bi(7)), big, zset(&[1, 6, 3]), small, all_field);
    shape_space(&mut v, "division", GfI32(bi(2)), big, zset(&[1]), small, all_field);
    shape_space(&mut v, "exact division of products", ZR::<BigInt>(), small, zset(&[3, -2, 5, 1]), small, |r: &Zr<BigInt>, a: &Mp<Zr<BigInt>>, b: &Mp<Zr<BigInt>>, rec: &mut Rec| all_exact(r, &mmul(r, a, b), b, rec));
    shape_space(&mut v, "exact division of products", Qbig, small, qset(&[(1, 2), (-2, 3), (4, 1)]), small, |r: &Qbig, a: &Mp<Qbig>, b: &Mp<Qbig>, rec: &mut Rec| all_field(r, &mmul(r, a, b), b, rec));
    // scalars
    fn scal<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, len: usize, sc: Vec<R::M>)
    where
        R::L: for<'a> ExactDiv<&'a R::L, Output = R::L>,
    {
        let n = set.len().pow(len as u32);
        let k = sc.len();
        let bound = format!("all polynomials with at most {} coefficients from {:?} by every scalar of {:?}", len, set, sc);
        v.push(Space::new(&format!("scalar division {}", r.name()), &bound, (n * k) as u64, move |i, rec| {
            let a = digit_poly(&r, &set, len, i as usize / k);
            rec.distinct(1);
            divide_scalar(&r, &a, &sc[i as usize % k], rec)?;
            rec.compared();
            Ok(())
        }));
    }
    scal(&mut v, ZR::<BigInt>(), zset(&[0, 1, -2, 4, 6, -12]), 3, zset(&[0, 1, -1, 2, 3, -4, 6]));
    scal(&mut v, ZR::<i32>(), zset(&[0, 1, -2, 4, 6]), 3, zset(&[0, 1, -1, 2, 3]));
    scal(&mut v, Qbig, qs_small(), 3, qset(&[(0, 1), (1, 1), (-1, 1), (2, 3), (-7, 2)]));
    scal(&mut v, GfOdd(bi(5)), zset(&[0, 1, 2, 3, 4]), 3, zset(&[0, 1, 2, 3, 4]));
    scal(&mut v, Nested(ZR::<BigInt>()), nest_set(), 2, nest_set());
    // modular powers
    pair_space(&mut v, "powmod", GfOdd(bi(5)), zset(&[0, 1, 2, 4]), 3, t.pick(3, 4), move |r: &GfOdd, a: &Mp<GfOdd>, b: &Mp<GfOdd>, rec: &mut Rec| powmod(r, a, b, 9, rec));
    pair_space(&mut v, "powmod", GfI32(bi(2)), zset(&[0, 1]), 5, 5, move |r: &GfI32, a: &Mp<GfI32>, b: &Mp<GfI32>, rec: &mut Rec| powmod(r, a, b, 17, rec));
    pair_space(&mut v, "powmod", Qbig, qset(&[(0, 1), (1, 1), (-1, 2)]), 3, 3, move |r: &Qbig, a: &Mp<Qbig>, b: &Mp<Qbig>, rec: &mut Rec| powmod(r, a, b, 6, rec));
    // huge exponents: x^(p^k) mod f over GF(p) by repeated Frobenius
    v.push(Space::new("powmod with huge exponents", "x^e mod every monic cubic over GF(3), e = 3^k, 3^k+1, 2*3^k for k<=40, against repeated cubing", 27, |i, rec| {
        let r = GfOdd(bi(3));
        let mut m = vec![];
        let mut ix = Ix(i);
        for _ in 0..3 {
            m.push(bi(ix.take(3) as i64));
        }
        m.push(bi(1));
        rec.distinct(1);
        let x = zset(&[0, 1]);
        let md = |p: &Mp<GfOdd>| mdivrem(&r, p, &m).unwrap().1;
        let mut f = md(&x);
        let mut e = BigInt::one();
        let (lx, lm) = (lib(&r, &x), lib(&r, &m));
        for _ in 0..=40 {
            eqv!(model(&r, &lx.powmod(e.clone(), &lm)), f, "x^{} mod {:?}", e, m);
            eqv!(model(&r, &lx.powmod(&e + 1, &lm)), md(&mmul(&r, &f, &x)), "x^({}+1) mod {:?}", e, m);
            eqv!(model(&r, &lx.powmod(&e * 2, &lm)), md(&mmul(&r, &f, &f)), "x^(2*{}) mod {:?}", e, m);
            rec.steps(3);
            f = md(&mpow(&r, &f, 3));
            e = e * 3;
        }
        rec.compared();
        Ok(())
    }));
    Property { id: "C13", spaces: v, assumptions: vec!["zero polynomial divided by the scalar zero is outside the stated domain (no coefficient is divided)".into()] }
}

// ---------------------------------------------------------------- C14
fn field_gcd<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String>
where
    R::L: PolynomialDivSupported + PolynomialReducingFactorSupported,
{
    let (la, lb) = (lib(r, a), lib(r, b));
    let n = || format!("{}: ({:?}), ({:?})", r.name(), a, b);
    let g = mgcd(r, a, b);
    same(r, &la.gcd(&lb), &g, &|| format!("{} gcd", n()))?;
    let gl = la.gcd_lcm(&lb);
    same(r, &gl.gcd, &g, &|| format!("{} gcd_lcm gcd", n()))?;
    let lcm = if g.is_empty() { vec![] } else { mdivrem(r, &mmul(r, a, b), &g).unwrap().0 };
    same(r, &gl.lcm, &lcm, &|| format!("{} gcd_lcm lcm (gcd*lcm is the product)", n()))?;
    same(r, &la.lcm(&lb), &lcm, &|| format!("{} lcm", n()))?;
    let e = la.extended_gcd(&lb);
    same(r, &e.gcd, &g, &|| format!("{} extended_gcd gcd", n()))?;
    let (x, y) = (model(r, &e.x), model(r, &e.y));
    eqv!(madd(r, &mmul(r, &x, a), &mmul(r, &y, b)), g, "{} extended_gcd x={:?} y={:?}: x*a+y*b", n(), x, y);
    let e2 = la.extended_gcd_lcm(&lb);
    same(r, &e2.gcd, &g, &|| format!("{} extended_gcd_lcm gcd", n()))?;
    same(r, &e2.lcm, &lcm, &|| format!("{} extended_gcd_lcm lcm", n()))?;
    let (x, y) = (model(r, &e2.x), model(r, &e2.y));
    eqv!(madd(r, &mmul(r, &x, a), &mmul(r, &y, b)), g, "{} extended_gcd_lcm x={:?} y={:?}: x*a+y*b", n(), x, y);
    let s = model(r, &la.clone().subresultant_gcd(lb.clone()));
    eqv!(mmonic(r, &s), g, "{} subresultant_gcd {:?}", n(), s);
    rec.outcome(&g);
    rec.steps(6);
    resultant(r, a, b, rec)
}
fn resultant<R: Ring>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String>
where
    R::L: for<'a> ExactDiv<&'a R::L, Output = R::L>,
{
    if (a.is_empty() && b.len() < 2) || (b.is_empty() && a.len() < 2) {
        return Ok(()); // the Sylvester matrix is not defined
    }
    let n = || format!("{}: ({:?}), ({:?})", r.name(), a, b);
    let want = if a.is_empty() || b.is_empty() { r.int(0) } else { sylvester(r, a, b) };
    let got = lib(r, a).nonzero_resultant(lib(r, b));
    let got = got.map(|x| r.model(&x)).unwrap_or(r.int(0));
    eqv!(got, want, "{} resultant", n());
    rec.outcome(&want);
    rec.step();
    Ok(())
}
/// resultant() itself (needs a zero of the coefficient type) and the gcd of the integer remainder sequence
fn zresultant<R: Ring<M = BigInt>>(r: &R, a: &Mp<R>, b: &Mp<R>, rec: &mut Rec) -> Result<(), String>
where
    R::L: for<'a> ExactDiv<&'a R::L, Output = R::L> + Zero,
{
    resultant(r, a, b, rec)?;
    let n = || format!("{}: ({:?}), ({:?})", r.name(), a, b);
    let (la, lb) = (lib(r, a), lib(r, b));
    if !a.is_empty() && !b.is_empty() {
        eqv!(r.model(&la.clone().resultant(lb.clone())), sylvester(r, a, b), "{} resultant", n());
    }
    let s = model(r, &la.subresultant_gcd(lb));
    let sq: Mp<Qbig> = s.iter().map(|c| Ratio::from_integer(c.clone())).collect();
    let aq: Mp<Qbig> = a.iter().map(|c| Ratio::from_integer(c.clone())).collect();
    let bq: Mp<Qbig> = b.iter().map(|c| Ratio::from_integer(c.clone())).collect();
    eqv!(mmonic(&Qbig, &sq), mgcd(&Qbig, &aq, &bq), "{} subresultant_gcd {:?} is not an associate of the gcd", n(), s);
    rec.steps(2);
    Ok(())
}
fn content<R: Ring>(r: &R, a: &Mp<R>, want: &R::M, rec: &mut Rec) -> Result<(), String>
where
    R::L: GCD<Output = R::L> + PartialOrd + Zero + for<'a> ExactDiv<&'a R::L, Output = R::L>,
{
    let la = lib(r, a);
    let n = || format!("{}: ({:?})", r.name(), a);
    eqv!(la.nonzero_content().map(|c| r.model(&c)), if a.is_empty() { None } else { Some(want.clone()) }, "{} nonzero_content", n());
    eqv!(r.model(&la.content()), want.clone(), "{} content", n());
    let pp: Mp<R> = a.iter().map(|c| r.div(c, want).unwrap()).collect();
    same(r, &la.primitive_part(), &pp, &|| format!("{} primitive_part", n()))?;
    same(r, &la.clone().into_primitive_part(), &pp, &|| format!("{} into_primitive_part", n()))?;
    let mut t = la.clone();
    t.primitive_part_assign();
    same(r, &t, &pp, &|| format!("{} primitive_part_assign", n()))?;
    same(r, &(t * r.lib(want)), a, &|| format!("{} content*primitive part", n()))?;
    rec.steps(5);
    Ok(())
}
fn reduced<R: Ring>(r: &R, a: &Mp<R>, want: &R::M, rec: &mut Rec) -> Result<(), String>
where
    R::L: PolynomialReducingFactorSupported + for<'a> ExactDiv<&'a R::L, Output = R::L>,
{
    let la = lib(r, a);
    let n = || format!("{}: ({:?})", r.name(), a);
    eqv!(la.nonzero_reducing_factor().map(|c| r.model(&c)), if a.is_empty() { None } else { Some(want.clone()) }, "{} nonzero_reducing_factor", n());
    let pp: Mp<R> = a.iter().map(|c| r.div(c, want).unwrap()).collect();
    same(r, &la.to_reduced(), &pp, &|| format!("{} to_reduced", n()))?;
    same(r, &la.clone().into_reduced(), &pp, &|| format!("{} into_reduced", n()))?;
    let mut t = la.clone();
    t.reduce_assign();
    same(r, &t, &pp, &|| format!("{} reduce_assign", n()))?;
    rec.steps(4);
    Ok(())
}
fn monic<R: Ring>(r: &R, a: &Mp<R>, rec: &mut Rec) -> Result<(), String>
where
    R::L: for<'a> ExactDiv<&'a R::L, Output = R::L>,
{
    let la = lib(r, a);
    let n = || format!("{}: ({:?})", r.name(), a);
    let want: Option<Mp<R>> = match a.last() {
        None => Some(vec![]),
        Some(l) => a.iter().map(|c| r.div(c, l)).collect(),
    };
    if let Some(w) = want {
        same(r, &la.clone().into_monic(), &w, &|| format!("{} into_monic", n()))?;
        let mut t = la.clone();
        t.monic_assign();
        same(r, &t, &w, &|| format!("{} monic_assign", n()))?;
        rec.steps(2);
    } else {
        ensure!(catch(|| la.clone().into_monic()).is_err(), "{} into_monic answered though the leading coefficient does not divide", n());
        rec.step();
    }
    Ok(())
}
fn zcontent(a: &[BigInt]) -> BigInt {
    let g = a.iter().fold(bi(0), |g, c| num_integer::Integer::gcd(&g, c));
    if a.last().map_or(false, |c| c.is_negative()) {
        -g
    } else {
        g
    }
}
fn qcontent(a: &[Q]) -> Q {
    if a.is_empty() {
        return qi(0);
    }
    let l = a.iter().fold(bi(1), |l, c| num_integer::Integer::lcm(&l, c.denom()));
    let e: Vec<BigInt> = a.iter().map(|c| c.numer() * (&l / c.denom())).collect();
    Ratio::new(zcontent(&e), l)
}
pub fn c14(tier: Tier) -> Property {
    let mut v = vec![];
    let t = tier;
    pair_space(&mut v, "gcd", Qbig, qset(&[(0, 1), (1, 1), (-1, 2), (3, 1)]), t.pick(4, 4), t.pick(3, 4), field_gcd);
    pair_space(&mut v, "gcd", Q64, qset(&[(0, 1), (1, 1), (-2, 1)]), 3, 3, field_gcd);
    pair_space(&mut v, "gcd", GfOdd(bi(3)), zset(&[0, 1, 2]), t.pick(5, 6), t.pick(4, 5), field_gcd);
    pair_space(&mut v, "gcd", GfI32(bi(2)), zset(&[0, 1]), t.pick(7, 8), t.pick(7, 8), field_gcd);
    pair_space(&mut v, "gcd", GfBig((BigInt::one() << 61u32) - 1), vec![bi(0), bi(1), BigInt::one() << 60u32, bi(12345)], 3, 3, field_gcd);
    pair_space(&mut v, "resultant", ZR::<BigInt>(), zset(&[0, 1, -2, 3]), t.pick(4, 5), 4, zresultant);
    pair_space(&mut v, "resultant", ZR::<BigInt>(), zset(&[0, 1, -1]), t.pick(6, 7), t.pick(5, 6), zresultant);
    pair_space(&mut v, "resultant", ZR::<i64>(), zset(&[0, 1, -1, 2]), 3, 4, zresultant);
    pair_space(&mut v, "resultant", Nested(ZR::<BigInt>()), nest_set(), 3, t.pick(3, 4), resultant);
    pair_space(&mut v, "resultant", Nested(ZR::<BigInt>()), vec![vec![], zset(&[1]), zset(&[0, -1])], 4, t.pick(4, 5), resultant);
    let degs: &[usize] = t.pick(&[1, 2, 4, 7, 8], &[1, 2, 3, 4, 5, 7, 8, 10, 12]);
    shape_space(&mut v, "gcd", Qbig, degs, qset(&[(1, 2), (-2, 3), (4, 1)]), degs, field_gcd);
    shape_space(&mut v, "gcd", GfOdd(bi(7)), degs, zset(&[1, 6, 3]), degs, field_gcd);
    shape_space(&mut v, "gcd", GfI32(bi(2)), degs, zset(&[1]), degs, field_gcd);
    let rd: &[usize] = t.pick(&[1, 2, 3, 5, 6], &[1, 2, 3, 4, 5, 6, 7, 8]);
    shape_space(&mut v, "resultant", ZR::<BigInt>(), rd, zset(&[1, -2, 5]), rd, zresultant);
    shape_space(&mut v, "resultant", ZR::<BigInt>(), &rd[..4], vec![bi(3), -(BigInt::one() << 64u32), (BigInt::one() << 65u32) - 1, bi(-1)], &rd[..4], zresultant);
    shape_space(&mut v, "resultant of multiples", ZR::<BigInt>(), &rd[..4], zset(&[3, 1, -2]), &rd[..4], |r: &Zr<BigInt>, a: &Mp<Zr<BigInt>>, b: &Mp<Zr<BigInt>>, rec: &mut Rec| {
        let f = zset(&[-5, 2]);
        zresultant(r, &mmul(r, a, &f), &mmul(r, b, &f), rec)?;
        zresultant(r, &a.iter().map(|c| c * 6).collect(), &b.iter().map(|c| c * -4).collect(), rec)
    });
    shape_space(&mut v, "gcd of multiples", Qbig, &degs[..4], qset(&[(1, 1), (-2, 1), (3, 4)]), &degs[..4], |r: &Qbig, a: &Mp<Qbig>, b: &Mp<Qbig>, rec: &mut Rec| {
        for f in [qset(&[(-5, 3), (2, 1)]), qset(&[(1, 1), (0, 1), (-7, 2), (1, 5)])] {
            field_gcd(r, &mmul(r, a, &f), &mmul(r, b, &f), rec)?;
        }
        Ok(())
    });
    // remainder sequences of every degree profile
    fn sequences<R: Ring, F>(v: &mut Vec<Space>, what: &str, r: R, degs: &'static [usize], k: usize, leads: Vec<R::M>, low: Vec<R::M>, last: Vec<Mp<R>>, f: F)
    where
        F: Fn(&R, &Mp<R>, &Mp<R>, &mut Rec) -> Result<(), String> + Sync + 'static,
    {
        let (nd, nl, nw, nf) = (degs.len(), leads.len(), low.len(), last.len());
        let bound = format!("all pairs with {} Euclidean quotients of degrees {:?}, leading coefficients from {:?} and lower coefficients rotating through {:?}, ending in each of {:?}; both orders", k, degs, leads, low, last);
        let total = (nd * nl).pow(k as u32) * nw * nf;
        v.push(Space::new(&format!("{} of {}-step sequences {}", what, k, r.name()), &bound, total as u64, move |i, rec| {
            let mut ix = Ix(i);
            let mut a: Mp<R> = last[ix.take(nf)].clone();
            let w = ix.take(nw);
            let mut b: Mp<R> = vec![];
            for _ in 0..k {
                let d = degs[ix.take(nd)];
                let l = leads[ix.take(nl)].clone();
                let q: Mp<R> = (0..d).map(|j| low[(w + j) % nw].clone()).chain(Some(l)).collect();
                let c = madd(&r, &mmul(&r, &q, &a), &b);
                b = std::mem::replace(&mut a, c);
            }
            rec.distinct(1);
            f(&r, &a, &b, rec)?;
            f(&r, &b, &a, rec)?;
            rec.compared();
            Ok(())
        }));
    }
    sequences(&mut v, "resultant", ZR::<BigInt>(), t.pick(&[1, 2, 3, 4], &[1, 2, 3, 4, 5]), 3, zset(&[1, -3]), zset(&[1, -2]), vec![zset(&[-2]), zset(&[3, 2])], zresultant);
    sequences(&mut v, "resultant", ZR::<BigInt>(), &[1, 2, 3, 4], 4, zset(&[-3]), zset(&[1, 2]), vec![zset(&[5])], zresultant);
    sequences(&mut v, "resultant", ZR::<BigInt>(), t.pick(&[1, 3], &[1, 2, 3, 4]), 4, zset(&[2, -3]), t.pick(zset(&[1]), zset(&[0, 1])), t.pick(vec![zset(&[1])], vec![zset(&[1]), zset(&[3, 2])]), zresultant);
    sequences(&mut v, "gcd", Qbig, &[1, 2, 3], 3, qset(&[(1, 1), (-2, 3)]), qset(&[(1, 2), (-3, 1)]), vec![qset(&[(1, 1)]), qset(&[(2, 3), (-1, 1)])], field_gcd);
    sequences(&mut v, "gcd", GfOdd(bi(7)), &[1, 2, 3], t.pick(3, 4), zset(&[1, 3]), zset(&[6, 2]), vec![zset(&[1]), zset(&[4, 5]), zset(&[1, 0, 1])], field_gcd);
    sequences(&mut v, "resultant", Nested(ZR::<BigInt>()), &[1, 2], t.pick(3, 4), vec![zset(&[1]), zset(&[1, 2])], vec![zset(&[0, -1])], vec![vec![zset(&[1])], vec![zset(&[1, 1])]], resultant);
    // common factors: gcd of f*g and f*h
    fn common<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, lf: usize, lg: usize)
    where
        R::L: PolynomialDivSupported + PolynomialReducingFactorSupported,
    {
        let (nf, ng) = (set.len().pow(lf as u32), set.len().pow(lg as u32));
        let bound = format!("all (f*g, f*h) with f of at most {} and g, h of at most {} coefficients from {:?}", lf, lg, set);
        v.push(Space::new(&format!("common factors {}", r.name()), &bound, (nf * ng * ng) as u64, move |i, rec| {
            let mut ix = Ix(i);
            let f = digit_poly(&r, &set, lf, ix.take(nf));
            let g = digit_poly(&r, &set, lg, ix.take(ng));
            let h = digit_poly(&r, &set, lg, ix.take(ng));
            rec.distinct(1);
            field_gcd(&r, &mmul(&r, &f, &g), &mmul(&r, &f, &h), rec)?;
            rec.compared();
            Ok(())
        }));
    }
    common(&mut v, Qbig, qset(&[(0, 1), (1, 1), (-1, 2)]), 3, t.pick(2, 3));
    common(&mut v, GfOdd(bi(5)), zset(&[0, 1, 3]), 3, t.pick(2, 3));
    let zs = zset(&[0, 1, -2, 4, 6, -9]);
    let n = zs.len().pow(t.pick(4, 5));
    let l = t.pick(4, 5) as usize;
    v.push(Space::new("content, primitive part, monic and reduced forms, integers", &format!("all polynomials with at most {} coefficients from {:?}", l, zs), n as u64, move |i, rec| {
        let a = digit_poly(&ZR::<BigInt>(), &zs, l, i as usize);
        rec.distinct(1);
        let c = zcontent(&a);
        content(&ZR::<BigInt>(), &a, &c, rec)?;
        content(&ZR::<i32>(), &a, &c, rec)?;
        reduced(&ZR::<BigInt>(), &a, &c, rec)?;
        reduced(&ZR::<i64>(), &a, &c, rec)?;
        monic(&ZR::<BigInt>(), &a, rec)?;
        rec.compared();
        Ok(())
    }));
    let bs = big_set();
    v.push(Space::new("content and primitive part, large integers", &format!("all polynomials with at most 3 coefficients from 6 * {:?}", bs), bs.len().pow(3) as u64, move |i, rec| {
        let a: Vec<BigInt> = digit_poly(&ZR::<BigInt>(), &bs, 3, i as usize).into_iter().map(|x| x * 6).collect();
        rec.distinct(1);
        content(&ZR::<BigInt>(), &a, &zcontent(&a), rec)?;
        rec.compared();
        Ok(())
    }));
    let qs = qset(&[(0, 1), (1, 1), (-2, 3), (4, 9), (6, 1), (-3, 4)]);
    let l = t.pick(4, 5) as usize;
    let n = qs.len().pow(l as u32);
    v.push(Space::new("content, primitive part, monic and reduced forms, rationals", &format!("all polynomials with at most {} coefficients from {:?}", l, qs), n as u64, move |i, rec| {
        let a = digit_poly(&Qbig, &qs, l, i as usize);
        rec.distinct(1);
        let c = qcontent(&a);
        content(&Qbig, &a, &c, rec)?;
        content(&Q64, &a, &c, rec)?;
        let lead = a.last().cloned().unwrap_or(qi(0));
        reduced(&Qbig, &a, &lead, rec)?;
        reduced(&Q64, &a, &lead, rec)?;
        monic(&Qbig, &a, rec)?;
        rec.compared();
        Ok(())
    }));
    v.push(Space::new("monic and reduced forms, GF(7)", "all polynomials with at most 3 coefficients over GF(7)", 343, move |i, rec| {
        let r = GfOdd(bi(7));
        let a = digit_poly(&r, &zset(&[0, 1, 2, 3, 4, 5, 6]), 3, i as usize);
        rec.distinct(1);
        reduced(&r, &a, &a.last().cloned().unwrap_or(bi(0)), rec)?;
        monic(&r, &a, rec)?;
        rec.compared();
        Ok(())
    }));
    Property { id: "C14", spaces: v, assumptions: vec!["resultants of the zero polynomial with a constant are not defined by the Sylvester matrix and excluded".into()] }
}

// ---------------------------------------------------------------- C15
fn sgn_changes(seq: &[P], x: &Q) -> i64 {
    let mut last = 0;
    let mut n = 0;
    for p in seq {
        let s = sgn(&peval(p, x));
        if s != 0 {
            if last != 0 && s != last {
                n += 1;
            }
            last = s;
        }
    }
    n
}
fn positive_multiple(a: &P, b: &P) -> bool {
    if a.len() != b.len() || a.is_empty() {
        return a == b;
    }
    let k = a.last().unwrap() / b.last().unwrap();
    k.is_positive() && pscale(b, &k) == *a
}
fn sturm_check(what: &str, p: &P, seq: Vec<P>, pts: &[Q], rec: &mut Rec) -> Result<(), String> {
    ensure!(!seq.is_empty() && positive_multiple(&seq[0], p), "{} of ({:?}): the sequence {:?} does not start with a positive multiple", what, p, seq);
    let st = Sturm::new(p);
    let ok: Vec<&Q> = pts.iter().filter(|x| !peval(p, x).is_zero()).collect();
    let ch: Vec<i64> = ok.iter().map(|x| sgn_changes(&seq, x)).collect();
    // neighbouring points suffice: both sides are additive over adjacent intervals
    for w in 1..ok.len() {
        let want = st.half_open(ok[w - 1], ok[w]);
        eqv!(ch[w - 1] - ch[w], want, "{} of ({:?}): drop in sign changes between {} and {}, sequence {:?}", what, p, ok[w - 1], ok[w], seq);
    }
    rec.steps(ok.len() as u64);
    Ok(())
}
fn sturm_all(p: &P, pts: &[Q], ints: bool, rec: &mut Rec) -> Result<(), String> {
    let m = |v: Vec<Polynomial<Q>>| v.iter().map(|x| model(&Qbig, x)).collect::<Vec<_>>();
    let lp = lib(&Qbig, p);
    let s = m(lp.to_sturm_sequence());
    ensure!(m(lp.clone().into_sturm_sequence()) == s, "({:?}): into_sturm_sequence differs from to_sturm_sequence", p);
    sturm_check("Sturm sequence", p, s, pts, rec)?;
    let s = m(lp.to_primitive_sturm_sequence());
    ensure!(m(lp.clone().into_primitive_sturm_sequence()) == s, "({:?}): into_primitive_sturm_sequence differs from to_primitive_sturm_sequence", p);
    sturm_check("rational primitive Sturm sequence", p, s, pts, rec)?;
    if ints {
        let z: Vec<BigInt> = p.iter().map(|c| c.to_integer()).collect();
        let r = ZR::<BigInt>();
        let lz = lib(&r, &z);
        let m = |v: Vec<Polynomial<BigInt>>| v.iter().map(|x| pzb(&model(&r, x))).collect::<Vec<_>>();
        let s = m(lz.to_primitive_sturm_sequence());
        ensure!(m(lz.clone().into_primitive_sturm_sequence()) == s, "({:?}): into_primitive_sturm_sequence differs from to_primitive_sturm_sequence", p);
        sturm_check("integer primitive Sturm sequence", p, s, pts, rec)?;
        rec.steps(2);
    }
    rec.steps(4);
    Ok(())
}
fn pts(k: i64, d: i64) -> Vec<Q> {
    let mut v: Vec<Q> = (-k..=k).map(|x| q(x, d)).collect();
    v.insert(0, qi(-1000000));
    v.push(qi(1000000));
    v
}
pub fn c15(tier: Tier) -> Property {
    let mut v = vec![];
    let sets: Vec<(Vec<i64>, usize)> = match tier {
        Tier::Quick => vec![(vec![0, 1, -1, 2, -3], 5), (vec![0, 1, -1], 7)],
        Tier::Thorough => vec![(vec![0, 1, -1, 2, -3], 6), (vec![0, 1, -1], 8), (vec![0, 1, -2, 5, -7, 11], 5)],
    };
    for (set, len) in sets {
        let n = set.len().pow(len as u32);
        let set = zset(&set);
        let bound = format!("all non-zero integer polynomials with at most {} coefficients from {:?}; all pairs of points k/2, |k|<=9, and +-10^6", len, set);
        v.push(Space::new(&format!("integer coefficients {} x {}", set.len(), len), &bound, n as u64 - 1, move |i, rec| {
            let a = digit_poly(&ZR::<BigInt>(), &set, len, i as usize + 1);
            if a.is_empty() {
                return Ok(());
            }
            rec.distinct(1);
            sturm_all(&pzb(&a), &pts(9, 2), true, rec)?;
            rec.compared();
            rec.sample(|| format!("{:?}", a));
            Ok(())
        }));
    }
    // products of known factors: repeated roots, close roots, huge roots
    let facs: Vec<P> = vec![
        pz(&[0, 1]),
        pz(&[-1, 1]),
        pz(&[1, 2]),
        pz(&[-2, 0, 1]),
        pz(&[1, 0, 1]),
        pz(&[-1, -1, 1]),
        vec![q(-1, 3), q(1, 1)],
        pz(&[-1000, 1]),
        pz(&[-1001, 1000]),
    ];
    let k = tier.pick(3, 4);
    let cs = [qi(1), qi(-1), q(-2, 3), qi(6)];
    let n = facs.len().pow(k) * cs.len();
    v.push(Space::new("products", &format!("all products of {} factors (with repetition) from {} linear and quadratic factors, times {:?}; points k/4, |k|<=12 and around close and large roots", k, facs.len(), cs), n as u64, move |i, rec| {
        let mut ix = Ix(i);
        let mut p = vec![cs[ix.take(cs.len())].clone()];
        for _ in 0..k {
            p = pmul(&p, &facs[ix.take(facs.len())]);
        }
        rec.distinct(1);
        let mut ps = pts(12, 4);
        ps.extend([q(2001, 2000), q(1002, 1000), q(999, 1), q(1999, 2), q(1001, 1)]);
        ps.sort();
        let ints = p.iter().all(|c| c.is_integer());
        sturm_all(&p, &ps, ints, rec)?;
        rec.compared();
        Ok(())
    }));
    // long and wide: all roots real, and structured polynomials
    let mut list: Vec<P> = vec![];
    for d in 1..=tier.pick(10usize, 14) {
        // Chebyshev, Legendre-like (x^2-1)^(d)-th derivative, Wilkinson, shifted and scaled
        let (mut a, mut b) = (pz(&[1]), pz(&[0, 1]));
        for _ in 1..d {
            let mut n = pmul(&pz(&[0, 2]), &b);
            for (k, c) in a.iter().enumerate() {
                n[k] -= c;
            }
            a = b;
            b = n;
        }
        list.push(b.clone());
        let w = (1..=d as i64).fold(pz(&[1]), |p, k| pmul(&p, &pz(&[-k, 1])));
        let mut w1 = w.clone();
        w1[0] += q(1, 1000);
        list.push(w);
        list.push(w1);
        list.push((1..=d as i64).fold(pz(&[-3]), |p, k| pmul(&p, &vec![q(-1, k), qi(1)])));
    }
    let big = BigInt::one() << 64u32;
    for c in [vec![qi(1), qi(-2), qi(5)], vec![qi(1), Q::from_integer(-big.clone()), Q::from_integer(big.clone() * 2 - 1)], vec![q(1, 2), q(-2, 3)]] {
        list.extend(shapes(&Qbig, tier.pick(&[1, 4, 6, 7, 9, 12], &[1, 3, 4, 6, 7, 9, 10, 12, 16]), &c).into_iter().filter(|p| !p.is_empty()));
    }
    v.push(Space::new("long polynomials", &format!("{} fixed polynomials of degree up to {}: Chebyshev, Wilkinson and perturbed, reciprocal roots, and six shapes with small, 65-bit and rational coefficients; points k/8, |k| <= 30, integers up to 16, and +-10^6", list.len(), tier.pick(12, 16)), list.len() as u64, move |i, rec| {
        let p = &list[i as usize];
        rec.distinct(1);
        let mut ps = pts(30, 8);
        ps.extend((4..=16).flat_map(|k| [qi(k), qi(-k), q(2 * k + 1, 2)]));
        ps.sort();
        sturm_all(p, &ps, p.iter().all(|c| c.is_integer()), rec)?;
        rec.compared();
        rec.sample(|| format!("{:?}", p));
        Ok(())
    }));
    let qs = qs_small();
    let len = tier.pick(4, 5);
    v.push(Space::new("rational coefficients", &format!("all non-zero polynomials with at most {} coefficients from {:?}", len, qs), qs.len().pow(len) as u64 - 1, move |i, rec| {
        let a = digit_poly(&Qbig, &qs, len as usize, i as usize + 1);
        if a.is_empty() {
            return Ok(());
        }
        rec.distinct(1);
        sturm_all(&a, &pts(9, 2), false, rec)?;
        rec.compared();
        Ok(())
    }));
    Property { id: "C15", spaces: v, assumptions: vec!["interval end points are not roots, as the property states".into()] }
}

// ---------------------------------------------------------------- C16
fn proportional(a: &P, b: &P) -> bool {
    pmonic(a) == pmonic(b)
}
fn square_free_of(p: &P) -> bool {
    pgcd(p, &pderiv(p)).len() <= 1
}
fn yun<R: Ring<M = Q>>(r: &R, p: &P, rec: &mut Rec) -> Result<(), String>
where
    R::L: PolynomialDivSupported + RingCharacteristic<Type = CharacteristicZero> + PolynomialReducingFactorSupported + GCD<Output = R::L> + PartialOrd,
{
    let lp = lib(r, p);
    let n = || format!("{}: ({:?})", r.name(), p);
    let f = lp.square_free_factorization_using_yuns_algorithm();
    let c = r.model(&f.constant_factor);
    let parts: Vec<P> = f.polynomial_factors.iter().map(|x| model(r, x)).collect();
    let mut prod = trim(vec![c.clone()]);
    for (i, x) in parts.iter().enumerate() {
        for _ in 0..=i {
            prod = pmul(&prod, x);
        }
    }
    eqv!(prod, p.clone(), "{} constant {:?} and parts {:?} multiplied together", n(), c, parts);
    if !p.is_empty() {
        for (i, x) in parts.iter().enumerate() {
            ensure!(!x.is_empty() && square_free_of(x), "{} part {} = {:?} is not square-free", n(), i + 1, x);
            for y in &parts[i + 1..] {
                ensure!(pgcd(x, y).len() == 1, "{} parts {:?} and {:?} are not coprime", n(), x, y);
            }
            // multiplicity: the i+1 fold part of p by the derivative definition
        }
        eqv!(lp.is_square_free(), square_free_of(p), "{} is_square_free", n());
    }
    rec.steps(2);
    Ok(())
}
pub fn c16(tier: Tier) -> Property {
    let mut v = vec![];
    let facs: Vec<P> = vec![pz(&[0, 1]), pz(&[-1, 2]), pz(&[1, 1, 1]), pz(&[-2, 0, 0, 1])];
    let me = tier.pick(3usize, 4);
    let cs = [qi(1), qi(-1), q(3, 4), q(-6, 5)];
    let n = (me + 1).pow(facs.len() as u32) * cs.len();
    v.push(Space::new("multiplicity patterns", &format!("all products of x, 2x-1, x^2+x+1, x^3-2 with multiplicities 0..={} each, times {:?}", me, cs), n as u64, move |i, rec| {
        let mut ix = Ix(i);
        let mut p = vec![cs[ix.take(cs.len())].clone()];
        let mut es = vec![];
        for f in &facs {
            let e = ix.take(me + 1);
            es.push(e);
            for _ in 0..e {
                p = pmul(&p, f);
            }
        }
        rec.distinct(1);
        yun(&Qbig, &p, rec)?;
        if p.len() < 6 {
            yun(&Q64, &p, rec)?;
        }
        // multiplicities by construction
        let f = lib(&Qbig, &p).square_free_factorization_using_yuns_algorithm();
        for m in 1..=me.max(f.polynomial_factors.len()) {
            let mut want = vec![qi(1)];
            for (k, e) in es.iter().enumerate() {
                if *e == m {
                    want = pmul(&want, &facs[k]);
                }
            }
            let got = f.polynomial_factors.get(m - 1).map(|x| model(&Qbig, x)).unwrap_or(vec![qi(1)]);
            ensure!(proportional(&got, &want), "x^{} (2x-1)^{} (x^2+x+1)^{} (x^3-2)^{}: part of multiplicity {} is {:?}", es[0], es[1], es[2], es[3], m, got);
        }
        eqv!(lib(&Qbig, &p).is_square_free(), es.iter().all(|e| *e < 2), "is_square_free of exponents {:?}", es);
        rec.outcome(&es);
        rec.compared();
        rec.sample(|| format!("exponents {:?}", es));
        Ok(())
    }));
    // high multiplicities
    let hm = tier.pick(9usize, 14);
    let pairs: Vec<(P, P)> = vec![(pz(&[0, 1]), pz(&[-1, 2])), (pz(&[3, 1]), pz(&[1, 1, 1])), (vec![q(-1, 3), qi(1)], pz(&[-2, 0, 0, 1])), (pz(&[1 << 33, 1]), pz(&[1, -(1 << 35)]))];
    v.push(Space::new("high multiplicities", &format!("f^a g^b for 4 pairs of coprime square-free f, g and all a, b up to {}, times 1 and -7/2", hm), (4 * 2 * (hm + 1) * (hm + 1)) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let c = if ix.take(2) == 0 { qi(1) } else { q(-7, 2) };
        let (f, g) = &pairs[ix.take(4)];
        let (a, b) = (ix.take(hm + 1), ix.take(hm + 1));
        let mut p = vec![c];
        for _ in 0..a {
            p = pmul(&p, f);
        }
        for _ in 0..b {
            p = pmul(&p, g);
        }
        rec.distinct(1);
        yun(&Qbig, &p, rec)?;
        let r = lib(&Qbig, &p).square_free_factorization_using_yuns_algorithm();
        for m in 1..=hm.max(r.polynomial_factors.len()) {
            let mut want = vec![qi(1)];
            if a == m {
                want = pmul(&want, f);
            }
            if b == m {
                want = pmul(&want, g);
            }
            let got = r.polynomial_factors.get(m - 1).map(|x| model(&Qbig, x)).unwrap_or(vec![qi(1)]);
            ensure!(proportional(&got, &want), "({:?})^{} ({:?})^{}: part of multiplicity {} is {:?}", f, a, g, b, m, got);
        }
        rec.compared();
        Ok(())
    }));
    let set = qset(&[(0, 1), (1, 1), (-2, 1), (1, 2)]);
    let len = tier.pick(6, 7);
    v.push(Space::new("all small polynomials", &format!("all polynomials with at most {} coefficients from {:?}", len, set), set.len().pow(len) as u64, move |i, rec| {
        let a = digit_poly(&Qbig, &set, len as usize, i as usize);
        rec.distinct(1);
        yun(&Qbig, &a, rec)?;
        rec.compared();
        Ok(())
    }));
    let set = qset(&[(0, 1), (1, 1), (-1, 1), (2, 1), (2, 3)]);
    let l = 3;
    let n = set.len().pow(l);
    v.push(Space::new("squares times cofactors", &format!("all a^2*b and a^3*b with a, b of at most {} coefficients from {:?}", l, set), (n * n) as u64, move |i, rec| {
        let a = digit_poly(&Qbig, &set, l as usize, i as usize % n);
        let b = digit_poly(&Qbig, &set, l as usize, i as usize / n);
        rec.distinct(1);
        let s = pmul(&pmul(&a, &a), &b);
        yun(&Qbig, &s, rec)?;
        yun(&Qbig, &pmul(&s, &a), rec)?;
        rec.compared();
        Ok(())
    }));
    // square-free test over finite fields, by trial division with all squares
    for (p, len) in [(2i64, tier.pick(8, 9)), (3, tier.pick(6, 7)), (5, tier.pick(4, 5))] {
        let n = (p as usize).pow(len as u32);
        v.push(Space::new(&format!("square-free test over GF({})", p), &format!("all non-zero polynomials with at most {} coefficients, against trial division by all squares", len), n as u64 - 1, move |i, rec| {
            let r = GfI32(bi(p));
            let set: Vec<BigInt> = (0..p).map(bi).collect();
            let a = digit_poly(&r, &set, len, i as usize + 1);
            rec.distinct(1);
            let mut sf = true;
            let dmax = (a.len() - 1) / 2;
            for k in p as usize..(p as usize).pow(dmax as u32 + 1) {
                let d = digit_poly(&r, &set, dmax + 1, k);
                let d2 = mmul(&r, &d, &d);
                if d.len() >= 2 && mdivrem(&r, &a, &d2).unwrap().1.is_empty() {
                    sf = false;
                    break;
                }
            }
            eqv!(lib(&r, &a).is_square_free(), sf, "is_square_free of {:?} over GF({})", a, p);
            rec.step();
            rec.compared();
            Ok(())
        }));
    }
    Property { id: "C16", spaces: v, assumptions: vec!["the square-free test of the zero polynomial is outside the stated domain".into()] }
}

// ---------------------------------------------------------------- C28
/// a coefficient ring together with the integers-over-a-divisor representation of its coefficients
pub trait Coef: Ring {
    /// the element holding a model value that needs no divisor
    fn elem(&self, m: &Self::M) -> <Self::L as PolynomialCoefficient>::Element;
    fn elem_model(&self, e: &<Self::L as PolynomialCoefficient>::Element) -> Self::M;
    fn divisor(&self, d: i64) -> Option<<Self::L as PolynomialCoefficient>::Divisor>;
    fn divisor_model(&self, d: &<Self::L as PolynomialCoefficient>::Divisor) -> Self::M;
    /// true when the elements have no common factor with the positive divisor
    fn lowest(&self, e: &[Self::M], d: &Self::M) -> bool;
    fn needs_divisor(&self, m: &Self::M) -> bool;
    fn zero_pow_zero(&self) -> bool {
        true
    }
}
macro_rules! coef_trivial {
    () => {
        fn elem(&self, m: &Self::M) -> <Self::L as PolynomialCoefficient>::Element {
            self.lib(m)
        }
        fn elem_model(&self, e: &<Self::L as PolynomialCoefficient>::Element) -> Self::M {
            self.model(e)
        }
        fn divisor(&self, d: i64) -> Option<DivisorIsOne> {
            if d == 1 {
                Some(DivisorIsOne)
            } else {
                None
            }
        }
        fn divisor_model(&self, _: &DivisorIsOne) -> Self::M {
            self.int(1)
        }
        fn lowest(&self, _: &[Self::M], _: &Self::M) -> bool {
            true
        }
        fn needs_divisor(&self, _: &Self::M) -> bool {
            false
        }
    };
}
impl<T> Coef for Zr<T>
where
    T: PolynomialCoefficient<Element = T, Divisor = DivisorIsOne> + Debug + Display + mccore::ints::Int,
{
    coef_trivial!();
}
macro_rules! coef_mod {
    ($($n:ident)*) => {$(
        impl Coef for $n {
            coef_trivial!();
        }
    )*};
}
coef_mod!(GfI32 GfOdd GfBig ModI32 ModBig);
impl<R: Ring> Coef for Nested<R>
where
    R::L: PolynomialCoefficient<Divisor = DivisorIsOne, Element = <R as Ring>::L> + One + Zero,
{
    coef_trivial!();
    fn zero_pow_zero(&self) -> bool {
        false
    }
}
macro_rules! coef_ratio {
    ($n:ident, $t:ty, $from:expr, $to:expr) => {
        impl Coef for $n {
            fn elem(&self, m: &Q) -> $t {
                assert!(m.is_integer());
                $from(m.numer())
            }
            fn elem_model(&self, e: &$t) -> Q {
                Ratio::from_integer($to(e))
            }
            fn divisor(&self, d: i64) -> Option<$t> {
                Some($from(&bi(d)))
            }
            fn divisor_model(&self, d: &$t) -> Q {
                Ratio::from_integer($to(d))
            }
            fn lowest(&self, e: &[Q], d: &Q) -> bool {
                let g = e.iter().fold(d.numer().clone(), |g, e| num_integer::Integer::gcd(&g, e.numer()));
                d.is_positive() && g.is_one()
            }
            fn needs_divisor(&self, m: &Q) -> bool {
                !m.is_integer()
            }
        }
    };
}
coef_ratio!(Qbig, BigInt, |b: &BigInt| b.clone(), |b: &BigInt| b.clone());
coef_ratio!(Q64, i64, |b: &BigInt| b.to_i64().unwrap(), |b: &i64| bi(*b));

fn coef_one<R: Coef>(r: &R, m: &R::M, mults: &[usize], exps: usize, rec: &mut Rec) -> Result<(), String> {
    type E<R> = <<R as Ring>::L as PolynomialCoefficient>::Element;
    let c = r.lib(m);
    let (zero, one) = (r.int(0), r.int(1));
    let (lz, lo) = (r.lib(&zero), r.lib(&one));
    let n = r.name();
    eqv!(R::L::is_coefficient_zero(&c), *m == zero, "{}: is_coefficient_zero({:?})", n, m);
    eqv!(R::L::is_coefficient_one(&c), *m == one, "{}: is_coefficient_one({:?})", n, m);
    let mut t = c.clone();
    R::L::set_coefficient_zero(&mut t);
    eqv!(t, lz, "{}: set_coefficient_zero({:?})", n, m);
    let mut t = c.clone();
    R::L::set_coefficient_one(&mut t);
    eqv!(t, lo, "{}: set_coefficient_one({:?})", n, m);
    for own in [false, true] {
        let cow = || if own { Cow::Owned(c.clone()) } else { Cow::Borrowed(&c) };
        eqv!(R::L::make_zero_coefficient_from_coefficient(cow()), lz, "{}: zero from coefficient {:?} owned={}", n, m, own);
        eqv!(R::L::make_one_coefficient_from_coefficient(cow()), lo, "{}: one from coefficient {:?} owned={}", n, m, own);
        let (e, d) = R::L::coefficient_to_element(cow());
        let (em, dm) = (r.elem_model(&e), r.divisor_model(&d));
        ensure!(r.mul(m, &dm) == em && r.lowest(&[em.clone()], &dm), "{}: coefficient_to_element({:?}) = {:?} over {:?}", n, m, em, dm);
    }
    rec.steps(10);
    let mut w = one.clone();
    for k in 0..=exps {
        if k > 0 || r.zero_pow_zero() || !r.is_zero(m) {
            eqv!(r.model(&R::L::coefficient_pow_usize(c.clone(), k)), w, "{}: coefficient {:?} to the {}", n, m, k);
            rec.step();
        }
        w = r.mul(&w, m);
    }
    if r.needs_divisor(m) {
        return Ok(());
    }
    let e: E<R> = r.elem(m);
    eqv!(R::L::is_element_zero(&e), *m == zero, "{}: is_element_zero({:?})", n, m);
    eqv!(R::L::is_element_one(&e), *m == one, "{}: is_element_one({:?})", n, m);
    let mut t = e.clone();
    R::L::set_element_zero(&mut t);
    eqv!(t, r.elem(&zero), "{}: set_element_zero({:?})", n, m);
    let mut t = e.clone();
    R::L::set_element_one(&mut t);
    eqv!(t, r.elem(&one), "{}: set_element_one({:?})", n, m);
    let mut t = e.clone();
    R::L::negate_element(&mut t);
    eqv!(r.elem_model(&t), r.neg(m), "{}: negate_element({:?})", n, m);
    for own in [false, true] {
        let cow = || if own { Cow::Owned(e.clone()) } else { Cow::Borrowed(&e) };
        eqv!(R::L::make_zero_element(cow()), r.elem(&zero), "{}: zero element from {:?} owned={}", n, m, own);
        eqv!(R::L::make_one_element(cow()), r.elem(&one), "{}: one element from {:?} owned={}", n, m, own);
        eqv!(R::L::make_zero_coefficient_from_element(cow()), lz, "{}: zero coefficient from element {:?} owned={}", n, m, own);
        eqv!(R::L::make_one_coefficient_from_element(cow()), lo, "{}: one coefficient from element {:?} owned={}", n, m, own);
        for dv in [1, 2, -2, 3, -1, 6, -9] {
            let d = match r.divisor(dv) {
                None => continue,
                Some(d) => d,
            };
            let want = r.div(m, &r.int(dv)).ok_or("model division")?;
            for own2 in [false, true] {
                let dcow = || if own2 { Cow::Owned(d.clone()) } else { Cow::Borrowed(&d) };
                let got = R::L::make_coefficient(cow(), dcow());
                ensure!(r.model(&got) == want && got == r.lib(&want), "{}: make_coefficient({:?}, {}) = {:?}", n, m, dv, got);
                eqv!(r.elem_model(&R::L::divisor_to_element(dcow(), cow())), r.int(dv), "{}: divisor_to_element({}) beside {:?}", n, dv, m);
                rec.steps(2);
            }
        }
        for &k in mults {
            let want = r.mul(m, &r.int(k as i64));
            eqv!(r.elem_model(&R::L::mul_element_by_usize(cow(), k)), want, "{}: element {:?} times {} owned={}", n, m, k, own);
            let mut t = e.clone();
            R::L::mul_assign_element_by_usize(&mut t, k);
            eqv!(r.elem_model(&t), want, "{}: element {:?} times-assign {}", n, m, k);
            rec.steps(2);
        }
    }
    rec.steps(13);
    let mut w = one.clone();
    for k in 0..=exps {
        if k > 0 || r.zero_pow_zero() || !r.is_zero(m) {
            eqv!(r.elem_model(&R::L::element_pow_usize(e.clone(), k)), w, "{}: element {:?} to the {}", n, m, k);
            rec.step();
        }
        w = r.mul(&w, m);
    }
    Ok(())
}
fn coef_list<R: Coef>(r: &R, raw: &[R::M], divs: &[i64], rec: &mut Rec) -> Result<(), String> {
    let n = r.name();
    let cs: Vec<R::L> = raw.iter().map(|m| r.lib(m)).collect();
    for own in [false, true] {
        let cow: Cow<[R::L]> = if own { Cow::Owned(cs.clone()) } else { Cow::Borrowed(&cs) };
        let (e, d) = R::L::coefficients_to_elements(cow);
        let em: Vec<R::M> = e.iter().map(|e| r.elem_model(e)).collect();
        let dm = r.divisor_model(&d);
        let want: Vec<R::M> = raw.iter().map(|m| r.mul(m, &dm)).collect();
        ensure!(em == want && r.lowest(&em, &dm), "{}: coefficients_to_elements({:?}) owned={} = {:?} over {:?}", n, raw, own, em, dm);
        rec.step();
    }
    let p = R::L::from_iterator(cs.iter().cloned());
    let trimmed = mtrim(r, raw.to_vec());
    same(r, &p, &trimmed, &|| format!("{}: from_iterator({:?})", n, raw))?;
    rec.step();
    if raw.iter().any(|m| r.needs_divisor(m)) {
        return Ok(());
    }
    let e: Vec<_> = raw.iter().map(|m| r.elem(m)).collect();
    for &dv in divs {
        let d = match r.divisor(dv) {
            None => continue,
            Some(d) => d,
        };
        let vals: Vec<R::M> = raw.iter().map(|m| r.div(m, &r.int(dv)).unwrap()).collect();
        let (mut e1, mut d1) = (e.clone(), d.clone());
        R::L::reduce_divisor(&mut e1, &mut d1);
        let (e2, d2) = R::L::get_reduced_divisor(&e, &d);
        for (what, e, d) in [("reduce_divisor", e1, d1), ("get_reduced_divisor", e2, d2)] {
            let em: Vec<R::M> = e.iter().map(|e| r.elem_model(e)).collect();
            let dm = r.divisor_model(&d);
            let want: Vec<R::M> = vals.iter().map(|m| r.mul(m, &dm)).collect();
            ensure!(em == want && r.lowest(&em, &dm), "{}: {}({:?}, {}) = {:?} over {:?}", n, what, raw, dv, em, dm);
            rec.step();
        }
    }
    Ok(())
}
fn coef_space<R: Coef>(v: &mut Vec<Space>, r: R, set: Vec<R::M>, len: usize, mults: &'static [usize], exps: usize, divs: &'static [i64]) {
    let bound = format!("each of {} coefficients and elements {:?}, owned and borrowed; multipliers {:?}; powers 0..={}", set.len(), short(&set), mults, exps);
    let (r1, s1) = (r.clone(), set.clone());
    v.push(Space::new(&format!("element operations {}", r.name()), &bound, set.len() as u64, move |i, rec| {
        rec.distinct(1);
        coef_one(&r1, &s1[i as usize], mults, exps, rec)?;
        rec.outcome(&s1[i as usize]);
        rec.compared();
        Ok(())
    }));
    let sub: Vec<R::M> = set.iter().take(6).cloned().collect();
    let k = sub.len();
    let counts: Vec<usize> = (0..=len).map(|l| k.pow(l as u32)).collect();
    let bound = format!("all coefficient lists of length 0..={} over {:?}; all element lists over the same values with divisors {:?}", len, sub, divs);
    v.push(Space::new(&format!("element lists {}", r.name()), &bound, counts.iter().sum::<usize>() as u64, move |i, rec| {
        let mut i = i as usize;
        let mut l = 0;
        while i >= counts[l] {
            i -= counts[l];
            l += 1;
        }
        let mut ix = Ix(i as u64);
        let raw: Vec<R::M> = (0..l).map(|_| sub[ix.take(k)].clone()).collect();
        rec.distinct(1);
        coef_list(&r, &raw, divs, rec)?;
        rec.outcome(&raw);
        rec.compared();
        Ok(())
    }));
}
fn short<M: Debug>(v: &[M]) -> String {
    let s = format!("{:?}", v);
    if s.len() > 200 {
        format!("{} ...", s.chars().take(200).collect::<String>())
    } else {
        s
    }
}
fn abs_space<R: Ring>(v: &mut Vec<Space>, r: R, set: Vec<R::M>)
where
    R::L: PolynomialCoefficientAbsSupported,
    R::M: Ord,
{
    v.push(Space::new(&format!("absolute value {}", r.name()), &format!("each of {}", short(&set)), set.len() as u64, move |i, rec| {
        let m = &set[i as usize];
        rec.distinct(1);
        let want = if *m < r.int(0) { r.neg(m) } else { m.clone() };
        let got = R::L::coefficient_abs(r.lib(m));
        eqv!(r.model(&got), want, "{}: coefficient_abs({:?})", r.name(), m);
        rec.step();
        rec.outcome(&want);
        rec.compared();
        Ok(())
    }));
}
pub fn c28(tier: Tier) -> Property {
    let mut v = vec![];
    let m: &[usize] = &[0, 1, 2, 3, 5, 10, 42];
    let d1: &[i64] = &[1];
    // counts and exponents around every power of two a narrowing conversion would cut at
    let w: &[usize] = &[0, 1, 2, 3, 5, 10, 42, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, (1 << 53) + 1, i64::MAX as usize];
    let we = tier.pick(300, 1100);
    let k = tier.pick(10, 30);
    let ints: Vec<BigInt> = [0, 1, -1, 2, -3, 6].iter().copied().chain((-k..=k).filter(|v| ![0, 1, -1, 2, -3, 6].contains(v))).map(bi).collect();
    let tiny = zset(&[0, 1, -1, 2, -2, 3, -3]);
    coef_space(&mut v, ZR::<i8>(), tiny.clone(), 3, m, 4, d1);
    coef_space(&mut v, ZR::<i16>(), ints.clone(), 3, m, 2, d1);
    coef_space(&mut v, ZR::<i32>(), ints.clone(), 3, m, 5, d1);
    coef_space(&mut v, ZR::<i64>(), ints.clone(), 3, m, 9, d1);
    coef_space(&mut v, ZR::<i128>(), ints.clone(), 3, m, 17, d1);
    coef_space(&mut v, ZR::<isize>(), ints.clone(), 3, m, 9, d1);
    coef_space(&mut v, ZR::<BigInt>(), big_set().into_iter().chain(ints.iter().cloned()).collect(), 3, w, tier.pick(33, 70), d1);
    let ds: &[i64] = &[1, -1, 2, -2, 3, -3, 4, 6, -6, 12, -36];
    let mut qs = qset(&[(0, 1), (1, 1), (-1, 2), (2, 3), (-3, 4), (6, 1)]);
    for n in -7..=7i64 {
        for d in 1..=6i64 {
            let x = q(n, d);
            if !qs.contains(&x) {
                qs.push(x);
            }
        }
    }
    let zq: Vec<Q> = [0i64, 6, -4, 9, 1, -12, 2, -1, 5].iter().map(|x| qi(*x)).collect();
    coef_space(&mut v, Qbig, qs.clone(), tier.pick(5, 6), w, 9, ds);
    coef_space(&mut v, Q64, qs.clone(), tier.pick(5, 6), m, 9, ds);
    let base = v.len();
    coef_space(&mut v, Qbig, zq.clone(), tier.pick(5, 6), w, 9, ds);
    coef_space(&mut v, Q64, zq, tier.pick(5, 6), m, 9, ds);
    for s in &mut v[base..] {
        s.name.push_str(", whole numerators");
    }
    let all = |p: i64| (0..p).map(bi).collect::<Vec<_>>();
    for p in [2i64, 3, 7] {
        coef_space(&mut v, GfI32(bi(p)), all(p), 3, w, we, d1);
    }
    coef_space(&mut v, GfOdd(bi(5)), all(5), 3, w, we, d1);
    coef_space(&mut v, GfOdd(bi(2147483647)), vec![bi(0), bi(1), bi(2147483646), bi(65536), bi(46341), bi(1 << 30)], 2, w, we, d1);
    let bp: BigInt = (BigInt::one() << 61u32) - 1;
    coef_space(&mut v, GfBig(bp.clone()), vec![bi(0), bi(1), &bp - 1, BigInt::one() << 60u32, BigInt::one() << 32u32, bi(7)], 2, w, we, d1);
    for p in [4i64, 6, 12] {
        coef_space(&mut v, ModI32(bi(p)), all(p), 3, w, we, d1);
        coef_space(&mut v, ModBig(bi(p)), all(p), 3, w, we, d1);
    }
    coef_space(&mut v, Nested(ZR::<BigInt>()), nest_set(), 3, w, 6, d1);
    coef_space(&mut v, Nested(ZR::<i64>()), nest_set(), 3, m, 6, d1);
    coef_space(&mut v, Nested(Nested(ZR::<i32>())), vec![vec![], vec![zset(&[1])], vec![vec![], zset(&[0, 2])], vec![zset(&[-1, 1]), zset(&[3])]], 3, m, 4, d1);
    abs_space(&mut v, ZR::<i8>(), (-127..=127).map(bi).collect());
    abs_space(&mut v, ZR::<i16>(), (-127..=127).chain([32767, -32767]).map(bi).collect());
    abs_space(&mut v, ZR::<i32>(), (-127..=127).chain([i32::MAX as i64, -(i32::MAX as i64)]).map(bi).collect());
    abs_space(&mut v, ZR::<i64>(), (-127..=127).chain([i64::MAX, -i64::MAX]).map(bi).collect());
    abs_space(&mut v, ZR::<i128>(), (-127..=127).chain([i64::MAX, i64::MIN]).map(bi).collect());
    abs_space(&mut v, ZR::<isize>(), (-127..=127).chain([i64::MAX, -i64::MAX]).map(bi).collect());
    abs_space(&mut v, ZR::<BigInt>(), big_set());
    abs_space(&mut v, Qbig, qs.clone());
    abs_space(&mut v, Q64, qs);
    for (b, e) in [(-1i64, 300usize), (0, 300), (1, 300)] {
        v.push(Space::new(&format!("long powers of {}", b), "powers 0..=300 in every integer type and in fractions", e as u64 + 1, move |k, rec| {
            let k = k as usize;
            let want = num_traits::pow(bi(b), k);
            macro_rules! ty { ($($t:ty)*) => {$(
                let x = <$t as FromPrimitive>::from_i64(b).unwrap();
                eqv!(ToPrimitive::to_i64(&<$t as PolynomialCoefficient>::coefficient_pow_usize(x.clone(), k)), want.to_i64(), "{} coefficient {} to the {}", stringify!($t), b, k);
                eqv!(ToPrimitive::to_i64(&<$t as PolynomialCoefficient>::element_pow_usize(x, k)), want.to_i64(), "{} element {} to the {}", stringify!($t), b, k);
            )*}; }
            ty!(i8 i16 i32 i64 i128 isize BigInt);
            let f = qi(b);
            eqv!(<Q as PolynomialCoefficient>::coefficient_pow_usize(f, k), Ratio::from_integer(want), "fraction {} to the {}", b, k);
            rec.steps(15);
            rec.distinct(1);
            rec.compared();
            Ok(())
        }));
    }
    v.push(Space::new("modulus one", "one, zero, powers and counts of the only residue of modulus one, in each value type", 1, |_, rec| {
        macro_rules! ty { ($($t:ty)*) => {$(
            let (z, o) = (<$t>::zero(), <$t>::one());
            let e = ModularInteger::<$t, $t>::new(z.clone(), o.clone());
            let mut t = e.clone();
            <ModularInteger<$t, $t> as PolynomialCoefficient>::set_element_one(&mut t);
            ensure!(t == e, "{}: one of modulus one is {:?}", stringify!($t), t);
            let mut t = e.clone();
            PolynomialCoefficient::set_coefficient_one(&mut t);
            ensure!(t == e, "{}: one of modulus one is {:?}", stringify!($t), t);
            ensure!(<ModularInteger<$t, $t> as PolynomialCoefficient>::make_one_element(Cow::Borrowed(&e)) == e, "{}: make_one_element modulo one", stringify!($t));
            ensure!(<ModularInteger<$t, $t> as PolynomialCoefficient>::make_one_coefficient_from_coefficient(Cow::Borrowed(&e)) == e, "{}: make_one modulo one", stringify!($t));
            for k in 0..9usize {
                ensure!(<ModularInteger<$t, $t> as PolynomialCoefficient>::element_pow_usize(e.clone(), k) == e, "{}: zero to the {} modulo one", stringify!($t), k);
                ensure!(<ModularInteger<$t, $t> as PolynomialCoefficient>::mul_element_by_usize(Cow::Borrowed(&e), k) == e, "{}: zero times {} modulo one", stringify!($t), k);
            }
            rec.steps(22);
        )*}; }
        ty!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize BigInt num_bigint::BigUint);
        rec.distinct(14);
        rec.compared();
        Ok(())
    }));
    v.push(Space::new("divisor of one", "every operation and operand form of the unit divisor type", 1, |_, rec| {
        let d = || DivisorIsOne;
        rec.distinct(1);
        let mut t = d();
        t *= d();
        t *= &d();
        ensure!(t == d() && d() * d() == d() && d() * &d() == d() && &d() * d() == d() && &d() * &d() == d(), "product of unit divisors");
        ensure!(ExactDiv::checked_exact_div(d(), d()) == Some(d()) && ExactDiv::checked_exact_div(d(), &d()) == Some(d()) && ExactDiv::checked_exact_div(&d(), d()) == Some(d()) && ExactDiv::checked_exact_div(&d(), &d()) == Some(d()), "checked quotient of unit divisors");
        ensure!(t.checked_exact_div_assign(d()).is_ok() && t.checked_exact_div_assign(&d()).is_ok(), "checked in-place quotient of unit divisors");
        ensure!(DivisorIsOne::one().is_one() && GCD::gcd(&d(), &d()) == d() && GCD::lcm(&d(), &d()) == d(), "unit divisor identities");
        ensure!(<i32 as PolynomialCoefficient>::divisor_pow_usize(d(), 7) == d(), "power of the unit divisor");
        for k in 0..40usize {
            for b in -3..=3i64 {
                eqv!(<Ratio<BigInt> as PolynomialCoefficient>::divisor_pow_usize(bi(b), k), num_traits::pow(bi(b), k), "divisor {} to the {}", b, k);
                rec.step();
            }
        }
        rec.steps(14);
        rec.compared();
        Ok(())
    }));
    v.push(Space::new("variable names", "nesting depths 0..=2000: names are distinct, start with a letter and are those Display uses", 1, |_, rec| {
        let mut seen = std::collections::HashMap::new();
        for d in 0..=2000usize {
            let n = get_variable_name(d).into_owned();
            ensure!(n.chars().next().map_or(false, |c| c.is_alphabetic()), "variable name {:?} of depth {}", n, d);
            if let Some(o) = seen.insert(n.clone(), d) {
                return Err(format!("depths {} and {} share the variable name {:?}", o, d, n));
            }
            rec.step();
        }
        ensure!(<i32 as PolynomialCoefficient>::NESTING_DEPTH == 0 && <Ratio<BigInt> as PolynomialCoefficient>::NESTING_DEPTH == 0 && <ModularInteger<i32, i32> as PolynomialCoefficient>::NESTING_DEPTH == 0, "nesting depth of numbers");
        ensure!(<Polynomial<i32> as PolynomialCoefficient>::NESTING_DEPTH == 1 && <Polynomial<Polynomial<i32>> as PolynomialCoefficient>::NESTING_DEPTH == 2, "nesting depth of polynomials");
        let p: Polynomial<i32> = vec![0, 1].into();
        ensure!(p.to_string().contains(&*get_variable_name(0)), "printed {} without the variable", p);
        let pp: Polynomial<Polynomial<i32>> = vec![Zero::zero(), p.clone()].into();
        ensure!(pp.to_string().contains(&*get_variable_name(0)) && pp.to_string().contains(&*get_variable_name(1)), "printed {} without its variables", pp);
        rec.distinct(2001);
        rec.compared();
        Ok(())
    }));
    Property { id: "C28", spaces: v, assumptions: vec![
        "fixed-width integer coefficients are explored where the result is representable".into(),
        "the zeroth power of the zero polynomial as a coefficient is refused by design and excluded".into(),
    ] }
}
