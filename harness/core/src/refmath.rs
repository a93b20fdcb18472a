//! Reference arithmetic: deliberately naive, exact, and independent of the crate under test
//! (only num-bigint / num-rational are shared).
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::Ratio;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;

pub type Q = Ratio<BigInt>;
pub fn bi(v: i64) -> BigInt {
    BigInt::from(v)
}
pub fn q(n: i64, d: i64) -> Q {
    Ratio::new(bi(n), bi(d))
}
pub fn qi(n: i64) -> Q {
    Ratio::from_integer(bi(n))
}
pub fn pow2(k: i64) -> Q {
    if k >= 0 {
        Ratio::from_integer(BigInt::one() << k as usize)
    } else {
        Ratio::new(BigInt::one(), BigInt::one() << (-k) as usize)
    }
}
pub fn qpow(x: &Q, n: u64) -> Q {
    let mut r = Q::one();
    for _ in 0..n {
        r *= x;
    }
    r
}
pub fn floor_q(x: &Q) -> BigInt {
    x.numer().div_floor(x.denom())
}
pub fn ceil_q(x: &Q) -> BigInt {
    -((-x.numer()).div_floor(x.denom()))
}
/// floor(x * 2^k)
pub fn floor_at(x: &Q, k: usize) -> BigInt {
    (x.numer() << k).div_floor(x.denom())
}
pub fn ceil_at(x: &Q, k: usize) -> BigInt {
    -((-(x.numer() << k)).div_floor(x.denom()))
}
pub fn sgn(x: &Q) -> i32 {
    if x.is_zero() {
        0
    } else if x.is_negative() {
        -1
    } else {
        1
    }
}

// ---------------------------------------------------------------- polynomials over Q, low to high, trimmed
pub type P = Vec<Q>;
pub fn trim(mut p: P) -> P {
    while p.last().is_some_and(|c| c.is_zero()) {
        p.pop();
    }
    p
}
pub fn pz(c: &[i64]) -> P {
    trim(c.iter().map(|&v| qi(v)).collect())
}
pub fn pzb(c: &[BigInt]) -> P {
    trim(c.iter().map(|v| Ratio::from_integer(v.clone())).collect())
}
pub fn padd(a: &P, b: &P) -> P {
    let n = a.len().max(b.len());
    trim((0..n).map(|i| a.get(i).cloned().unwrap_or_else(Q::zero) + b.get(i).cloned().unwrap_or_else(Q::zero)).collect())
}
pub fn pneg(a: &P) -> P {
    a.iter().map(|c| -c).collect()
}
pub fn psub(a: &P, b: &P) -> P {
    padd(a, &pneg(b))
}
pub fn pscale(a: &P, s: &Q) -> P {
    trim(a.iter().map(|c| c * s).collect())
}
pub fn pmul(a: &P, b: &P) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![Q::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if x.is_zero() {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            r[i + j] += x * y;
        }
    }
    trim(r)
}
pub fn ppow(a: &P, n: usize) -> P {
    let mut r = vec![Q::one()];
    for _ in 0..n {
        r = pmul(&r, a);
    }
    r
}
pub fn pdivrem(a: &P, b: &P) -> (P, P) {
    assert!(!b.is_empty());
    let mut r = a.clone();
    if a.len() < b.len() {
        return (vec![], r);
    }
    let mut quo = vec![Q::zero(); a.len() - b.len() + 1];
    let lead = b.last().unwrap();
    while r.len() >= b.len() {
        let s = r.len() - b.len();
        let c = r.last().unwrap() / lead;
        for (i, y) in b.iter().enumerate() {
            let t = &c * y;
            r[i + s] -= t;
        }
        quo[s] = c;
        let l = r.len();
        r.truncate(l - 1);
        r = trim(r);
    }
    (trim(quo), r)
}
pub fn pmonic(a: &P) -> P {
    match a.last() {
        None => vec![],
        Some(l) => {
            let inv = l.recip();
            pscale(a, &inv)
        }
    }
}
pub fn pgcd(a: &P, b: &P) -> P {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_empty() {
        let r = pdivrem(&a, &b).1;
        a = b;
        b = pmonic(&r);
    }
    pmonic(&a)
}
pub fn pderiv(a: &P) -> P {
    trim(a.iter().enumerate().skip(1).map(|(i, c)| c * qi(i as i64)).collect())
}
pub fn peval(a: &P, x: &Q) -> Q {
    let mut r = Q::zero();
    for c in a.iter().rev() {
        r = r * x + c;
    }
    r
}
/// primitive integer polynomial with positive leading coefficient, proportional to a
pub fn primitive(a: &P) -> Vec<BigInt> {
    if a.is_empty() {
        return vec![];
    }
    let mut l = BigInt::one();
    for c in a {
        l = l.lcm(c.denom());
    }
    let v: Vec<BigInt> = a.iter().map(|c| c.numer() * (&l / c.denom())).collect();
    let mut g = BigInt::zero();
    for c in &v {
        g = g.gcd(c);
    }
    if v.last().unwrap().is_negative() {
        g = -g;
    }
    v.into_iter().map(|c| c / &g).collect()
}
/// signed remainder sequence of the square-free part
pub struct Sturm(pub Vec<P>);
impl Sturm {
    pub fn new(p: &P) -> Sturm {
        assert!(!p.is_empty());
        let g = pgcd(p, &pderiv(p));
        let p = if g.len() > 1 { pdivrem(p, &g).0 } else { p.clone() };
        let mut s = vec![p.clone()];
        let d = pderiv(&p);
        if d.is_empty() {
            return Sturm(s);
        }
        s.push(d);
        loop {
            let n = s.len();
            let r = pneg(&pdivrem(&s[n - 2], &s[n - 1]).1);
            if r.is_empty() {
                break;
            }
            // scale positively to keep numbers small
            let l = r.last().unwrap().abs().recip();
            s.push(pscale(&r, &l));
        }
        Sturm(s)
    }
    fn var(&self, x: &Q) -> i64 {
        let mut last = 0;
        let mut n = 0;
        for p in &self.0 {
            let s = sgn(&peval(p, x));
            if s != 0 {
                if last != 0 && s != last {
                    n += 1;
                }
                last = s;
            }
        }
        n
    }
    fn var_inf(&self, pos: bool) -> i64 {
        let mut last = 0;
        let mut n = 0;
        for p in &self.0 {
            let mut s = sgn(p.last().unwrap());
            if !pos && p.len() % 2 == 0 {
                s = -s;
            }
            if last != 0 && s != last {
                n += 1;
            }
            last = s;
        }
        n
    }
    pub fn total(&self) -> i64 {
        self.var_inf(false) - self.var_inf(true)
    }
    /// distinct roots in (a, b]
    pub fn half_open(&self, a: &Q, b: &Q) -> i64 {
        self.var(a) - self.var(b)
    }
    /// distinct roots in [a, b]
    pub fn closed(&self, a: &Q, b: &Q) -> i64 {
        self.half_open(a, b) + i64::from(peval(&self.0[0], a).is_zero())
    }
}
/// all distinct real roots, isolated by (lo, hi] rational intervals in increasing order (lo == hi for an exact root)
pub fn isolate(p: &P) -> Vec<(Q, Q)> {
    if p.len() < 2 {
        return vec![];
    }
    let st = Sturm::new(p);
    let lead = p.last().unwrap().abs();
    let mut b = Q::one();
    for c in p {
        let v = c.abs() / &lead + Q::one();
        if v > b {
            b = v;
        }
    }
    let b = Q::from_integer(ceil_q(&b));
    let mut out = vec![];
    fn rec(st: &Sturm, a: Q, b: Q, out: &mut Vec<(Q, Q)>) {
        let n = st.half_open(&a, &b);
        if n == 0 {
            return;
        }
        if n == 1 {
            out.push((a, b));
            return;
        }
        let m = (&a + &b) / qi(2);
        rec(st, a, m.clone(), out);
        rec(st, m, b, out);
    }
    rec(&st, -b.clone(), b, &mut out);
    out
}
/// halve an isolating (lo, hi] interval of a simple-root polynomial
pub fn refine(p: &P, iv: &mut (Q, Q)) {
    if iv.0 == iv.1 {
        return;
    }
    let sh = sgn(&peval(p, &iv.1));
    if sh == 0 {
        iv.0 = iv.1.clone();
        return;
    }
    let m = (&iv.0 + &iv.1) / qi(2);
    let sm = sgn(&peval(p, &m));
    if sm == 0 {
        *iv = (m.clone(), m);
    } else if sm == sh {
        iv.1 = m;
    } else {
        iv.0 = m;
    }
}

// ---------------------------------------------------------------- number fields Q(theta), theta real
pub struct Field {
    pub name: String,
    pub f: P, // monic irreducible
    theta: std::sync::Mutex<(Q, Q)>,
}
pub type E = Vec<Q>; // length deg f
impl Field {
    /// root number `k` (increasing order) of the irreducible polynomial
    pub fn new(name: &str, f: &[i64], k: usize) -> Field {
        let f = pmonic(&pz(f));
        let iv = isolate(&f)[k].clone();
        Field { name: name.into(), f, theta: std::sync::Mutex::new(iv) }
    }
    pub fn n(&self) -> usize {
        self.f.len() - 1
    }
    pub fn elem(&self, p: &P) -> E {
        let mut r = pdivrem(p, &self.f).1;
        r.resize(self.n(), Q::zero());
        r
    }
    pub fn rat(&self, v: &Q) -> E {
        self.elem(&trim(vec![v.clone()]))
    }
    pub fn add(&self, a: &E, b: &E) -> E {
        a.iter().zip(b).map(|(x, y)| x + y).collect()
    }
    pub fn sub(&self, a: &E, b: &E) -> E {
        a.iter().zip(b).map(|(x, y)| x - y).collect()
    }
    pub fn neg(&self, a: &E) -> E {
        a.iter().map(|x| -x).collect()
    }
    pub fn mul(&self, a: &E, b: &E) -> E {
        self.elem(&pmul(&trim(a.clone()), &trim(b.clone())))
    }
    pub fn is_zero(&self, a: &E) -> bool {
        a.iter().all(|c| c.is_zero())
    }
    pub fn inv(&self, a: &E) -> E {
        // extended Euclid: u*a + v*f = 1
        let (mut r0, mut r1) = (self.f.clone(), trim(a.clone()));
        let (mut t0, mut t1): (P, P) = (vec![], vec![Q::one()]);
        while r1.len() > 1 {
            let (qq, r) = pdivrem(&r0, &r1);
            let t = psub(&t0, &pmul(&qq, &t1));
            r0 = r1;
            r1 = r;
            t0 = t1;
            t1 = t;
        }
        assert!(r1.len() == 1);
        let s = r1[0].recip();
        self.elem(&pscale(&t1, &s))
    }
    pub fn pow(&self, a: &E, n: i64) -> E {
        let b = if n < 0 { self.inv(a) } else { a.clone() };
        let mut r = self.rat(&Q::one());
        for _ in 0..n.abs() {
            r = self.mul(&r, &b);
        }
        r
    }
    pub fn as_rational(&self, a: &E) -> Option<Q> {
        if a.iter().skip(1).all(|c| c.is_zero()) {
            Some(a[0].clone())
        } else {
            None
        }
    }
    /// p(a)
    pub fn eval(&self, p: &P, a: &E) -> E {
        let mut r = self.rat(&Q::zero());
        for c in p.iter().rev() {
            r = self.mul(&r, a);
            r[0] += c;
        }
        r
    }
    /// primitive minimal polynomial with positive leading coefficient
    pub fn minpoly(&self, a: &E) -> Vec<BigInt> {
        // find the first power that is a combination of the lower ones
        let n = self.n();
        // rows: reduced vectors with the combination that made them
        let mut rows: Vec<(usize, Vec<Q>, Vec<Q>)> = vec![];
        let mut pw = self.rat(&Q::one());
        for k in 0..=n {
            let mut v = pw.clone();
            let mut comb = vec![Q::zero(); n + 1];
            comb[k] = Q::one();
            for (piv, rv, rc) in &rows {
                if !v[*piv].is_zero() {
                    let s = v[*piv].clone();
                    for i in 0..n {
                        let t = &s * &rv[i];
                        v[i] -= t;
                    }
                    for i in 0..=n {
                        let t = &s * &rc[i];
                        comb[i] -= t;
                    }
                }
            }
            match v.iter().position(|c| !c.is_zero()) {
                None => return primitive(&trim(comb)),
                Some(piv) => {
                    let s = v[piv].recip();
                    for c in v.iter_mut() {
                        *c *= &s;
                    }
                    for c in comb.iter_mut() {
                        *c *= &s;
                    }
                    rows.push((piv, v, comb));
                }
            }
            pw = self.mul(&pw, a);
        }
        unreachable!()
    }
    /// enclosure of width < 2^-bits
    pub fn enclose(&self, a: &E, bits: i64) -> (Q, Q) {
        if let Some(r) = self.as_rational(a) {
            return (r.clone(), r);
        }
        let w = pow2(-bits);
        let mut iv = self.theta.lock().unwrap().clone();
        loop {
            let (mut lo, mut hi) = (Q::zero(), Q::zero());
            for c in a.iter().rev() {
                let ps = [&lo * &iv.0, &lo * &iv.1, &hi * &iv.0, &hi * &iv.1];
                lo = ps.iter().min().unwrap() + c;
                hi = ps.iter().max().unwrap() + c;
            }
            if &hi - &lo < w {
                let mut g = self.theta.lock().unwrap();
                if &g.1 - &g.0 > &iv.1 - &iv.0 {
                    *g = iv;
                }
                return (lo, hi);
            }
            for _ in 0..4 {
                refine(&self.f, &mut iv);
            }
        }
    }
    pub fn sign(&self, a: &E) -> i32 {
        if self.is_zero(a) {
            return 0;
        }
        let mut bits = 8;
        loop {
            let (lo, hi) = self.enclose(a, bits);
            if lo.is_positive() {
                return 1;
            }
            if hi.is_negative() {
                return -1;
            }
            bits *= 2;
        }
    }
    pub fn cmp(&self, a: &E, b: &E) -> Ordering {
        self.sign(&self.sub(a, b)).cmp(&0)
    }
    pub fn cmp_q(&self, a: &E, b: &Q) -> Ordering {
        let mut d = a.clone();
        d[0] -= b;
        self.sign(&d).cmp(&0)
    }
    pub fn floor(&self, a: &E) -> BigInt {
        let mut bits = 4;
        if let Some(r) = self.as_rational(a) {
            return floor_q(&r);
        }
        loop {
            let (lo, hi) = self.enclose(a, bits);
            let (x, y) = (floor_q(&lo), floor_q(&hi));
            if x == y {
                return x;
            }
            bits *= 2;
        }
    }
    pub fn show(&self, a: &E) -> String {
        let s: Vec<String> = a
            .iter()
            .enumerate()
            .filter(|(_, c)| !c.is_zero())
            .map(|(i, c)| match i {
                0 => format!("{}", c),
                1 => format!("{}*t", c),
                _ => format!("{}*t^{}", c, i),
            })
            .collect();
        format!("{} in {}", if s.is_empty() { "0".into() } else { s.join(" + ") }, self.name)
    }
}

// ---------------------------------------------------------------- irreducibility over Z (exact)
fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    (a as u128 * b as u128 % p as u128) as u64
}
fn powmod(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    a %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, p);
        }
        a = mulmod(a, a, p);
        e >>= 1;
    }
    r
}
type PM = Vec<u64>;
fn tm(mut a: PM) -> PM {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
fn remm(a: &PM, b: &PM, p: u64) -> (PM, PM) {
    let mut r = a.clone();
    if r.len() < b.len() {
        return (vec![], r);
    }
    let inv = powmod(*b.last().unwrap(), p - 2, p);
    let mut quo = vec![0; r.len() - b.len() + 1];
    while r.len() >= b.len() {
        let s = r.len() - b.len();
        let c = mulmod(*r.last().unwrap(), inv, p);
        quo[s] = c;
        for (i, y) in b.iter().enumerate() {
            r[i + s] = (r[i + s] + p - mulmod(c, *y, p)) % p;
        }
        r = tm(r);
    }
    (quo, r)
}
fn gcdm(a: &PM, b: &PM, p: u64) -> PM {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_empty() {
        let r = remm(&a, &b, p).1;
        a = b;
        b = r;
    }
    a
}
fn mulm(a: &PM, b: &PM, f: &PM, p: u64) -> PM {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u64; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = (r[i + j] + mulmod(*x, *y, p)) % p;
        }
    }
    remm(&tm(r), f, p).1
}
/// degrees of the irreducible factors mod p, or None when p is unusable (divides lead or not square-free)
pub fn degrees_mod(f: &[BigInt], p: u64) -> Option<Vec<usize>> {
    let pb = BigInt::from(p);
    let fm: PM = f.iter().map(|c| u64::try_from(c.mod_floor(&pb)).unwrap()).collect();
    if *fm.last().unwrap() == 0 {
        return None;
    }
    let d: PM = tm(fm.iter().enumerate().skip(1).map(|(i, c)| mulmod(i as u64 % p, *c, p)).collect());
    if d.is_empty() || gcdm(&fm, &d, p).len() > 1 {
        return None;
    }
    let mut out = vec![];
    let mut g = fm;
    let mut x: PM = remm(&vec![0, 1], &g, p).1;
    let mut k = 0;
    while g.len() > 1 {
        k += 1;
        if 2 * k > g.len() - 1 {
            out.push(g.len() - 1);
            break;
        }
        // x = x^p mod g
        let mut e = p;
        let mut base = x.clone();
        let mut r: PM = vec![1];
        while e > 0 {
            if e & 1 == 1 {
                r = mulm(&r, &base, &g, p);
            }
            base = mulm(&base, &base, &g, p);
            e >>= 1;
        }
        x = r;
        let mut d = x.clone();
        if d.len() < 2 {
            d.resize(2, 0);
        }
        d[1] = (d[1] + p - 1) % p;
        let d = tm(d);
        let h = if d.is_empty() { g.clone() } else { gcdm(&g, &d, p) };
        if h.len() > 1 {
            for _ in 0..(h.len() - 1) / k {
                out.push(k);
            }
            g = remm(&g, &h, p).0;
            x = remm(&x, &g, p).1;
        }
    }
    Some(out)
}
fn divisors(n: &BigInt) -> Vec<BigInt> {
    let n = n.abs();
    let mut out = vec![];
    let mut i = BigInt::one();
    while &i * &i <= n {
        if (&n % &i).is_zero() {
            out.push(i.clone());
            out.push(&n / &i);
        }
        i += 1;
    }
    let neg: Vec<BigInt> = out.iter().map(|v| -v).collect();
    out.extend(neg);
    out
}
/// exact irreducibility of a primitive integer polynomial of degree >= 1
pub fn irreducible(f: &[BigInt]) -> bool {
    let n = f.len() - 1;
    assert!(n >= 1);
    if n == 1 {
        return true;
    }
    let fq = pzb(f);
    if pgcd(&fq, &pderiv(&fq)).len() > 1 {
        return false;
    }
    let mut possible = vec![true; n + 1];
    let mut used = 0;
    for p in [3u64, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97] {
        if let Some(d) = degrees_mod(f, p) {
            let mut s = vec![false; n + 1];
            s[0] = true;
            for k in d {
                for i in (k..=n).rev() {
                    s[i] |= s[i - k];
                }
            }
            for i in 0..=n {
                possible[i] &= s[i];
            }
            if possible[1..n].iter().all(|x| !x) {
                return true;
            }
            used += 1;
            if used >= 14 {
                break;
            }
        }
    }
    // Kronecker's method for the degrees that remain possible
    for d in 1..=n / 2 {
        if !possible[d] {
            continue;
        }
        // d+1 points with small values
        let mut pts: Vec<(BigInt, i64)> = (-12i64..=12)
            .map(|x| (peval(&fq, &qi(x)).numer().clone(), x))
            .collect();
        if let Some((_, x)) = pts.iter().find(|(v, _)| v.is_zero()) {
            let _ = x;
            return false; // linear factor, and n >= 2
        }
        pts.sort_by_key(|(v, x)| (v.abs(), x.abs()));
        pts.truncate(d + 1);
        let divs: Vec<Vec<BigInt>> = pts.iter().map(|(v, _)| divisors(v)).collect();
        let mut ix = vec![0usize; d + 1];
        'comb: loop {
            // interpolate; fix the sign through the first value being positive
            if divs[0][ix[0]].is_positive() {
                let mut g: P = vec![];
                for i in 0..=d {
                    let mut t: P = vec![Q::from_integer(divs[i][ix[i]].clone())];
                    for j in 0..=d {
                        if j != i {
                            t = pmul(&t, &vec![qi(-pts[j].1), Q::one()]);
                            t = pscale(&t, &q(1, pts[i].1 - pts[j].1));
                        }
                    }
                    g = padd(&g, &t);
                }
                if g.len() == d + 1 && g.iter().all(|c| c.is_integer()) && pdivrem(&fq, &g).1.is_empty() {
                    return false;
                }
            }
            for i in 0..=d {
                ix[i] += 1;
                if ix[i] < divs[i].len() {
                    continue 'comb;
                }
                ix[i] = 0;
            }
            break;
        }
    }
    true
}

// ---------------------------------------------------------------- enclosures of ln, exp, agm (fixed point, directed)
fn isqrt_floor(n: &BigInt) -> BigInt {
    // bitwise, no dependency on the crate's or num's root code beyond comparison
    if !n.is_positive() {
        return BigInt::zero();
    }
    let mut x = BigInt::one() << (n.bits() as usize).div_ceil(2);
    loop {
        let y = (&x + n / &x) >> 1;
        if y >= x {
            return x;
        }
        x = y;
    }
}
pub fn sqrt_floor(n: &BigInt) -> BigInt {
    let r = isqrt_floor(n);
    assert!(&r * &r <= *n && (&r + 1) * (&r + 1) > *n);
    r
}
pub fn sqrt_ceil(n: &BigInt) -> BigInt {
    let r = sqrt_floor(n);
    if &r * &r == *n {
        r
    } else {
        r + 1
    }
}
/// 2*atanh(t), 0 <= t <= 1/3, in units of 2^-f: value and error bound (value - err <= true <= value + err)
fn atanh2(t: &Q, f: usize) -> (BigInt, BigInt) {
    let mut p = floor_at(t, f); // t^(2i+1)
    let t2 = floor_at(&(t * t), f);
    let mut s = BigInt::zero();
    let mut i = 0u64;
    while !p.is_zero() {
        s += &p / (2 * i + 1);
        p = (&p * &t2) >> f;
        i += 1;
    }
    // every p is low by less than 2 units, every term by less than 3, tail below 1
    (s * 2, BigInt::from(6 * (i + 2)))
}
pub fn ln2_enc(f: usize) -> (Q, Q) {
    use std::sync::Mutex;
    static C: Mutex<Vec<(usize, (Q, Q))>> = Mutex::new(vec![]);
    if let Some((_, r)) = C.lock().unwrap().iter().find(|(k, _)| *k == f) {
        return r.clone();
    }
    let (v, e) = atanh2(&q(1, 3), f);
    let s = pow2(-(f as i64));
    let r = (Q::from_integer(&v - &e) * &s, Q::from_integer(v + e) * s);
    C.lock().unwrap().push((f, r.clone()));
    r
}
/// enclosure of ln(x), x > 0
pub fn ln_enc(x: &Q, f: usize) -> (Q, Q) {
    let mut k = x.numer().bits() as i64 - x.denom().bits() as i64;
    let mut m = x * pow2(-k);
    while m < Q::one() {
        m *= qi(2);
        k -= 1;
    }
    while m >= qi(2) {
        m /= qi(2);
        k += 1;
    }
    let (v, e) = atanh2(&((&m - Q::one()) / (&m + Q::one())), f);
    let s = pow2(-(f as i64));
    let (lo, hi) = (Q::from_integer(&v - &e) * &s, Q::from_integer(v + e) * s);
    let (l2, h2) = ln2_enc(f);
    let kq = qi(k);
    if k >= 0 {
        (lo + &kq * l2, hi + &kq * h2)
    } else {
        (lo + &kq * h2, hi + &kq * l2)
    }
}
/// enclosure of exp(x) with relative precision about 2^-f
pub fn exp_enc(x: &Q, f: usize) -> (Q, Q) {
    let f = f + x.numer().bits().saturating_sub(x.denom().bits()) as usize + 8;
    let (l2, h2) = ln2_enc(f);
    let k = floor_q(&(x / &l2));
    let kq = Q::from_integer(k.clone());
    let (rl, rh) = if k.is_negative() { (x - &kq * &l2, x - &kq * &h2) } else { (x - &kq * &h2, x - &kq * &l2) };
    let (rl, rh) = if rl <= rh { (rl, rh) } else { (rh, rl) };
    let ser = |r: &Q, up: bool| -> BigInt {
        // r in about [0, 0.7)
        let (r, neg) = if r.is_negative() { (-r, true) } else { (r.clone(), false) };
        if neg {
            // tiny negative remainder: 1 - |r| <= e^r <= 1
            return if up { BigInt::one() << f } else { (BigInt::one() << f) - ceil_at(&r, f) };
        }
        let rn = if up { ceil_at(&r, f) } else { floor_at(&r, f) };
        let mut t = BigInt::one() << f;
        let mut s = t.clone();
        let mut i = 1;
        loop {
            t = (&t * &rn) >> f;
            t /= i;
            if t.is_zero() {
                break;
            }
            s += &t;
            i += 1;
        }
        if up {
            s + 4 * i + 4
        } else {
            s
        }
    };
    let k = i64::try_from(k).expect("exponent");
    let s = pow2(k) * pow2(-(f as i64));
    (Q::from_integer(ser(&rl, false)) * &s, Q::from_integer(ser(&rh, true)) * s)
}
/// enclosure of the arithmetic-geometric mean
pub fn agm_enc(a: &Q, b: &Q, f: usize) -> (Q, Q) {
    let s = pow2(-(f as i64));
    if a.is_zero() || b.is_zero() {
        return (Q::zero(), Q::zero());
    }
    // lower run rounds down, upper run rounds up; agm is monotone in both arguments
    let run = |up: bool| -> (BigInt, BigInt) {
        let (mut x, mut y) = if up { (ceil_at(a, f), ceil_at(b, f)) } else { (floor_at(a, f), floor_at(b, f)) };
        for _ in 0..200 {
            let sum = &x + &y;
            let prod = &x * &y;
            let (m, g): (BigInt, BigInt) = if up { ((sum + 1) >> 1, sqrt_ceil(&prod)) } else { (sum >> 1, sqrt_floor(&prod)) };
            if (&m - &g).abs() <= BigInt::one() {
                return if g < m { (g, m) } else { (m, g) };
            }
            x = m;
            y = g;
        }
        panic!("agm")
    };
    (Q::from_integer(run(false).0) * &s, Q::from_integer(run(true).1) * s)
}
