//! C26 division to the nearest quotient, C27 factoring over prime fields
use algebraics::verif_hooks::*;
use mccore::engine::*;
use mccore::ints::*;
use mccore::refmath::*;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::Ratio;
use num_traits::{Signed, Zero};
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------ C26
/// the quotient the definition asks for
fn nearest_ref(a: &BigInt, b: &BigInt, signed: bool) -> (BigInt, BigInt) {
    if !signed {
        return a.div_mod_floor(b);
    }
    // every candidate next to the exact quotient: smallest distance, then smallest magnitude
    let f = a.div_floor(b);
    let mut best: Option<(BigInt, BigInt, BigInt)> = None;
    for q in [f.clone(), &f + 1] {
        let r = a - &q * b;
        let better = match &best {
            None => true,
            Some((d, m, _)) => (r.abs(), q.abs()) < (d.clone(), m.clone()),
        };
        if better {
            best = Some((r.abs(), q.abs(), q));
        }
    }
    let q = best.unwrap().2;
    let r = a - &q * b;
    (q, r)
}
fn nearest_case<T: Int + NearestDivision>(rec: &mut Rec, a: &T, b: &T) -> Result<(), String> {
    let (ab, bb) = (a.big(), b.big());
    let got = match catch(|| a.checked_nearest(b)) {
        Ok(v) => v,
        Err(e) => return Err(format!("{}: {} to the nearest by {} panicked: {}", T::NAME, ab, bb, e)),
    };
    let want = if bb.is_zero() {
        None
    } else {
        let (q, r) = nearest_ref(&ab, &bb, T::signed());
        match (T::from_big(&q), T::from_big(&r)) {
            (Some(q), Some(r)) => Some((q, r)),
            _ => None,
        }
    };
    eqv!(got, want, "{}: {} divided to the nearest by {}", T::NAME, ab, bb);
    rec.step();
    rec.distinct(1);
    rec.outcome(&got);
    if let Some(w) = want {
        eqv!(a.nearest(b), w, "{}: {} divided to the nearest by {}, unchecked", T::NAME, ab, bb);
        rec.step();
    }
    Ok(())
}
fn nearest_space<T: Int + NearestDivision + Send + Sync>(bound: &str, vs: Vec<T>) -> Space {
    let n = vs.len();
    Space::new(&format!("{} ({} values)", T::NAME, n), bound, n as u64, move |i, rec| {
        let a = &vs[i as usize];
        for b in &vs {
            nearest_case(rec, a, b)?;
        }
        if vs.iter().any(|b| b.big().is_zero()) {
            let zero = vs.iter().find(|b| b.big().is_zero()).unwrap();
            ensure!(catch(|| a.nearest(zero)).is_err(), "{}: {:?} divided to the nearest by zero is answered", T::NAME, a);
        }
        rec.compared();
        rec.sample(|| format!("{} {:?} by each of {} divisors", T::NAME, a, n));
        Ok(())
    })
}
fn both<T: Int>(k: i64) -> Vec<T> {
    let mut v: Vec<T> = boundary();
    v.extend(range::<T>(-k, k));
    let mut w: Vec<BigInt> = v.iter().map(|x| x.big()).collect();
    w.sort();
    w.dedup();
    w.iter().filter_map(T::from_big).collect()
}
fn ratio_space<T: Int + Integer + Send + Sync>(name: &str, vs: Vec<Ratio<T>>, total: bool) -> Space
where
    Ratio<T>: NearestDivision,
{
    let n = vs.len();
    let big = |r: &Ratio<T>| Ratio::new(r.numer().big(), r.denom().big());
    Space::new(name, "all pairs of the listed fractions", (n * n) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let (a, b) = (&vs[ix.take(n)], &vs[ix.take(n)]);
        let (ab, bb) = (big(a), big(b));
        rec.distinct(1);
        let got = match catch(|| a.checked_nearest(b)) {
            Ok(v) => v,
            Err(e) => return Err(format!("{} to the nearest by {} panicked: {}", ab, bb, e)),
        };
        rec.step();
        match got {
            None => ensure!(bb.is_zero() || !total, "{} by {} is refused", ab, bb),
            Some((q, r)) => {
                ensure!(!bb.is_zero(), "{} by zero is answered", ab);
                eqv!(big(&q), &ab / &bb, "{} divided to the nearest by {}", ab, bb);
                ensure!(r.is_zero(), "{} divided to the nearest by {} leaves a remainder", ab, bb);
                eqv!(a.nearest(b), (q, r), "{} divided to the nearest by {}, unchecked", ab, bb);
                rec.step();
            }
        }
        rec.compared();
        Ok(())
    })
}
pub fn c26(tier: Tier) -> Property {
    let k = tier.pick(300, 1500);
    let mut spaces = vec![
        nearest_space::<i8>("all pairs of the type", range(-128, 127)),
        nearest_space::<u8>("all pairs of the type", range(0, 255)),
        nearest_space::<i16>("boundary and small values", both(k)),
        nearest_space::<u16>("boundary and small values", both(k)),
        nearest_space::<i32>("boundary and small values", both(k)),
        nearest_space::<u32>("boundary and small values", both(k)),
        nearest_space::<i64>("boundary and small values", both(k)),
        nearest_space::<u64>("boundary and small values", both(k)),
        nearest_space::<i128>("boundary and small values", both(k)),
        nearest_space::<u128>("boundary and small values", both(k)),
        nearest_space::<isize>("boundary and small values", both(k)),
        nearest_space::<usize>("boundary and small values", both(k)),
        nearest_space::<BigInt>("boundary and small values", both(k)),
        nearest_space::<BigUint>("boundary and small values", both(k)),
    ];
    let m = tier.pick(12i64, 24);
    let mut fr: Vec<Ratio<BigInt>> = vec![];
    for n in -m..=m {
        for d in 1..=m {
            fr.push(Ratio::new(bi(n), bi(d)));
        }
    }
    for v in [(1i64 << 62, 3i64), (-5, 1 << 62), (i64::MAX, i64::MAX - 1)] {
        fr.push(Ratio::new(bi(v.0) << 70usize, bi(v.1)));
    }
    fr.sort();
    fr.dedup();
    let small: Vec<Ratio<i64>> = fr
        .iter()
        .filter_map(|r| Some(Ratio::new(i64::from_big(r.numer())?, i64::from_big(r.denom())?)))
        .collect();
    spaces.push(ratio_space("fractions of big integers", fr, true));
    spaces.push(ratio_space("fractions of i64", small.clone(), false));
    Property {
        id: "C26".into(),
        spaces,
        assumptions: vec!["fractions of a fixed-size type may be refused when an intermediate value does not fit".into()],
    }
}

// ------------------------------------------------------------------------------------------------ C27
/// dense coefficient list over the field of p elements, lowest power first, no trailing zeros
type F = Vec<i64>;
fn trim(mut a: F) -> F {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
fn mulmod(a: i64, b: i64, p: i64) -> i64 {
    (a as i128 * b as i128).rem_euclid(p as i128) as i64
}
fn fmul(a: &F, b: &F, p: i64) -> F {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0i64; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = ((r[i + j] as i128 + mulmod(*x, *y, p) as i128) % p as i128) as i64;
        }
    }
    trim(r)
}
/// quotient by a monic divisor if it divides
fn fdiv(a: &F, b: &F, p: i64) -> Option<F> {
    let mut r = a.clone();
    let n = b.len();
    if r.len() < n {
        return None;
    }
    let mut q = vec![0i64; r.len() - n + 1];
    for k in (0..q.len()).rev() {
        let c = r[k + n - 1];
        q[k] = c;
        for (j, y) in b.iter().enumerate() {
            r[k + j] = ((r[k + j] as i128 - mulmod(c, *y, p) as i128).rem_euclid(p as i128)) as i64;
        }
    }
    if r.iter().all(|c| *c == 0) {
        Some(q)
    } else {
        None
    }
}
/// number k as a monic polynomial of the given degree
fn monic(mut k: u64, deg: usize, p: i64) -> F {
    let mut v: F = (0..deg)
        .map(|_| {
            let c = k % p as u64;
            k /= p as u64;
            c as i64
        })
        .collect();
    v.push(1);
    v
}
/// all monic irreducible polynomials of each degree, by trial division
fn irreducibles(p: i64, maxdeg: usize) -> Vec<Vec<F>> {
    let mut t: Vec<Vec<F>> = vec![vec![]];
    for d in 1..=maxdeg {
        let l = (0..(p as u64).pow(d as u32))
            .map(|k| monic(k, d, p))
            .filter(|f| !(1..=d / 2).any(|e| t[e].iter().any(|g| fdiv(f, g, p).is_some())))
            .collect();
        t.push(l);
    }
    t
}
trait Elem: PrimeFieldFactoring + Clone + 'static {
    const NAME: &'static str;
    fn of(v: i64) -> Self;
    fn to(&self) -> i64;
}
macro_rules! elem {
    ($($t:ty),*) => {$(impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        fn of(v: i64) -> Self { <$t>::try_from(v).unwrap() }
        fn to(&self) -> i64 { *self as i64 }
    })*};
}
elem!(i8, i32, i64);
fn lift<T: Elem>(f: &F) -> Vec<T> {
    f.iter().map(|c| T::of(*c)).collect()
}
fn drop_all<T: Elem>(f: Vec<Vec<T>>) -> Vec<F> {
    f.into_iter().map(|p| p.iter().map(|c| c.to()).collect()).collect()
}
fn ddf_case<T: Elem>(rec: &mut Rec, f: &F, p: i64, lc: i64, parts: &[(usize, F)]) -> Result<(), String> {
    rec.state(&(p, f));
    let got = match catch(|| T::distinct_degree(lift(f), T::of(p))) {
        Ok(v) => drop_all(v),
        Err(e) => return Err(format!("distinct-degree factorisation of {:?} mod {} ({}) panicked: {}", f, p, T::NAME, e)),
    };
    rec.step();
    let mut want: Vec<F> = vec![vec![lc]];
    for (d, q) in parts {
        while want.len() < *d {
            want.push(vec![1]);
        }
        want.push(q.clone());
    }
    // the list may go on with trivial parts
    let mut g = got.clone();
    while g.len() > want.len() && g.last().map(|q| q[..] == [1]) == Some(true) {
        g.pop();
    }
    eqv!(g, want, "distinct-degree factorisation of {:?} mod {} ({}): {:?}", f, p, T::NAME, got);
    rec.compared();
    rec.outcome(&parts.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>());
    rec.sample(|| format!("{:?} mod {}: {:?}", f, p, got));
    Ok(())
}
/// the square-free test and the parts of each degree, by trial division
fn parts(f: &F, p: i64, irr: &[Vec<F>]) -> Option<Vec<(usize, F)>> {
    let mut rest = f.clone();
    let mut out = vec![];
    for d in 1..f.len() {
        if rest.len() <= 1 {
            break;
        }
        let mut part = vec![1];
        if 2 * d > rest.len() - 1 {
            // what is left is irreducible
            let d = rest.len() - 1;
            out.push((d, rest.clone()));
            break;
        }
        for g in &irr[d] {
            if let Some(q) = fdiv(&rest, g, p) {
                if fdiv(&q, g, p).is_some() {
                    return None;
                }
                part = fmul(&part, g, p);
                rest = q;
                if rest.len() <= d {
                    break;
                }
            }
        }
        if part.len() > 1 {
            out.push((d, part));
        }
    }
    out.sort();
    // a remaining factor can have the degree of the part before it
    let mut m: Vec<(usize, F)> = vec![];
    for (d, q) in out {
        match m.last_mut() {
            Some(l) if l.0 == d => {
                if l.1 == q {
                    return None;
                }
                l.1 = fmul(&l.1, &q, p);
            }
            _ => m.push((d, q)),
        }
    }
    Some(m)
}
struct Answers {
    residues: Vec<u64>,
    p: u64,
    at: usize,
    s: u64,
}
impl Answers {
    fn next(&mut self) -> u64 {
        let i = self.at;
        self.at += 1;
        if i < self.residues.len() {
            // the middle of the part of the word range that is mapped to this residue
            return (((2 * self.residues[i] as u128 + 1) << 63) / self.p as u128) as u64;
        }
        if i > 2_000_000 {
            panic!("the generator was asked for more than two million numbers");
        }
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut x = self.s;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    }
}
impl rand::RngCore for Answers {
    fn next_u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn same_case<T: Elem>(rec: &mut Rec, fs: &[&F], p: i64, d: usize, residues: Vec<u64>) -> Result<(), String> {
    let f = fs.iter().fold(vec![1], |r, g| fmul(&r, g, p));
    let mut rng = Answers { residues, p: p as u64, at: 0, s: 11 };
    rec.state(&(p, &f, &rng.residues));
    let n = rng.residues.len();
    let res = if n <= 12 { format!("{:?}", rng.residues) } else { format!("{:?}... ({} of them)", &rng.residues[..12], n) };
    let mut got = match catch(|| T::same_degree(lift(&f), T::of(p), d, &mut rng)) {
        Ok(v) => drop_all(v),
        Err(e) => return Err(format!("splitting {:?} mod {} ({}) into factors of degree {} with answers {} panicked: {}", f, p, T::NAME, d, res, e)),
    };
    rec.steps(rng.at as u64 + 1);
    rec.outcome(&rng.at);
    got.sort();
    let mut want: Vec<F> = fs.iter().map(|g| (*g).clone()).collect();
    want.sort();
    eqv!(got, want, "splitting {:?} mod {} ({}) into factors of degree {} with answers {}", f, p, T::NAME, d, res);
    rec.compared();
    rec.sample(|| format!("{:?} mod {} degree {} answers {}: {} draws", f, p, d, res, rng.at));
    Ok(())
}
fn ddf_box<T: Elem>(p: i64, maxdeg: usize) -> Space {
    let irr = Arc::new(irreducibles(p, maxdeg / 2));
    let n = (p as u64).pow(maxdeg as u32 + 1);
    Space::new(
        &format!("every polynomial mod {} of degree <= {} ({})", p, maxdeg, T::NAME),
        "all coefficient lists; those with a repeated factor are skipped",
        n,
        move |i, rec| {
            let mut k = i;
            let mut f: F = vec![];
            for _ in 0..=maxdeg {
                f.push((k % p as u64) as i64);
                k /= p as u64;
            }
            let f = trim(f);
            let Some(&lc) = f.last() else {
                rec.step();
                let z = drop_all(T::distinct_degree(vec![], T::of(p)));
                eqv!(z, vec![Vec::<i64>::new()], "distinct-degree factorisation of zero");
                return Ok(());
            };
            let inv = (1..p).find(|v| mulmod(*v, lc, p) == 1).unwrap();
            let m: F = f.iter().map(|c| mulmod(*c, inv, p)).collect();
            match parts(&m, p, &irr) {
                None => Ok(()),
                Some(w) => ddf_case::<T>(rec, &f, p, lc, &w),
            }
        },
    )
}
/// subsets of n things with at most k elements
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(start: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        if k == 0 {
            return;
        }
        for i in start..n {
            cur.push(i);
            go(i + 1, n, k - 1, cur, out);
            cur.pop();
        }
    }
    go(0, n, k, &mut vec![], &mut out);
    out
}
fn same_space<T: Elem>(p: i64, d: usize, maxk: usize, draws: u32) -> Space {
    let irr = irreducibles(p, d).pop().unwrap();
    let subs = subsets(irr.len(), maxk);
    let per = (p as u64).pow(draws);
    Space::new(
        &format!("split mod {} degree {} ({})", p, d, T::NAME),
        &format!("products of every set of 1..={} of the {} monic irreducibles, every sequence of {} generator answers", maxk, irr.len(), draws),
        subs.len() as u64 * per,
        move |i, rec| {
            let s = &subs[(i / per) as usize];
            let fs: Vec<&F> = s.iter().map(|k| &irr[*k]).collect();
            let mut k = i % per;
            let res = (0..draws)
                .map(|_| {
                    let r = k % p as u64;
                    k /= p as u64;
                    r
                })
                .collect();
            same_case::<T>(rec, &fs, p, d, res)
        },
    )
}
/// generators that repeat one answer many times before they vary
fn stuck_space<T: Elem>(p: i64, d: usize, maxk: usize, lens: Vec<usize>) -> Space {
    let irr = irreducibles(p, d).pop().unwrap();
    let subs = subsets(irr.len(), maxk);
    let nl = lens.len();
    let mut sp = Space::new(
        &format!("stuck generators mod {} degree {} ({})", p, d, T::NAME),
        &format!("products of every set of 1..={} of the {} monic irreducibles, every answer repeated {:?} times", maxk, irr.len(), lens),
        (subs.len() * p as usize * nl) as u64,
        move |i, rec| {
            let mut ix = Ix(i);
            let fs: Vec<&F> = subs[ix.take(subs.len())].iter().map(|k| &irr[*k]).collect();
            let r = ix.take(p as usize) as u64;
            same_case::<T>(rec, &fs, p, d, vec![r; lens[ix.take(nl)]])
        },
    );
    sp.chunk = 1;
    sp
}
/// products of irreducibles of several degrees over a larger field
fn ddf_products<T: Elem>(p: i64, roots: Vec<i64>, quads: Vec<i64>) -> Space {
    let lin: Vec<F> = roots.iter().map(|r| vec![(p - r) % p, 1]).collect();
    // x^2 - n for non-residues n, by Euler's criterion
    let mut e = vec![];
    for n in quads {
        let (mut b, mut k, mut r) = (n.rem_euclid(p), (p - 1) / 2, 1);
        while k > 0 {
            if k & 1 == 1 {
                r = mulmod(r, b, p);
            }
            b = mulmod(b, b, p);
            k >>= 1;
        }
        if r == p - 1 {
            e.push(vec![(p - n).rem_euclid(p), 0, 1]);
        }
    }
    let all: Vec<F> = lin.iter().chain(e.iter()).cloned().collect();
    let n = all.len();
    Space::new(
        &format!("products mod {} ({})", p, T::NAME),
        &format!("every subset of {} linear and {} quadratic irreducibles, leading coefficients 1 and p-1, then each degree split with 3 generators", lin.len(), e.len()),
        1u64 << n,
        move |i, rec| {
            let pick: Vec<&F> = (0..n).filter(|k| i >> k & 1 == 1).map(|k| &all[k]).collect();
            for lc in [1, p - 1] {
                let f = pick.iter().fold(vec![lc], |r, g| fmul(&r, g, p));
                let mut w = vec![];
                for d in 1..=2 {
                    let part = pick.iter().filter(|g| g.len() == d + 1).fold(vec![1], |r, g| fmul(&r, g, p));
                    if part.len() > 1 {
                        w.push((d, part));
                    }
                }
                ddf_case::<T>(rec, &f, p, lc, &w)?;
            }
            for d in 1..=2 {
                let g: Vec<&F> = pick.iter().filter(|g| g.len() == d + 1).cloned().collect();
                if !g.is_empty() {
                    for s in [0u64, 1, p as u64 - 1] {
                        same_case::<T>(rec, &g, p, d, vec![s; 3])?;
                    }
                }
            }
            Ok(())
        },
    )
}
fn subset_space(maxlen: usize) -> Space {
    let starts = 3usize;
    Space::new(
        "index subsets",
        &format!("every range of at most {} indexes at {} offsets, every subset size, stopping after each possible number of calls", maxlen, starts),
        ((maxlen + 1) * starts * (maxlen + 2)) as u64,
        move |i, rec| {
            let mut ix = Ix(i);
            let (len, start, size) = (ix.take(maxlen + 1), ix.take(starts) * 5, ix.take(maxlen + 2));
            if len == 0 && size == 0 {
                return Ok(()); // no indexes at all: whether the empty set is visited is not specified
            }
            let mut want: Vec<Vec<usize>> = vec![];
            for m in 0u32..1 << len {
                if m.count_ones() as usize == size {
                    want.push((0..len).filter(|k| m >> k & 1 == 1).map(|k| k + start).collect());
                }
            }
            want.sort();
            let mut seen = vec![];
            let r: Result<(), ()> = for_subsets_of_size(
                |s| {
                    seen.push(s.to_vec());
                    Ok(())
                },
                size,
                start..start + len,
            );
            ensure!(r.is_ok(), "enumeration stopped by itself");
            rec.steps(seen.len() as u64);
            rec.state(&(len, start, size));
            let order = seen.clone();
            for s in &mut seen {
                s.sort();
            }
            seen.sort();
            eqv!(seen, want, "subsets of size {} of {}..{}", size, start, start + len);
            rec.compared();
            rec.outcome(&want.len());
            let stops: Vec<usize> = (0..want.len()).filter(|k| *k < 40 || *k + 2 > want.len()).collect();
            for stop in stops {
                let mut calls = vec![];
                let r = for_subsets_of_size(
                    |s| {
                        calls.push(s.to_vec());
                        if calls.len() == stop + 1 {
                            Err(stop)
                        } else {
                            Ok(())
                        }
                    },
                    size,
                    start..start + len,
                );
                eqv!(r, Err(stop), "stopping after {} subsets of size {} of {}..{}", stop + 1, size, start, start + len);
                eqv!(calls, order[..=stop].to_vec(), "subsets visited before stopping");
                rec.step();
            }
            Ok(())
        },
    )
}
pub fn c27(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut spaces = vec![
        ddf_box::<i8>(2, tier.pick(11, 16)),
        ddf_box::<i32>(2, tier.pick(12, 18)),
        ddf_box::<i32>(3, tier.pick(8, 11)),
        ddf_box::<i8>(5, tier.pick(5, 7)),
        ddf_box::<i32>(5, tier.pick(6, 7)),
        ddf_box::<i64>(7, tier.pick(5, 6)),
        ddf_box::<i32>(11, tier.pick(4, 5)),
        ddf_box::<i8>(127, tier.pick(1, 2)),
        same_space::<i32>(3, 1, 3, tier.pick(7, 10)),
        same_space::<i8>(3, 2, 3, tier.pick(6, 9)),
        same_space::<i32>(3, 3, tier.pick(6, 8), tier.pick(4, 6)),
        same_space::<i32>(5, 1, 5, tier.pick(4, 6)),
        same_space::<i64>(5, 2, tier.pick(5, 10), tier.pick(3, 4)),
        same_space::<i32>(7, 1, 7, tier.pick(4, 5)),
        same_space::<i32>(7, 2, tier.pick(2, 3), tier.pick(2, 3)),
        same_space::<i64>(11, 1, tier.pick(5, 11), tier.pick(2, 3)),
        same_space::<i8>(13, 1, tier.pick(4, 6), tier.pick(2, 3)),
        same_space::<i32>(3, 4, tier.pick(3, 4), tier.pick(2, 5)),
        ddf_products::<i32>(i32::MAX as i64, vec![0, 1, 2, 65536, i32::MAX as i64 - 1], if q { vec![-1, 3, 5] } else { vec![-1, 3, 5, 7, 11, 13] }),
        ddf_products::<i32>(65537, vec![0, 3, 255, 65536], if q { vec![3, 5, 7] } else { vec![3, 5, 6, 7, 10, 11] }),
        ddf_products::<i8>(127, vec![0, 1, 63, 64, 126], if q { vec![-1, 3] } else { vec![-1, 3, 5, 6, 7] }),
        ddf_products::<i64>((1i64 << 61) - 1, vec![0, 1, 1 << 40, (1i64 << 61) - 2], if q { vec![-1, 3] } else { vec![-1, 3, 5, 7, 11] }),
    ];
    let lens = tier.pick(vec![40, 130, 700], vec![20, 40, 70, 130, 260, 700, 1500, 5000]);
    spaces.push(stuck_space::<i32>(3, 1, 3, lens.clone()));
    spaces.push(stuck_space::<i32>(3, 2, 3, lens.clone()));
    spaces.push(stuck_space::<i64>(5, 1, 5, lens.clone()));
    spaces.push(stuck_space::<i32>(7, 1, tier.pick(4, 7), lens.clone()));
    spaces.push(stuck_space::<i32>(5, 2, tier.pick(2, 3), lens.clone()));
    spaces.push(stuck_space::<i8>(13, 1, tier.pick(2, 4), lens));
    spaces.push(subset_space(tier.pick(9, 13)));
    Property {
        id: "C27".into(),
        spaces,
        assumptions: vec![
            "after the enumerated answers the generator continues with a fixed splitmix64 stream; more than two million draws count as non-termination".into(),
            "polynomials with a repeated factor are outside the contract of both steps and are skipped".into(),
        ],
    }
}
