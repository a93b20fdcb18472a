//! C22 lattice reduction, C23 two-dimensional arrays, C24 quadratic numbers (crate-private, reached through cfg(algebraics_verif) wrappers)
use algebraics::verif_hooks as h;
use h::Axis;
use mccore::engine::{catch, Ix, Property, Rec, Space, Tier};
use mccore::refmath::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::Bound;
use std::sync::Arc;

// ---------------------------------------------------------------- C22

type V = Vec<BigInt>;
fn dot(a: &[Q], b: &[Q]) -> Q {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn toq(v: &V) -> Vec<Q> {
    v.iter().map(|c| Q::from_integer(c.clone())).collect()
}
/// orthogonalisation by solving from the definition; also the coefficients
fn gs(b: &[V]) -> (Vec<Vec<Q>>, Vec<Vec<Q>>) {
    let mut o: Vec<Vec<Q>> = vec![];
    let mut mu = vec![];
    for v in b {
        let v = toq(v);
        let mut w = v.clone();
        let mut m = vec![];
        for u in &o {
            let d = dot(u, u);
            let c = if d.is_zero() { Q::zero() } else { dot(&v, u) / d };
            for (x, y) in w.iter_mut().zip(u) {
                *x -= &c * y;
            }
            m.push(c);
        }
        o.push(w);
        mu.push(m);
    }
    (o, mu)
}
/// row-style Hermite normal form of the lattice spanned by the vectors
fn hnf(b: &[V]) -> Vec<V> {
    let mut m: Vec<V> = b.to_vec();
    let n = b.first().map_or(0, |v| v.len());
    let mut r = 0;
    for c in 0..n {
        loop {
            let p = (r..m.len()).filter(|&i| !m[i][c].is_zero()).min_by_key(|&i| m[i][c].abs());
            let p = match p {
                None => break,
                Some(p) => p,
            };
            m.swap(r, p);
            let mut done = true;
            for i in r + 1..m.len() {
                let f = m[i][c].div_floor(&m[r][c]);
                if !f.is_zero() {
                    for k in 0..n {
                        let t = &f * &m[r][k];
                        m[i][k] -= t;
                    }
                }
                done &= m[i][c].is_zero();
            }
            if done {
                if m[r][c].is_negative() {
                    for k in 0..n {
                        m[r][k] = -m[r][k].clone();
                    }
                }
                for i in 0..r {
                    let f = m[i][c].div_floor(&m[r][c]);
                    for k in 0..n {
                        let t = &f * &m[r][k];
                        m[i][k] -= t;
                    }
                }
                r += 1;
                break;
            }
        }
    }
    m
}
fn owned(b: &[V], dim: usize) -> h::Owned<BigInt> {
    h::Owned::from_array(b.len(), dim, b.iter().flatten().cloned().collect())
}
fn vecs(o: &h::Owned<BigInt>) -> Vec<V> {
    let (x, y) = o.size();
    (0..x).map(|i| (0..y).map(|j| o.get((i, j)).clone()).collect()).collect()
}
fn shv(b: &[V]) -> String {
    let v: Vec<String> = b.iter().map(|v| format!("({})", v.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))).collect();
    v.join(" ")
}
fn deltas() -> Vec<Option<Q>> {
    vec![None, Some(q(99, 100)), Some(q(1, 2)), Some(q(1, 1)), Some(q(26, 100))]
}
fn lll_case(b: &[V], dim: usize, delta: &Option<Q>, rec: &mut Rec) -> Result<(), String> {
    let (o, _) = gs(b);
    rec.state(&(b, delta));
    // orthogonalisation is defined for dependent vectors too
    let arr = owned(b, dim);
    let full = || Axis::Full(..);
    let g = h::gram_schmidt(arr.slice(full(), full()));
    eqv!(g.size(), (b.len(), dim), "gram_schmidt size of {}", shv(b));
    for i in 0..b.len() {
        for j in 0..dim {
            eqv!(*g.get((i, j)), o[i][j], "gram_schmidt of {} at ({}, {})", shv(b), i, j);
        }
    }
    rec.step();
    if o.iter().any(|v| dot(v, v).is_zero()) {
        rec.compared();
        return Ok(()); // dependent: reduction is not defined
    }
    let dq = delta.clone().unwrap_or_else(|| q(3, 4));
    let what = || format!("reducing {} with quality {}", shv(b), dq);
    let r = catch(|| match delta {
        None => h::lll_reduce(arr.clone()),
        Some(d) => h::lll_reduce_with_delta(arr.clone(), d.clone()),
    })
    .map_err(|e| format!("{} panicked: {}", what(), e))?;
    rec.step();
    eqv!(r.size(), (b.len(), dim), "{}: size", what());
    let rv = vecs(&r);
    eqv!(hnf(&rv), hnf(b), "{} gave {}: normal form of the lattice", what(), shv(&rv));
    let (ro, mu) = gs(&rv);
    let half = q(1, 2);
    for i in 0..rv.len() {
        for j in 0..i {
            ensure!(mu[i][j].abs() <= half, "{} gave {}: vectors {} and {} are not size-reduced ({})", what(), shv(&rv), i, j, mu[i][j]);
        }
        if i > 0 {
            let m = &mu[i][i - 1];
            ensure!(dot(&ro[i], &ro[i]) >= (&dq - m * m) * dot(&ro[i - 1], &ro[i - 1]), "{} gave {}: vectors {} and {} violate the Lovász condition", what(), shv(&rv), i - 1, i);
        }
    }
    if delta.is_none() && b.iter().flatten().all(|c| c.abs() < bi(100)) {
        let ar: h::Owned<i128> = h::Owned::from_array(b.len(), dim, b.iter().flatten().map(|c| c.to_i128().unwrap()).collect());
        let w: Vec<BigInt> = h::lll_reduce_i128(ar).into_data().into_iter().map(BigInt::from).collect();
        eqv!(w, rv.iter().flatten().cloned().collect::<Vec<_>>(), "{} over machine integers", what());
        rec.step();
    }
    rec.outcome(&rv);
    rec.compared();
    rec.sample(|| format!("{} gives {}", what(), shv(&rv)));
    Ok(())
}
fn inner_case(a: &V, b: &V, rec: &mut Rec) -> Result<(), String> {
    rec.state(&(a, b));
    let (oa, ob) = (owned(&[a.clone()], a.len()), owned(&[b.clone()], b.len()));
    let f = || Axis::Full(..);
    let got = catch(|| h::inner_product(oa.slice(f(), f()), ob.slice(f(), f())));
    rec.step();
    if a.len() != b.len() {
        ensure!(got.is_err(), "inner product of vectors of different lengths {} {} answered", shv(&[a.clone()]), shv(&[b.clone()]));
    } else {
        eqv!(got, Ok(a.iter().zip(b).map(|(x, y)| x * y).sum::<BigInt>()), "inner product of {} and {}", shv(&[a.clone()]), shv(&[b.clone()]));
    }
    rec.compared();
    Ok(())
}
/// all bases of `n` vectors in dimension `dim` with entries of absolute value at most `m`
fn all_bases(name: &'static str, n: usize, dim: usize, m: i64, nd: usize) -> Space {
    let s = (2 * m + 1) as u64;
    let total = s.pow((n * dim) as u32);
    let ds = deltas();
    Space::new(name, &format!("all lists of {} vectors in dimension {} with entries of absolute value at most {}, {} quality parameters", n, dim, m, nd), total * nd as u64, move |i, rec| {
        let mut ix = Ix(i);
        let d = ix.take(nd);
        let b: Vec<V> = (0..n).map(|_| (0..dim).map(|_| bi(ix.take(s as usize) as i64 - m)).collect()).collect();
        lll_case(&b, dim, &ds[d], rec)
    })
}
pub fn c22(tier: Tier) -> Property {
    let mut sp = vec![];
    sp.push(all_bases("lll-1x2", 1, 2, 4, 5));
    sp.push(all_bases("lll-2x2", 2, 2, tier.pick(4, 7), 5));
    sp.push(all_bases("lll-2x3", 2, 3, 2, tier.pick(2, 5)));
    sp.push(all_bases("lll-3x3", 3, 3, 1, tier.pick(2, 5)));
    if tier == Tier::Thorough {
        sp.push(all_bases("lll-3x3-wide", 3, 3, 2, 1));
        sp.push(all_bases("lll-3x4", 3, 4, 1, 2));
    }
    // triangular bases (every full-rank lattice has one): diagonal x below-diagonal entries
    let diag: Vec<i64> = tier.pick(vec![1, 2, 5, 13], vec![1, 2, 3, 5, 7, 13]);
    let low: Vec<i64> = tier.pick(vec![0, 1, -3, 6], vec![0, 1, -2, 3, 6]);
    let (nd, nl) = (diag.len(), low.len());
    let ds = deltas();
    sp.push(Space::new("lll-triangular-3", "3-dimensional triangular bases with listed diagonal and off-diagonal entries, every quality parameter", (5 * nd.pow(3) * nl.pow(3)) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let d = ix.take(5);
        let mut b = vec![vec![bi(0); 3]; 3];
        for r in 0..3 {
            b[r][r] = bi(diag[ix.take(nd)]);
            for c in 0..r {
                b[r][c] = bi(low[ix.take(nl)]);
            }
        }
        lll_case(&b, 3, &ds[d], rec)
    }));
    // knapsack lattices as used for recognising algebraic relations: identity plus one column of multiples
    let col: Vec<i64> = tier.pick(vec![0, 1, -17, 100, 12345, 1 << 40], vec![0, 1, -17, 64, 100, -999, 12345, 1 << 40]);
    let n = col.len();
    let ds = deltas();
    let dim = 4usize;
    sp.push(Space::new("lll-knapsack-4", "4 unit vectors in dimension 5, last coordinate from a list of small and large values, every quality parameter", (5 * n.pow(dim as u32)) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let d = ix.take(5);
        let b: Vec<V> = (0..dim)
            .map(|r| {
                let mut v = vec![bi(0); dim + 1];
                v[r] = bi(1);
                v[dim] = bi(col[ix.take(n)]);
                v
            })
            .collect();
        lll_case(&b, dim + 1, &ds[d], rec)
    }));
    // long chains of swaps: consecutive powers and Fibonacci-like vectors
    let mut list: Vec<(Vec<V>, usize)> = vec![(vec![], 0), (vec![], 3)];
    for k in [1usize, 5, 20, 60, 100, 150] {
        let (mut a, mut b) = (bi(1), bi(1));
        for _ in 0..k {
            let c = &a + &b;
            a = b;
            b = c;
        }
        list.push((vec![vec![a.clone(), b.clone()], vec![b.clone(), &a + &b]], 2));
        list.push((vec![vec![bi(1), a.clone()], vec![bi(0), b.clone()]], 2));
        list.push((vec![vec![bi(1), bi(0), a.clone()], vec![bi(0), bi(1), b.clone()], vec![bi(0), bi(0), &a + &b * 2]], 3));
        let p = BigInt::one() << k;
        list.push((vec![vec![p.clone(), &p + 1, bi(3)], vec![&p + 7, p.clone(), bi(-5)], vec![bi(1), &p * 3, p.clone()]], 3));
        for n in [3usize, 5, 7] {
            // powers of a root scaled: r^i mod p
            let mut b = vec![vec![bi(0); n]; n];
            for i in 0..n {
                b[i][i] = bi(1);
                b[i][n - 1] = ((&p + 3) * bi(7).pow(i as u32)) % (&p * 5 + 1);
            }
            b[n - 1][n - 1] = &p * 5 + 1;
            list.push((b, n));
        }
    }
    let n = list.len();
    let ds = deltas();
    sp.push(Space::new("lll-chains", "fixed list of bases of dimension 0 to 7 with entries of up to 150 bits that force long swap chains, every quality parameter", (5 * n) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let d = ix.take(5);
        let (b, dim) = &list[ix.take(n)];
        lll_case(b, *dim, &ds[d], rec)
    }));
    let mut vs: Vec<V> = vec![vec![]];
    for a in -3..=3 {
        vs.push(vec![bi(a)]);
        for b in -3..=3 {
            vs.push(vec![bi(a), bi(b)]);
            vs.push(vec![bi(a), bi(b), bi(2)]);
        }
    }
    let n = vs.len();
    sp.push(Space::new("inner-product", "all pairs of listed vectors of length 0 to 3", (n * n) as u64, move |i, rec| {
        let mut ix = Ix(i);
        inner_case(&vs[ix.take(n)], &vs[ix.take(n)], rec)
    }));
    Property { id: "C22", spaces: sp, assumptions: vec!["dependent vectors and quality parameters outside (1/4, 1] are outside the property".into()] }
}

// ---------------------------------------------------------------- C23

/// an axis request: how it is asked, and which half-open range it means (None: it names cells outside `size`)
#[derive(Clone, Debug)]
struct Ask {
    kind: usize,
    a: usize,
    b: usize,
}
const KINDS: usize = 18;
impl Ask {
    fn axis(&self) -> Axis<'_> {
        let (a, b) = (&self.a, &self.b);
        match self.kind {
            0 => Axis::At(*a),
            1 => Axis::Full(..),
            2 => Axis::Range(*a..*b),
            3 => Axis::From(*a..),
            4 => Axis::To(..*b),
            5 => Axis::Inclusive(*a..=*b),
            6 => Axis::ToInclusive(..=*b),
            7 => Axis::Bounds((Bound::Excluded(*a), Bound::Included(*b))),
            8 => Axis::Bounds((Bound::Included(*a), Bound::Excluded(*b))),
            9 => Axis::Bounds((Bound::Unbounded, Bound::Excluded(*b))),
            10 => Axis::Bounds((Bound::Excluded(*a), Bound::Unbounded)),
            11 => Axis::RefRange(a..b),
            12 => Axis::RefFrom(a..),
            13 => Axis::RefTo(..b),
            14 => Axis::RefInclusive(a..=b),
            15 => Axis::RefToInclusive(..=b),
            16 => Axis::RefBounds((Bound::Excluded(a), Bound::Excluded(b))),
            _ => Axis::RefBounds((Bound::Included(a), Bound::Unbounded)),
        }
    }
    fn range(&self, size: usize) -> Option<(usize, usize)> {
        let (a, b) = (self.a as u128, self.b as u128);
        let s = size as u128;
        let (lo, hi) = match self.kind {
            0 => (a, a + 1),
            1 => (0, s),
            2 | 8 | 11 => (a, b),
            3 | 12 | 17 => (a, s),
            4 | 9 | 13 => (0, b),
            5 | 14 => (a, b + 1),
            6 | 15 => (0, b + 1),
            7 => (a + 1, b + 1),
            10 => (a + 1, s),
            _ => (a + 1, b),
        };
        if lo <= hi && hi <= s {
            Some((lo as usize, hi as usize))
        } else {
            None
        }
    }
}
fn label(x: usize, y: usize) -> i64 {
    (x * 100 + y) as i64
}
fn grid(x: usize, y: usize) -> h::Owned<i64> {
    h::Owned::from_array(x, y, (0..x).flat_map(|i| (0..y).map(move |j| label(i, j))).collect())
}
/// a rectangle of the root array: [x0, x1) x [y0, y1)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Rect {
    x0: usize,
    x1: usize,
    y0: usize,
    y1: usize,
}
impl Rect {
    fn cells(&self) -> Vec<((usize, usize), i64)> {
        let mut v = vec![];
        for x in self.x0..self.x1 {
            for y in self.y0..self.y1 {
                v.push(((x - self.x0, y - self.y0), label(x, y)));
            }
        }
        v
    }
    fn sub(&self, x: (usize, usize), y: (usize, usize)) -> Rect {
        Rect { x0: self.x0 + x.0, x1: self.x0 + x.1, y0: self.y0 + y.0, y1: self.y0 + y.1 }
    }
    fn w(&self) -> usize {
        self.x1 - self.x0
    }
    fn h(&self) -> usize {
        self.y1 - self.y0
    }
}
macro_rules! check_view {
    ($v:expr, $r:expr, $what:expr) => {{
        let (v, r) = ($v, $r);
        eqv!((v.x_size(), v.y_size()), (r.w(), r.h()), "{}: sizes", $what);
        eqv!(v.size(), (r.w(), r.h()), "{}: size", $what);
        let cells = r.cells();
        for ((x, y), l) in &cells {
            let g = catch(|| *v.get((*x, *y)));
            eqv!(g, Ok(*l), "{}: cell ({}, {})", $what, x, y);
        }
        for x in (0..=r.w() + 1).chain([usize::MAX]) {
            for y in (0..=r.h() + 1).chain([usize::MAX]) {
                if x >= r.w() || y >= r.h() {
                    ensure!(catch(|| *v.get((x, y))).is_err(), "{}: out-of-range cell ({}, {}) was read", $what, x, y);
                }
            }
        }
        let vals: Vec<i64> = cells.iter().map(|c| c.1).collect();
        eqv!(v.iter().copied().collect::<Vec<_>>(), vals, "{}: iter", $what);
        eqv!(v.ref_into_iter().copied().collect::<Vec<_>>(), vals, "{}: iteration by reference", $what);
        eqv!(v.iter().with_positions().map(|(p, v)| (p, *v)).collect::<Vec<_>>(), cells, "{}: iteration with positions", $what);
        eqv!(v.positions().collect::<Vec<_>>(), cells.iter().map(|c| c.0).collect::<Vec<_>>(), "{}: positions", $what);
        let o = v.to_owned();
        eqv!(o.size(), (r.w(), r.h()), "{}: size of the copy", $what);
        eqv!(o.into_data(), vals, "{}: copy", $what);
    }};
}
fn slice_case(xs: usize, ys: usize, ax: &Ask, ay: &Ask, rec: &mut Rec) -> Result<(), String> {
    rec.state(&(xs, ys, ax.kind, ax.a, ax.b, ay.kind, ay.a, ay.b));
    let want = match (ax.range(xs), ay.range(ys)) {
        (Some(x), Some(y)) => Some(Rect { x0: x.0, x1: x.1, y0: y.0, y1: y.1 }),
        _ => None,
    };
    let what = format!("slice({:?}, {:?}) of a {} x {} array", ax.axis(), ay.axis(), xs, ys);
    let mut arr = grid(xs, ys);
    rec.steps(2);
    match want {
        None => {
            ensure!(catch(|| arr.slice(ax.axis(), ay.axis()).size()).is_err(), "{}: answered", what);
            ensure!(catch(|| arr.slice_mut(ax.axis(), ay.axis()).size()).is_err(), "{}: mutable one answered", what);
        }
        Some(r) => {
            let v = catch(|| arr.slice(ax.axis(), ay.axis())).map_err(|e| format!("{} panicked: {}", what, e))?;
            check_view!(&v, r, what);
            eqv!(v.into_iter().copied().collect::<Vec<_>>(), r.cells().iter().map(|c| c.1).collect::<Vec<_>>(), "{}: consuming iteration", what);
            let mut arr = grid(xs, ys);
            {
                let mut m = catch(|| arr.slice_mut(ax.axis(), ay.axis())).map_err(|e| format!("mutable {} panicked: {}", what, e))?;
                check_view!(&m, r, what);
                for x in (0..=r.w() + 1).chain([usize::MAX]) {
                    for y in (0..=r.h() + 1).chain([usize::MAX]) {
                        if x >= r.w() || y >= r.h() {
                            ensure!(catch(|| *m.get_mut((x, y)) = -1).is_err(), "mutable {}: out-of-range cell ({}, {}) was written", what, x, y);
                        }
                    }
                }
                for (k, ((x, y), _)) in r.cells().iter().enumerate() {
                    if k % 2 == 0 {
                        *m.get_mut((*x, *y)) += 10_000;
                    }
                }
                for (k, c) in m.iter_mut().enumerate() {
                    if k % 2 == 1 {
                        *c += 20_000;
                    }
                }
                for c in m.mut_into_iter() {
                    *c += 1_000_000;
                }
                for c in m.into_iter() {
                    *c += 2_000_000;
                }
                rec.steps(4);
            }
            let mut want = grid(xs, ys).into_data();
            for (k, (_, l)) in r.cells().iter().enumerate() {
                let (x, y) = ((l / 100) as usize, (l % 100) as usize);
                want[x * ys + y] += 3_000_000 + if k % 2 == 0 { 10_000 } else { 20_000 };
            }
            eqv!(arr.into_data(), want, "mutable {}: the array after writing", what);
            rec.outcome(&want);
        }
    }
    rec.compared();
    rec.sample(|| what.clone());
    Ok(())
}
fn nested_case(xs: usize, ys: usize, asks: &[(Ask, Ask)], rec: &mut Rec) -> Result<(), String> {
    let key: Vec<_> = asks.iter().map(|(a, b)| (a.a, a.b, b.a, b.b)).collect();
    rec.state(&(xs, ys, &key));
    let mut r = Rect { x0: 0, x1: xs, y0: 0, y1: ys };
    for (ax, ay) in asks {
        match (ax.range(r.w()), ay.range(r.h())) {
            (Some(x), Some(y)) => r = r.sub(x, y),
            _ => return Ok(()),
        }
    }
    let what = format!("{} nested slices {:?} of a {} x {} array", asks.len(), asks.iter().map(|(a, b)| (a.axis(), b.axis())).collect::<Vec<_>>(), xs, ys);
    let mut arr = grid(xs, ys);
    let (a0, b0) = &asks[0];
    let (a1, b1) = &asks[1];
    {
        let s0 = arr.slice(a0.axis(), b0.axis());
        let s1 = catch(|| s0.slice(a1.axis(), b1.axis())).map_err(|e| format!("{} panicked: {}", what, e))?;
        if let Some((a2, b2)) = asks.get(2) {
            let s2 = catch(|| s1.slice(a2.axis(), b2.axis())).map_err(|e| format!("{} panicked: {}", what, e))?;
            check_view!(&s2, r, what);
        } else {
            check_view!(&s1, r, what);
        }
    }
    {
        let mut s0 = arr.slice_mut(a0.axis(), b0.axis());
        let mut s1 = catch(|| s0.slice_mut(a1.axis(), b1.axis())).map_err(|e| format!("mutable {} panicked: {}", what, e))?;
        macro_rules! finish {
            ($m:expr) => {{
                check_view!(&$m, r, what);
                for c in $m.iter_mut() {
                    *c += 1_000_000;
                }
                // reverse every column by swaps
                for x in 0..r.w() {
                    for y in 0..r.h() / 2 {
                        $m.swap_elements((x, y), (x, r.h() - 1 - y));
                    }
                }
            }};
        }
        if let Some((a2, b2)) = asks.get(2) {
            let mut s2 = catch(|| s1.slice_mut(a2.axis(), b2.axis())).map_err(|e| format!("mutable {} panicked: {}", what, e))?;
            finish!(s2);
        } else {
            finish!(s1);
        }
    }
    rec.steps(2 * asks.len() as u64);
    let mut want = grid(xs, ys).into_data();
    for x in r.x0..r.x1 {
        for y in r.y0..r.y1 {
            want[x * ys + y] = 1_000_000 + label(x, r.y0 + (r.y1 - 1 - y));
        }
    }
    eqv!(arr.into_data(), want, "mutable {}: the array afterwards", what);
    rec.outcome(&want);
    rec.compared();
    rec.sample(|| what.clone());
    Ok(())
}
fn basic_case(xs: usize, ys: usize, rec: &mut Rec) -> Result<(), String> {
    rec.state(&(xs, ys));
    let n = xs * ys;
    let what = format!("{} x {} array", xs, ys);
    let full = Rect { x0: 0, x1: xs, y0: 0, y1: ys };
    for len in 0..=n + 2 {
        let g = catch(|| h::Owned::from_array(xs, ys, vec![7i64; len]).into_data().len());
        let data = vec![7i64; len];
        let g2 = catch(|| h::Slice::from_array(xs, ys, &data).size());
        let mut data = vec![7i64; len];
        let g3 = catch(|| h::MutSlice::from_array(xs, ys, &mut data).size());
        rec.steps(3);
        eqv!(g.is_ok(), len == n, "{} from {} elements", what, len);
        eqv!(g2.is_ok(), len == n, "{} borrowed from {} elements", what, len);
        eqv!(g3.is_ok(), len == n, "{} mutably borrowed from {} elements", what, len);
    }
    let arr = grid(xs, ys);
    check_view!(&arr, full, what);
    eqv!(arr.data().to_vec(), full.cells().iter().map(|c| c.1).collect::<Vec<_>>(), "{}: data", what);
    let d = arr.data().to_vec();
    check_view!(&h::Slice::from_array(xs, ys, &d), full, format!("borrowed {}", what));
    let mut d = arr.data().to_vec();
    check_view!(&h::MutSlice::from_array(xs, ys, &mut d), full, format!("mutably borrowed {}", what));
    let mut calls = vec![];
    let p = h::Owned::new_with_positions(xs, ys, |x, y| {
        calls.push((x, y));
        label(x, y)
    });
    eqv!(calls, full.cells().iter().map(|c| c.0).collect::<Vec<_>>(), "{}: order of construction calls", what);
    eqv!(p, arr, "{} built from positions", what);
    let mut k = 0;
    let c = h::Owned::new_with(xs, ys, || {
        k += 1;
        k
    });
    eqv!(c.size(), (xs, ys), "{} built from calls", what);
    eqv!(c.into_data(), (1..=n as i64).collect::<Vec<_>>(), "{} built from calls", what);
    let c = h::Owned::new(xs, ys, 5i64);
    eqv!((c.size(), c.into_data()), ((xs, ys), vec![5i64; n]), "{} filled", what);
    rec.steps(6);
    // writes and swaps of every pair of cells, and refused ones
    let all: Vec<(usize, usize)> = (0..=xs).chain([usize::MAX]).flat_map(|x| (0..=ys).chain([usize::MAX]).map(move |y| (x, y))).collect();
    let ok = |p: &(usize, usize)| p.0 < xs && p.1 < ys;
    for p in &all {
        let mut m = grid(xs, ys);
        let g = catch(|| *m.get_mut(*p) = -5);
        eqv!(g.is_ok(), ok(p), "{}: writing {:?}", what, p);
        let mut want = grid(xs, ys).into_data();
        if ok(p) {
            want[p.0 * ys + p.1] = -5;
        }
        eqv!(m.data_mut().to_vec(), want, "{}: after writing {:?}", what, p);
        rec.step();
        for s in &all {
            let mut m = grid(xs, ys);
            let g = catch(|| m.swap_elements(*p, *s));
            eqv!(g.is_ok(), ok(p) && ok(s), "{}: swapping {:?} and {:?}", what, p, s);
            let mut want = grid(xs, ys).into_data();
            if ok(p) && ok(s) {
                want.swap(p.0 * ys + p.1, s.0 * ys + s.1);
            }
            eqv!(m.into_data(), want, "{}: after swapping {:?} and {:?}", what, p, s);
            rec.step();
        }
    }
    rec.outcome(&d);
    rec.compared();
    rec.sample(|| what.clone());
    Ok(())
}
/// every iterator of the module behind one interface
enum Any<'a> {
    P(h::Pos),
    R(h::RefIter<'a, i64>),
    RW(h::RefIterWithPositions<'a, i64>),
    M(h::MutIter<'a, i64>),
    MW(h::MutIterWithPositions<'a, i64>),
    O(h::OwnedIter<i64>),
    OW(h::OwnedIterWithPositions<i64>),
}
type Item = (Option<(usize, usize)>, Option<i64>);
macro_rules! each {
    ($s:expr, $it:ident => $e:expr) => {
        match $s {
            Any::P($it) => ($e).map(|p| (Some(p), None)),
            Any::R($it) => ($e).map(|v| (None, Some(*v))),
            Any::RW($it) => ($e).map(|(p, v)| (Some(p), Some(*v))),
            Any::M($it) => ($e).map(|v| (None, Some(*v))),
            Any::MW($it) => ($e).map(|(p, v)| (Some(p), Some(*v))),
            Any::O($it) => ($e).map(|v| (None, Some(v))),
            Any::OW($it) => ($e).map(|(p, v)| (Some(p), Some(v))),
        }
    };
}
macro_rules! plain {
    ($s:expr, $it:ident => $e:expr) => {
        match $s {
            Any::P($it) => $e,
            Any::R($it) => $e,
            Any::RW($it) => $e,
            Any::M($it) => $e,
            Any::MW($it) => $e,
            Any::O($it) => $e,
            Any::OW($it) => $e,
        }
    };
}
impl<'a> Any<'a> {
    fn next(&mut self) -> Option<Item> {
        each!(self, i => i.next())
    }
    fn next_back(&mut self) -> Option<Item> {
        each!(self, i => i.next_back())
    }
    fn nth(&mut self, n: usize) -> Option<Item> {
        each!(self, i => i.nth(n))
    }
    fn nth_back(&mut self, n: usize) -> Option<Item> {
        each!(self, i => i.nth_back(n))
    }
    fn last(self) -> Option<Item> {
        each!(self, i => i.last())
    }
    fn count(self) -> usize {
        plain!(self, i => i.count())
    }
    fn lens(&self) -> (usize, (usize, Option<usize>)) {
        plain!(self, i => (i.len(), i.size_hint()))
    }
    fn positions(&self) -> h::Pos {
        match self {
            Any::P(p) => *p,
            Any::R(i) => i.positions(),
            Any::RW(i) => i.positions(),
            Any::M(i) => i.positions(),
            Any::MW(i) => i.positions(),
            Any::O(i) => i.positions(),
            Any::OW(i) => i.positions(),
        }
    }
    fn toggle(self) -> Any<'a> {
        match self {
            Any::P(p) => Any::P(p),
            Any::R(i) => Any::RW(i.with_positions()),
            Any::RW(i) => Any::R(i.without_positions()),
            Any::M(i) => Any::MW(i.with_positions()),
            Any::MW(i) => Any::M(i.without_positions()),
            Any::O(i) => Any::OW(i.with_positions()),
            Any::OW(i) => Any::O(i.without_positions()),
        }
    }
    fn shape(&self, c: &((usize, usize), i64)) -> Item {
        match self {
            Any::P(_) => (Some(c.0), None),
            Any::R(_) | Any::M(_) | Any::O(_) => (None, Some(c.1)),
            _ => (Some(c.0), Some(c.1)),
        }
    }
}
const ITERS: [&str; 6] = ["positions", "shared", "mutable", "owned", "slice consumed", "mutable slice consumed"];
fn iter_case(size: (usize, usize), r: Rect, kind: usize, ops: &[u8], end: usize, rec: &mut Rec) -> Result<(), String> {
    rec.state(&(size, r, kind, ops, end));
    let mut arr = grid(size.0, size.1);
    let (ax, ay) = (Axis::Range(r.x0..r.x1), Axis::Range(r.y0..r.y1));
    let sl;
    let mut ms;
    let mut it: Any = match kind {
        0 => Any::P(arr.slice(ax, ay).positions()),
        1 => {
            sl = arr.slice(ax, ay);
            Any::R(sl.iter())
        }
        2 => {
            ms = arr.slice_mut(ax, ay);
            Any::M(ms.iter_mut())
        }
        3 => Any::O(arr.slice(ax, ay).to_owned().into_iter()),
        4 => Any::R(arr.slice(ax, ay).into_iter()),
        _ => Any::M(arr.slice_mut(ax, ay).into_iter()),
    };
    let cells = r.cells();
    let mut rest: &[((usize, usize), i64)] = &cells;
    let what = |k: usize| {
        let s: Vec<&str> = ops[..k].iter().map(|o| ["front", "back", "front+1", "back+1", "toggle"][*o as usize]).collect();
        format!("{} iterator over {:?} of a {} x {} array after {:?}", ITERS[kind], r, size.0, size.1, s)
    };
    for k in 0..=ops.len() {
        let n = rest.len();
        eqv!(it.lens(), (n, (n, Some(n))), "{}: remaining length", what(k));
        let p = it.positions();
        eqv!((p.is_finished(), p.pos(), p.rev_pos()), (n == 0, rest.first().map(|c| c.0), rest.last().map(|c| c.0)), "{}: next positions", what(k));
        if k == ops.len() {
            break;
        }
        rec.step();
        let want: Option<((usize, usize), i64)>;
        match ops[k] {
            4 => {
                it = it.toggle();
                continue;
            }
            0 => {
                want = rest.first().copied();
                rest = &rest[1.min(n)..];
            }
            1 => {
                want = rest.last().copied();
                rest = &rest[..n.max(1) - 1];
            }
            2 => {
                want = rest.get(1).copied();
                rest = &rest[2.min(n)..];
            }
            _ => {
                want = if n >= 2 { Some(rest[n - 2]) } else { None };
                rest = &rest[..n.max(2) - 2];
            }
        }
        let want = want.map(|c| it.shape(&c));
        let got = catch(|| match ops[k] {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(1),
            _ => it.nth_back(1),
        });
        eqv!(got, Ok(want), "{}: value", what(k + 1));
    }
    let w = |c: Option<&((usize, usize), i64)>, it: &Any| c.map(|c| it.shape(c));
    match end {
        0 => {
            let e = w(rest.last(), &it);
            eqv!(it.last(), e, "{}: last", what(ops.len()));
        }
        1 => eqv!(it.count(), rest.len(), "{}: count", what(ops.len())),
        2 => {
            let mut got = vec![];
            let mut want = vec![];
            for c in rest {
                want.push(Some(it.shape(c)));
            }
            want.push(None);
            want.push(None);
            for _ in 0..want.len() {
                got.push(it.next());
            }
            eqv!(got, want, "{}: the rest forwards", what(ops.len()));
        }
        _ => {
            let mut got = vec![];
            let mut want = vec![];
            for c in rest.iter().rev() {
                want.push(Some(it.shape(c)));
            }
            want.push(None);
            want.push(None);
            for _ in 0..want.len() {
                got.push(it.next_back());
            }
            eqv!(got, want, "{}: the rest backwards", what(ops.len()));
        }
    }
    rec.outcome(&(kind, rest, end));
    rec.compared();
    rec.sample(|| what(ops.len()));
    Ok(())
}
fn rects(x: usize, y: usize) -> Vec<Rect> {
    let mut v = vec![];
    for x0 in 0..=x {
        for x1 in x0..=x {
            for y0 in 0..=y {
                for y1 in y0..=y {
                    v.push(Rect { x0, x1, y0, y1 });
                }
            }
        }
    }
    v
}
fn show_case(xs: usize, ys: usize, cells: &[&'static str], rec: &mut Rec) -> Result<(), String> {
    rec.state(&(xs, ys, cells));
    let arr = h::Owned::from_array(xs, ys, cells.to_vec());
    let (p, t) = arr.display();
    let (ps, ts) = arr.slice(Axis::Full(..), Axis::From(0..)).display();
    rec.steps(2);
    eqv!((&ps, &ts), (&p, &t), "printing a slice of {:?}", cells);
    if xs == 0 || ys == 0 {
        eqv!(p, format!("[x_size={}, y_size={}]\n", xs, ys), "printing an empty array");
        rec.compared();
        return Ok(());
    }
    // reference: lay out cell lines on a character canvas
    let cell = |x: usize, y: usize| -> Vec<&str> { cells[x * ys + y].split('\n').collect() };
    let w: Vec<usize> = (0..xs).map(|x| (0..ys).flat_map(|y| cell(x, y)).map(|l| l.len()).max().unwrap().max(1)).collect();
    let hh: Vec<usize> = (0..ys).map(|y| (0..xs).map(|x| cell(x, y).len()).max().unwrap()).collect();
    let multi = hh.iter().any(|h| *h > 1);
    let line = |y: usize, k: usize, x: usize| format!(" {:w$} ", cell(x, y).get(k).unwrap_or(&""), w = w[x]);
    let mut plain: Vec<String> = vec![];
    let mut table: Vec<String> = vec![];
    let sep: String = w.iter().map(|w| format!("+{}", "-".repeat(w + 2))).collect::<String>() + "+";
    table.push(sep.clone());
    for y in 0..ys {
        for k in 0..hh[y] {
            let row: Vec<String> = (0..xs).map(|x| line(y, k, x)).collect();
            plain.push(format!("[{}]", row.concat()));
            table.push(format!("|{}|", row.join("|")));
        }
        if multi && y + 1 < ys {
            plain.push(format!("[{}]", " ".repeat(w.iter().map(|w| w + 2).sum())));
        }
        table.push(sep.clone());
    }
    eqv!(p, plain.join("\n"), "printing {:?}", cells);
    eqv!(t, table.join("\n"), "printing {:?} as a table", cells);
    rec.outcome(&p);
    rec.compared();
    rec.sample(|| p.clone());
    Ok(())
}
/// run in a child process: must not write anything to its standard streams
pub fn silent_iteration() {
    let mut arr = grid(3, 3);
    for c in arr.iter_mut().rev() {
        *c += 1;
    }
    let _ = arr.iter().rev().count();
    let _ = arr.clone().into_iter().rev().collect::<Vec<_>>();
    let _ = arr.slice_mut(Axis::From(1..), Axis::From(1..)).into_iter().rev().map(|v| *v).collect::<Vec<_>>();
    let _ = arr.iter_mut().with_positions().rev().map(|v| *v.1).collect::<Vec<_>>();
    let _ = arr.into_iter().with_positions().rev().last();
}
pub fn c23(tier: Tier) -> Property {
    let mut sp = vec![];
    let m = tier.pick(4usize, 6);
    sp.push(Space::new("basics", "every array size up to 4 x 4 (thorough 6 x 6): construction from every length, every read, write and swap of two positions in range, at the edge and far outside", ((m + 1) * (m + 1)) as u64, move |i, rec| {
        let mut ix = Ix(i);
        basic_case(ix.take(m + 1), ix.take(m + 1), rec)
    }));
    let m = tier.pick(3usize, 4);
    // every request per axis size
    let asks = move |s: usize| -> Vec<Ask> {
        let mut v = vec![];
        for kind in 0..KINDS {
            let ua = ![1, 4, 6, 9, 13, 15].contains(&kind);
            let ub = ![0, 1, 3, 10, 12, 17].contains(&kind);
            let va: Vec<usize> = if ua { (0..=s + 2).chain([usize::MAX]).collect() } else { vec![0] };
            let vb: Vec<usize> = if ub { (0..=s + 2).chain([usize::MAX]).collect() } else { vec![0] };
            for &a in &va {
                for &b in &vb {
                    v.push(Ask { kind, a, b });
                }
            }
        }
        v
    };
    let mut cases: Vec<(usize, usize, Ask, Ask)> = vec![];
    for xs in 0..=m {
        for ys in 0..=m {
            let (cx, cy) = (asks(xs), asks(ys));
            // every request on one axis against every plain range on the other
            for a in &cx {
                for b in &cy {
                    if a.kind == 2 || b.kind == 2 {
                        cases.push((xs, ys, a.clone(), b.clone()));
                    }
                }
            }
        }
    }
    sp.push(Space::new("slices", "every array size up to 3 x 3 (thorough 4 x 4), every request of each of the 14 bound forms on one axis (bounds up to two past the end, and the largest integer) with every half-open range on the other; all cells read, written and iterated through the slice, everything outside untouched", cases.len() as u64, move |i, rec| {
        let (x, y, a, b) = &cases[i as usize];
        slice_case(*x, *y, a, b, rec)
    }));
    // nested slices
    let depth = tier.pick(2usize, 3);
    for (name, sizes, d) in [("nested-2", vec![(3usize, 3usize), (2, 3), (3, 2), (4, 2), (2, 4), (1, 4)], 2usize), ("nested-3", vec![(2, 2), (2, 3), (3, 2)], 3)] {
        if d > depth && name == "nested-3" {
            continue;
        }
        let mut cases: Vec<(usize, usize, Vec<Rect>)> = vec![];
        for (x, y) in sizes {
            let mut level: Vec<Vec<Rect>> = vec![vec![]];
            for _ in 0..d {
                let mut nx = vec![];
                for path in level {
                    let (w, hh) = path.last().map_or((x, y), |r: &Rect| (r.w(), r.h()));
                    for r in rects(w, hh) {
                        let mut p = path.clone();
                        p.push(r);
                        nx.push(p);
                    }
                }
                level = nx;
            }
            cases.extend(level.into_iter().map(|p| (x, y, p)));
        }
        sp.push(Space::new(name, "every rectangle of every rectangle (2 or 3 levels) of the listed array sizes, through shared and mutable slices", cases.len() as u64, move |i, rec| {
            let (x, y, p) = &cases[i as usize];
            let asks: Vec<(Ask, Ask)> = p.iter().map(|r| (Ask { kind: 2, a: r.x0, b: r.x1 }, Ask { kind: 2, a: r.y0, b: r.y1 })).collect();
            nested_case(*x, *y, &asks, rec)
        }));
    }
    // all front/back interleavings
    let mut cases: Vec<((usize, usize), Rect)> = vec![];
    for (x, y) in [(3usize, 3usize), (2, 4), (4, 2), (1, 6), (6, 1)] {
        for r in rects(x, y) {
            if r.w() * r.h() <= tier.pick(8, 9) {
                cases.push(((x, y), r));
            }
        }
    }
    let mut starts: Vec<u64> = vec![0];
    for (_, r) in &cases {
        let n = r.w() * r.h();
        starts.push(starts.last().unwrap() + 6 * (1u64 << (n + 1)));
    }
    let total = *starts.last().unwrap();
    {
        let cases = cases.clone();
        sp.push(Space::new("drain", "every interleaving of front and back steps until one step past the end, for 6 iterators over every rectangle of at most 8 (thorough 9) cells of 3x3, 2x4, 4x2, 1x6 and 6x1 arrays; length, size hint and next positions checked after every step", total, move |i, rec| {
            let c = starts.partition_point(|s| *s <= i) - 1;
            let mut ix = Ix(i - starts[c]);
            let kind = ix.take(6);
            let n = cases[c].1.w() * cases[c].1.h();
            let ops: Vec<u8> = (0..n + 1).map(|_| ix.take(2) as u8).collect();
            iter_case(cases[c].0, cases[c].1, kind, &ops, 1, rec)
        }));
    }
    let len = tier.pick(5usize, 7);
    let small: Vec<((usize, usize), Rect)> = cases.into_iter().filter(|(s, r)| r.w() * r.h() >= 1 && (s.0 == 3 || r.w() * r.h() >= 6)).collect();
    let n = small.len();
    let per = 6 * 4 * 5u64.pow(len as u32);
    sp.push(Space::new("scripts", "every sequence of 5 (thorough 7) operations out of front, back, skip-front, skip-back, gain/lose positions, then last, count, or the rest in either direction; 6 iterators; rectangles of 3x3 and the larger ones of the other arrays", n as u64 * per, move |i, rec| {
        let mut ix = Ix(i);
        let (s, r) = small[ix.take(n)];
        let kind = ix.take(6);
        let end = ix.take(4);
        let ops: Vec<u8> = (0..len).map(|_| ix.take(5) as u8).collect();
        iter_case(s, r, kind, &ops, end, rec)
    }));
    let texts = ["0", "", "abc", "x\nlong"];
    let sizes = [(0usize, 0usize), (0, 2), (2, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)];
    let mut cases = vec![];
    for (x, y) in sizes {
        for k in 0..4usize.pow((x * y) as u32) {
            cases.push((x, y, k));
        }
    }
    sp.push(Space::new("display", "every filling of arrays of up to six cells with four cell texts (empty, short, long, two lines), plain and as a table", cases.len() as u64, move |i, rec| {
        let (x, y, k) = cases[i as usize];
        let mut ix = Ix(k as u64);
        let c: Vec<&'static str> = (0..x * y).map(|_| texts[ix.take(4)]).collect();
        show_case(x, y, &c, rec)
    }));
    sp.push(Space::new("silent", "iterating backwards in a child process writes nothing to its standard streams", 1, move |_, rec| {
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("silent").output().map_err(|e| e.to_string())?;
        rec.state(&0);
        rec.step();
        ensure!(out.status.success(), "child failed");
        ensure!(out.stdout.is_empty() && out.stderr.is_empty(), "iterating backwards printed {:?}", String::from_utf8_lossy(&out.stderr).chars().take(120).collect::<String>());
        rec.compared();
        Ok(())
    }));
    Property { id: "C23", spaces: sp, assumptions: vec!["the harness is compiled with overflow checks; a bound of usize::MAX counts as refused when it panics".into()] }
}

// ---------------------------------------------------------------- C24

const BITS: usize = 256;
/// a canonical quadratic number of the reference: terms and its enclosure scaled by 2^BITS
#[derive(Clone, Debug)]
struct Num {
    t: (BigInt, BigInt, BigInt),
    lo: BigInt,
    hi: BigInt,
    ratio: Option<Q>,
}
fn square_root(n: &BigInt) -> Option<BigInt> {
    let r = sqrt_floor(n);
    if &r * &r == *n {
        Some(r)
    } else {
        None
    }
}
fn rational(v: Q) -> Num {
    Num { t: (-v.numer().clone(), v.denom().clone(), bi(0)), lo: floor_at(&v, BITS), hi: ceil_at(&v, BITS), ratio: Some(v) }
}
/// the number denoted by c + b X + a X^2, from the definition
fn denote(c: &BigInt, b: &BigInt, a: &BigInt) -> Option<Num> {
    if a.is_zero() {
        if b.is_zero() {
            return None;
        }
        return Some(rational(Q::new(-c.clone(), b.clone())));
    }
    let d: BigInt = b * b - a * c * 4i32;
    if d.is_negative() {
        return None;
    }
    if let Some(s) = square_root(&d) {
        return Some(rational(Q::new(s - b, a * 2)));
    }
    let g = c.gcd(b).gcd(a);
    let s = sqrt_floor(&(&d << (2 * BITS)));
    let den = a * 2;
    let e0: (BigInt, BigInt) = (&s - (b << BITS), &s + 1 - (b << BITS));
    let (mut lo, mut hi) = (e0.0.div_floor(&den), e0.1.div_floor(&den));
    if lo > hi {
        std::mem::swap(&mut lo, &mut hi);
    }
    lo -= 1;
    hi += 1;
    Some(Num { t: (c / &g, b / &g, a / &g), lo, hi, ratio: None })
}
fn order(x: &Num, y: &Num) -> Ordering {
    if x.t == y.t {
        Ordering::Equal
    } else if x.hi < y.lo {
        Ordering::Less
    } else if x.lo > y.hi {
        Ordering::Greater
    } else if let (Some(a), Some(b)) = (&x.ratio, &y.ratio) {
        a.cmp(b)
    } else {
        panic!("reference precision too small for {:?} and {:?}", x.t, y.t)
    }
}
fn shn(n: &Num) -> String {
    match &n.ratio {
        Some(r) => r.to_string(),
        None => format!("root of ({}) + ({})X + ({})X^2", n.t.0, n.t.1, n.t.2),
    }
}
fn un(c: &h::Quadratic) -> (BigInt, BigInt, BigInt) {
    c.terms()
}
fn mkq(n: &Num) -> h::Quadratic {
    h::Quadratic::new(n.t.0.clone(), n.t.1.clone(), n.t.2.clone()).expect("canonical terms were refused")
}
fn sign_of(n: &Num) -> i32 {
    if n.t.0.is_zero() && n.ratio.is_some() {
        0
    } else if n.lo.is_positive() {
        1
    } else {
        -1
    }
}
fn num_case(c: &BigInt, b: &BigInt, a: &BigInt, rec: &mut Rec) -> Result<(), String> {
    rec.state(&(c, b, a));
    let what = || format!("({}) + ({})X + ({})X^2", c, b, a);
    let got = catch(|| h::Quadratic::new(c.clone(), b.clone(), a.clone())).map_err(|e| format!("{} panicked: {}", what(), e))?;
    rec.step();
    let (n, v) = match (denote(c, b, a), got) {
        (None, None) => {
            rec.compared();
            return Ok(());
        }
        (None, Some(v)) => return Err(format!("{} has no such root but gave {:?}", what(), un(&v))),
        (Some(n), None) => return Err(format!("{} was refused but denotes {}", what(), shn(&n))),
        (Some(n), Some(v)) => (n, v),
    };
    eqv!(un(&v), n.t, "canonical form of {}", what());
    eqv!(v.is_ratio(), n.ratio.is_some(), "is_ratio {}", what());
    eqv!(v.to_ratio(), n.ratio, "to_ratio {}", what());
    let int = n.ratio.as_ref().filter(|r| r.is_integer()).map(|r| r.to_integer());
    eqv!(v.to_integer(), int, "to_integer {}", what());
    eqv!(v.is_integer(), int.is_some(), "is_integer {}", what());
    eqv!(v.is_zero(), int == Some(bi(0)), "is_zero {}", what());
    eqv!(v.is_one(), int == Some(bi(1)), "is_one {}", what());
    let s = sign_of(&n);
    eqv!((v.is_positive(), v.is_negative()), (s > 0, s < 0), "sign of {}", what());
    eqv!(un(&v.signum()), (bi(-s as i64), bi(1), bi(0)), "signum of {}", what());
    // negation: p(-X), other sign convention
    let neg = match &n.ratio {
        Some(r) => rational(-r),
        None => denote(&-&n.t.0, &n.t.1, &-&n.t.2).unwrap(),
    };
    ensure!(&neg.lo + &n.hi <= bi(8) && &neg.hi + &n.lo >= bi(-8), "reference negation");
    eqv!(un(&v.neg()), neg.t, "negation of {}", what());
    eqv!(un(&v.neg().neg()), n.t, "double negation of {}", what());
    eqv!(un(&v.abs()), if s < 0 { neg.t.clone() } else { n.t.clone() }, "absolute value of {}", what());
    rec.steps(10);
    if let Some(r) = &n.ratio {
        let rc = catch(|| v.checked_recip()).map_err(|e| format!("reciprocal of {} panicked: {}", r, e))?;
        let want = if r.is_zero() { None } else { Some(rational(r.recip()).t) };
        eqv!(rc.as_ref().map(un), want, "reciprocal of {}", r);
        for w in [h::Quadratic::from_ratio(r.numer().clone(), r.denom().clone()), h::Quadratic::from_ratio(r.numer() * -6, r.denom() * -6), h::Quadratic::from_big_rational(r.clone())] {
            eqv!(un(&w), n.t, "conversion of the fraction {}", r);
            ensure!(w == v, "{} from a fraction and from a polynomial differ", r);
        }
        ensure!(h::Quadratic::from_ratio_checked(r.numer().clone(), bi(0)).is_none(), "{}/0 answered", r.numer());
        if let Some(i) = &int {
            eqv!(un(&h::Quadratic::from_integer(i.clone())), n.t, "conversion of the integer {}", i);
            if let Some(k) = i.to_i64() {
                eqv!(un(&h::Quadratic::from_i64(k)), n.t, "conversion of the machine integer {}", i);
            }
        }
        rec.steps(6);
    }
    if [&n.t.0, &n.t.1, &n.t.2].iter().all(|t| t.abs() < bi(1000)) {
        let f = v.to_f64();
        let mid = (&n.lo + &n.hi).to_f64().unwrap() / 2f64.powi(BITS as i32 + 1);
        ensure!(f.map_or(false, |f| (f - mid).abs() <= 1e-9 * mid.abs().max(1.0)), "{} as a float is {:?}, expected about {}", what(), f, mid);
        rec.step();
    }
    rec.outcome(&n.t);
    rec.compared();
    rec.sample(|| format!("{} denotes {}", what(), shn(&n)));
    Ok(())
}
fn pair_case(x: &Num, y: &Num, rec: &mut Rec) -> Result<(), String> {
    rec.state(&(&x.t, &y.t));
    let (a, b) = (mkq(x), mkq(y));
    let want = order(x, y);
    let what = || format!("{} and {}", shn(x), shn(y));
    eqv!(a.cmp(&b), want, "order of {}", what());
    eqv!(a.partial_cmp(&b), Some(want), "partial order of {}", what());
    eqv!(a == b, want == Ordering::Equal, "equality of {}", what());
    eqv!((a < b, a <= b, a > b, a >= b), (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()), "relations of {}", what());
    rec.steps(7);
    rec.outcome(&(&x.t, &y.t));
    rec.compared();
    rec.sample(|| format!("{} compare {:?}", what(), want));
    Ok(())
}
fn shift(n: &Num, r: &Q) -> Num {
    match &n.ratio {
        Some(v) => rational(v + r),
        None => {
            // p(X - r), multiplied by denom^2; leading sign kept, so the same convention selects the shifted root
            let p: Vec<Q> = vec![Q::from_integer(n.t.0.clone()), Q::from_integer(n.t.1.clone()), Q::from_integer(n.t.2.clone())];
            let c = peval(&p, &-r);
            let b = &p[1] - &p[2] * r * qi(2);
            let m = Q::from_integer(c.denom().lcm(b.denom()));
            let w = denote(&(c * &m).to_integer(), &(b * &m).to_integer(), &(&p[2] * &m).to_integer()).unwrap();
            let e = (floor_at(r, BITS), ceil_at(r, BITS));
            assert!(w.lo <= &n.hi + e.1 && w.hi >= &n.lo + e.0, "reference shift");
            w
        }
    }
}
fn ratio_case(x: &Num, r: &Q, rec: &mut Rec) -> Result<(), String> {
    rec.state(&(&x.t, r));
    let a = mkq(x);
    let y = rational(r.clone());
    let want = order(x, &y);
    let what = || format!("{} and the fraction {}", shn(x), r);
    eqv!(a.cmp_ratio(r), (Some(want), Some(want.reverse())), "order of {}", what());
    let e = want == Ordering::Equal;
    eqv!(a.eq_ratio(r), (e, e), "equality of {}", what());
    let l = [want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()];
    let g = [want.is_gt(), want.is_ge(), want.is_lt(), want.is_le()];
    eqv!(a.relations_ratio(r), (l, g), "relations of {}", what());
    let b = mkq(&y);
    eqv!((a.cmp(&b), b.cmp(&a)), (want, want.reverse()), "order of {} as quadratic numbers", what());
    let sum = shift(x, r).t;
    let dif = shift(x, &-r).t;
    let neg = mkq(&shift(x, &-r)).neg();
    eqv!(catch(|| (a.checked_add(&b).as_ref().map(un), b.checked_add(&a).as_ref().map(un))), Ok((Some(sum.clone()), Some(sum.clone()))), "sum of {}", what());
    eqv!(catch(|| (un(&a.add(&b)), un(&a.sub(&b)))), Ok((sum, dif.clone())), "sum and difference of {}", what());
    eqv!(catch(|| (a.checked_sub(&b).as_ref().map(un), b.checked_sub(&a).as_ref().map(un))), Ok((Some(dif), Some(un(&neg)))), "difference of {}", what());
    rec.steps(16);
    rec.outcome(&(&x.t, r));
    rec.compared();
    rec.sample(|| format!("{} compare {:?}", what(), want));
    Ok(())
}
fn distinct(v: Vec<Num>) -> Vec<Num> {
    let mut seen = std::collections::BTreeSet::new();
    v.into_iter().filter(|n| seen.insert(n.t.clone())).collect()
}
pub fn c24(tier: Tier) -> Property {
    let mut sp = vec![];
    let m = tier.pick(20i64, 60);
    let s = (2 * m + 1) as usize;
    sp.push(Space::new("numbers", "every polynomial with coefficients of absolute value at most 20 (thorough 60): refusal, canonical form, sign, negation, conversions", (s * s * s) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let mut t = || bi(ix.take(s) as i64 - m);
        num_case(&t(), &t(), &t(), rec)
    }));
    let mut big: Vec<BigInt> = vec![];
    for k in [0usize, 1, 15, 31, 32, 63, 64, 65, 100] {
        for d in [-1i64, 0, 1] {
            for sg in [1i64, -1] {
                big.push(((BigInt::one() << k) + d) * sg);
            }
        }
    }
    big.extend([bi(6), bi(-12), bi(360)]);
    big.sort();
    big.dedup();
    let n = big.len();
    {
        let big = big.clone();
        sp.push(Space::new("large-numbers", "every polynomial with coefficients around powers of two up to 2^100", (n * n * n) as u64, move |i, rec| {
            let mut ix = Ix(i);
            let mut t = || big[ix.take(n)].clone();
            num_case(&t(), &t(), &t(), rec)
        }));
    }
    let collect = |m: i64| -> Vec<Num> {
        let mut v = vec![];
        for a in -m..=m {
            for b in -m..=m {
                for c in -m..=m {
                    v.extend(denote(&bi(c), &bi(b), &bi(a)));
                }
            }
        }
        distinct(v)
    };
    let nums = Arc::new(collect(tier.pick(7, 11)));
    let n = nums.len();
    {
        let nums = nums.clone();
        sp.push(Space::new("pairs", "all ordered pairs of distinct numbers denoted by polynomials with coefficients of absolute value at most 7 (thorough 11): order, equality, relations", (n * n) as u64, move |i, rec| {
            let mut ix = Ix(i);
            pair_case(&nums[ix.take(n)], &nums[ix.take(n)], rec)
        }));
    }
    // close pairs: large coefficients and continued-fraction-like neighbours
    let mut near = vec![];
    for d in [2i64, 3, 5, 7, 12] {
        for k in [1i64, 7, 1000, 1 << 33] {
            for e in [-1i64, 0, 1] {
                for sg in [1i64, -1] {
                    near.extend(denote(&(bi(-d) * k * k + e), &bi(0), &(bi(sg) * k * k)));
                    near.extend(denote(&(bi(-d) * k * k), &bi(e), &(bi(sg) * k * k)));
                    near.extend(denote(&(bi(d) * k * k + e), &(bi(3) * k), &(bi(-k) * k)));
                    near.extend(denote(&bi(d), &(bi(k) * k + e), &bi(sg)));
                    near.extend(denote(&bi(-d), &(bi(-k) * k + e), &bi(sg)));
                }
            }
        }
    }
    let near = Arc::new(distinct(near));
    let n = near.len();
    {
        let near = near.clone();
        sp.push(Space::new("close-pairs", "all ordered pairs from a fixed list of nearly equal, conjugate and very small or large numbers with coefficients up to 2^70", (n * n) as u64, move |i, rec| {
            let mut ix = Ix(i);
            pair_case(&near[ix.take(n)], &near[ix.take(n)], rec)
        }));
    }
    let mut fr: Vec<Q> = vec![];
    for a in -tier.pick(6i64, 12)..=tier.pick(6, 12) {
        for b in 1..=tier.pick(5i64, 9) {
            fr.push(q(a, b));
        }
    }
    fr.sort();
    fr.dedup();
    let (n, k) = (nums.len(), fr.len());
    sp.push(Space::new("fractions", "all those numbers with all fractions of numerator up to 6 (12) and denominator up to 5 (9): order both ways, equality, relations, sum, difference", (n * k) as u64, move |i, rec| {
        let mut ix = Ix(i);
        ratio_case(&nums[ix.take(n)], &fr[ix.take(k)], rec)
    }));
    let ks = [0usize, 1, 4, 10, 40, 90];
    let n = near.len();
    sp.push(Space::new("close-fractions", "the fixed list with its own roundings down and up at 0 to 90 bits, both signs", (n * ks.len() * 4) as u64, move |i, rec| {
        let mut ix = Ix(i);
        let x = &near[ix.take(n)];
        let k = ks[ix.take(ks.len())];
        let up = ix.take(2);
        let neg = ix.take(2);
        let v = Q::new(x.lo.clone(), BigInt::one() << BITS);
        let mut r = Q::new(floor_at(&v, k) + up as i64, BigInt::one() << k);
        if neg == 1 {
            r = -r;
        }
        ratio_case(x, &r, rec)
    }));
    Property { id: "C24", spaces: sp, assumptions: vec!["products, quotients and sums of two irrational quadratic numbers are unimplemented in the code and outside the property".into(), "distinct reference numbers are ordered by enclosures of 256 fractional bits, which separate every pair explored (checked: overlap aborts)".into()] }
}
