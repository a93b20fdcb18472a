//! C01..C07 real algebraic numbers
use algebraics::algebraic_numbers::*;
use algebraics::interval_arithmetic::DyadicFractionInterval as I;
use algebraics::polynomial::Polynomial;
use algebraics::traits::*;
use mccore::engine::*;
use mccore::refmath::*;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer as _;
use num_rational::Ratio;
use num_traits::*;
use std::cmp::Ordering;
use std::sync::Arc;

type A = RealAlgebraicNumber;
type Z = Vec<BigInt>;

// ---------------------------------------------------------------- operand tables
/// one value, with every way it is handed to the library
struct Num {
    e: E,
    mp: Z,
    reps: Vec<(BigInt, BigInt, usize)>,
    show: String,
}
struct Set {
    f: Field,
    nums: Vec<Num>,
}
impl Num {
    fn lib(&self, r: usize) -> A {
        let (l, u, k) = &self.reps[r];
        A::new_unchecked(Polynomial::from(self.mp.clone()), I::new(l.clone(), u.clone(), *k))
    }
    fn n(&self, r: usize) -> String {
        let (l, u, k) = &self.reps[r];
        format!("{} given by {} and [{},{}]/2^{}", self.show, show(&self.mp), l, u, k)
    }
}
fn show(p: &[BigInt]) -> String {
    format!("[{}]", p.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))
}
fn coeffs(p: &Polynomial<BigInt>) -> Z {
    p.iter().collect()
}
/// isolating intervals on several grids: tight, widest to the left, widest to the right, widest both ways
fn reps(f: &Field, e: &E, mp: &Z, deep: bool) -> Vec<(BigInt, BigInt, usize)> {
    let st = Sturm::new(&pzb(mp));
    let mut out: Vec<(BigInt, BigInt, usize)> = vec![];
    let ok = |l: &BigInt, u: &BigInt, k: usize| -> bool {
        let d = BigInt::one() << k;
        let (lq, uq) = (Q::new(l.clone(), d.clone()), Q::new(u.clone(), d));
        f.cmp_q(e, &lq) != Ordering::Less && f.cmp_q(e, &uq) != Ordering::Greater && st.closed(&lq, &uq) == 1
    };
    // the finest grid differs from value to value, so that pairs meet on unequal fine grids
    let pick = e.iter().fold(BigInt::zero(), |a, c| a * 5 + c.numer() + c.denom()).mod_floor(&3.into());
    let fine = if pick.is_zero() { 12 } else if pick.is_one() { 9 } else { 45 };
    let mut grids: Vec<usize> = if deep { vec![0, 1, 3, 6, 20, 50] } else { vec![0, 2, fine] };
    // conjugates too close for these grids: go on until one isolates
    grids.extend((1..20).map(|j| 50 + 25 * j));
    for k in grids {
        if k > 50 && !out.is_empty() {
            break;
        }
        let s = f.elem(&trim(e.iter().map(|c| c * pow2(k as i64)).collect()));
        let fl = f.floor(&s);
        let exact = f.cmp_q(&s, &Q::from_integer(fl.clone())) == Ordering::Equal;
        let ce = if exact { fl.clone() } else { &fl + 1 };
        if !ok(&fl, &ce, k) {
            continue;
        }
        let grow = |dir: i32| -> BigInt {
            let mut best = BigInt::zero();
            for j in 0..if deep { 9 } else { 7 } {
                let w = (BigInt::one() << j) + if j == 3 { 3 } else { 0 };
                let good = if dir < 0 { ok(&(&fl - &w), &ce, k) } else { ok(&fl, &(&ce + &w), k) };
                if good {
                    best = w;
                } else {
                    break;
                }
            }
            best
        };
        let (gl, gu) = (grow(-1), grow(1));
        let mut c = vec![(fl.clone(), ce.clone())];
        if deep || k == 0 {
            c.push((&fl - &gl, ce.clone()));
            c.push((fl.clone(), &ce + &gu));
        }
        c.push((&fl - &gl, &ce + &gu));
        if deep && k == 0 {
            // an end at zero, when it isolates
            if fl.is_positive() {
                c.push((BigInt::zero(), ce.clone()));
            }
            if ce.is_negative() {
                c.push((fl.clone(), BigInt::zero()));
            }
        }
        for (l, u) in c {
            if ok(&l, &u, k) && !out.contains(&(l.clone(), u.clone(), k)) {
                out.push((l, u, k));
            }
        }
    }
    if !deep && out.len() > 3 {
        // tight on the coarsest grid, the widest one, and the last one
        let w = out
            .iter()
            .enumerate()
            .max_by_key(|(_, (l, u, k))| (Q::new(u - l, BigInt::one() << *k), usize::MAX - k))
            .unwrap()
            .0;
        let mut keep = vec![0, w, out.len() - 1];
        keep.sort();
        keep.dedup();
        out = keep.into_iter().map(|i| out[i].clone()).collect();
    }
    assert!(!out.is_empty());
    out
}
fn num(f: &Field, e: E, deep: bool) -> Num {
    let mp = f.minpoly(&e);
    let r = reps(f, &e, &mp, deep);
    Num { show: f.show(&e), reps: r, mp, e }
}
fn set(f: Field, es: Vec<E>, deep: bool) -> Arc<Set> {
    let mut seen: Vec<E> = vec![];
    for e in es {
        if !seen.contains(&e) {
            seen.push(e);
        }
    }
    let nums = seen.into_iter().map(|e| num(&f, e, deep)).collect();
    Arc::new(Set { f, nums })
}
/// element from rational coordinates with a common denominator
fn el(f: &Field, c: &[i64], d: i64) -> E {
    f.elem(&trim(c.iter().map(|x| q(*x, d)).collect()))
}
fn sqrt2() -> Field {
    Field::new("Q(t), t = sqrt(2)", &[-2, 0, 1], 1)
}
fn sqrt5() -> Field {
    Field::new("Q(t), t = sqrt(5)", &[-5, 0, 1], 1)
}
fn biquad() -> Field {
    Field::new("Q(t), t = sqrt(2)+sqrt(3)", &[1, 0, -10, 0, 1], 3)
}
/// a + b sqrt2 + c sqrt3 + d sqrt6 in biquad()
fn bq(f: &Field, a: i64, b: i64, c: i64, d: i64, den: i64) -> E {
    let s2 = f.elem(&vec![qi(0), q(-9, 2), qi(0), q(1, 2)]);
    let s3 = f.elem(&vec![qi(0), q(11, 2), qi(0), q(-1, 2)]);
    let s6 = f.mul(&s2, &s3);
    let mut r = f.rat(&q(a, den));
    for (x, k) in [(&s2, b), (&s3, c), (&s6, d)] {
        r = f.add(&r, &f.mul(&f.rat(&q(k, den)), x));
    }
    r
}
fn cbrt2() -> Field {
    Field::new("Q(t), t = 2^(1/3)", &[-2, 0, 0, 1], 0)
}
fn root4() -> Field {
    Field::new("Q(t), t = 2^(1/4)", &[-2, 0, 0, 0, 1], 1)
}
fn root6() -> Field {
    Field::new("Q(t), t = 2^(1/6)", &[-2, 0, 0, 0, 0, 0, 1], 1)
}
fn cos7(k: usize) -> Field {
    Field::new("Q(t), t^3+t^2-2t-1 = 0 (cyclic cubic)", &[-1, -2, 1, 1], k)
}
fn quintic() -> Field {
    Field::new("Q(t), t^5-t-1 = 0", &[-1, -1, 0, 0, 0, 1], 0)
}
fn qquart() -> Field {
    // two real roots and a complex pair, non-monic
    Field::new("Q(t), 3t^4-5t-1 = 0", &[-1, -5, 0, 0, 3], 1)
}

/// the standard operand sets; `size` 0 small, 1 medium, 2 large
fn sets(size: usize, deep: bool) -> Vec<Arc<Set>> {
    let mut v = vec![];
    {
        let f = sqrt2();
        let mut c: Vec<(&[i64], i64)> = vec![
            (&[0], 1), (&[1], 1), (&[-1], 1), (&[3], 2), (&[0, 1], 1), (&[0, -1], 1), (&[1, 1], 1), (&[1, -1], 1), (&[3, -2], 1), (&[0, 1], 2), (&[-1, 3], 6),
        ];
        if size >= 1 {
            c.extend::<Vec<(&[i64], i64)>>(vec![(&[-7], 3), (&[2], 1), (&[1], 1024), (&[17, -12], 1), (&[99, 70], 1), (&[-99, 70], 1), (&[0, 1000003], 1), (&[5, 0], 7), (&[1, 1], 1000)]);
        }
        if size >= 2 {
            c.extend::<Vec<(&[i64], i64)>>(vec![
                (&[1 << 40], 1), (&[-1], 1 << 40), (&[1 << 40, 1], 1), (&[577, -408], 1), (&[2, 3], 5), (&[-2, 3], 5), (&[0, -7], 3), (&[4, 1], 4), (&[-8, 5], 16), (&[3, 3], 7),
            ]);
        }
        let es = c.iter().map(|(c, d)| el(&f, c, *d)).collect();
        v.push(set(f, es, deep));
    }
    {
        let f = sqrt5();
        let mut c: Vec<(&[i64], i64)> = vec![(&[1, 1], 2), (&[1, -1], 2), (&[0, 1], 1), (&[2, 1], 1), (&[-2, 1], 1), (&[1], 2), (&[-5, 0], 1)];
        if size >= 1 {
            c.extend::<Vec<(&[i64], i64)>>(vec![(&[9, -4], 1), (&[3, -1], 2), (&[-3, -1], 2), (&[0, 1], 5), (&[161, -72], 1)]);
        }
        let es = c.iter().map(|(c, d)| el(&f, c, *d)).collect();
        v.push(set(f, es, deep));
    }
    {
        let f = biquad();
        let mut c = vec![(0, 1, 0, 0, 1), (0, 0, 1, 0, 1), (0, 0, 0, 1, 1), (0, 1, 1, 0, 1), (0, -1, 1, 0, 1), (1, 0, 0, 0, 1), (0, 0, -1, 0, 1), (0, 0, 0, 0, 1), (1, 1, 0, 0, 1), (0, 1, 0, 0, 2)];
        if size >= 1 {
            c.extend(vec![(0, 1, -1, 0, 1), (1, 1, 1, 1, 1), (-3, 0, 0, 0, 2), (0, 0, 1, 0, 3), (5, 0, 0, -2, 1), (0, -1, -1, 0, 1)]);
        }
        if size >= 2 {
            c.extend(vec![(1, -1, 1, -1, 1), (0, 2, 3, 0, 6), (7, 0, -4, 0, 1), (1, 0, 1, 1, 5)]);
        }
        let es = c.iter().map(|(a, b, c, d, n)| bq(&f, *a, *b, *c, *d, *n)).collect();
        v.push(set(f, es, deep));
    }
    {
        let f = cbrt2();
        let mut c: Vec<(&[i64], i64)> = vec![(&[0, 1], 1), (&[0, 0, 1], 1), (&[0, -1], 1), (&[-1, 1], 1), (&[1, 1], 1), (&[0, 0, 1], 2), (&[-2], 3)];
        if size >= 1 {
            c.extend::<Vec<(&[i64], i64)>>(vec![(&[1, 1, 1], 1), (&[1], 1), (&[0], 1), (&[1, 1, -1], 1), (&[5, 0, -3], 4)]);
        }
        let es = c.iter().map(|(c, d)| el(&f, c, *d)).collect();
        v.push(set(f, es, deep));
    }
    {
        let f = cos7(2);
        let mut c: Vec<(&[i64], i64)> = vec![(&[0, 1], 1), (&[-2, 0, 1], 1), (&[1, -1, -1], 1), (&[0, -1], 1), (&[1, 1], 1), (&[1], 3)];
        if size >= 1 {
            c.extend::<Vec<(&[i64], i64)>>(vec![(&[2, 0, -1], 1), (&[0, 1, 1], 1), (&[-5, 4], 1), (&[0, 2, 1], 3)]);
        }
        let es = c.iter().map(|(c, d)| el(&f, c, *d)).collect();
        v.push(set(f, es, deep));
    }
    {
        let f = root4();
        let mut c: Vec<(&[i64], i64)> = vec![(&[0, 1], 1), (&[0, 0, 1], 1), (&[0, -1], 1), (&[-1, 1], 1), (&[0, 0, 0, 1], 1)];
        if size >= 1 {
            c.extend::<Vec<(&[i64], i64)>>(vec![(&[0, 1, 1], 1), (&[-1, 0, 1], 1), (&[1, 0, 0, 1], 2), (&[3], 1)]);
        }
        let es = c.iter().map(|(c, d)| el(&f, c, *d)).collect();
        v.push(set(f, es, deep));
    }
    if size >= 1 {
        let f = qquart();
        let c: Vec<(&[i64], i64)> = vec![(&[0, 1], 1), (&[0, -1], 1), (&[1, 1], 1), (&[0, 1], 3), (&[2], 5)];
        let es = c.iter().map(|(c, d)| el(&f, c, *d)).collect();
        v.push(set(f, es, deep));
        let f = quintic();
        let c: Vec<(&[i64], i64)> = vec![(&[0, 1], 1), (&[0, -1], 1), (&[-1, 1], 1), (&[3], 2)];
        let es = c.iter().map(|(c, d)| el(&f, c, *d)).collect();
        v.push(set(f, es, deep));
        let f = root6();
        let c: Vec<(&[i64], i64)> = vec![(&[0, 0, 1], 1), (&[0, 0, 0, 1], 1), (&[0, 0, -1], 1), (&[0, 0, 0, -1], 1), (&[0, 0, 0, 0, 1], 2), (&[1, 0, 0, 1], 1)];
        let es = c.iter().map(|(c, d)| el(&f, c, *d)).collect();
        v.push(set(f, es, deep));
    }
    v
}
/// values far from the machine-word ranges in numerator, denominator or both
fn wide_sets(tier: Tier) -> Vec<Arc<Set>> {
    let one = || Q::one();
    let mut v = vec![];
    {
        let f = sqrt2();
        let mut c: Vec<(Q, Q)> = vec![
            (pow2(65), qi(0)),
            (-pow2(64) + q(1, 3), qi(0)),
            ((pow2(64) + one()) / (pow2(64) - one()), qi(0)),
            (qi(0), pow2(70)),
            (qi(0), -pow2(-70)),
            (one(), pow2(33) + one()),
            (qi(10).pow(30), one()),
            (qi(10).pow(30), -one()),
            (q(1, 3).pow(41), q(2, 3)),
            (qi(0), one()),
        ];
        if tier == Tier::Thorough {
            c.extend(vec![(pow2(130), one()), (-pow2(-130), pow2(-129)), (pow2(31), -pow2(32)), (q(7, 5).pow(40), q(5, 7).pow(40)), (qi(0), qi(0)), (qi(3), qi(0))]);
        }
        let es = c.into_iter().map(|(a, b)| f.elem(&trim(vec![a, b]))).collect();
        v.push(set(f, es, false));
    }
    {
        let f = cbrt2();
        let c: Vec<(Q, Q, Q)> = vec![
            (qi(0), pow2(66), qi(0)),
            (pow2(40), one(), -one()),
            (pow2(-65), pow2(-65), qi(0)),
            (qi(-1_000_000_007), qi(0), q(1, 1_000_000_009)),
            (qi(-3) * pow2(64), qi(0), qi(0)),
        ];
        let es = c.into_iter().map(|(a, b, d)| f.elem(&trim(vec![a, b, d]))).collect();
        v.push(set(f, es, false));
    }
    v
}
fn short(s: &str) -> String {
    s.trim_start_matches("Q(t), ").replace("t = ", "")
}

// ---------------------------------------------------------------- judging
fn ends(n: &A) -> (Q, Q) {
    let i = n.interval();
    let d = BigInt::one() << i.log2_denom();
    (Q::new(i.lower_bound_numer().clone(), d.clone()), Q::new(i.upper_bound_numer().clone(), d))
}
/// does the returned number denote exactly `want`?
fn denotes(f: &Field, want: &E, got: &A) -> Result<(), String> {
    let m = coeffs(got.minimal_polynomial());
    let (l, u) = ends(got);
    if m.len() < 2 {
        return Err(format!("minimal polynomial {} is constant", show(&m)));
    }
    let p = pzb(&m);
    if !f.is_zero(&f.eval(&p, want)) {
        return Err(format!("{} does not vanish at the expected value {}", show(&m), f.show(want)));
    }
    if f.cmp_q(want, &l) == Ordering::Less || f.cmp_q(want, &u) == Ordering::Greater {
        return Err(format!("[{},{}] does not contain the expected value {} (polynomial {})", l, u, f.show(want), show(&m)));
    }
    let c = Sturm::new(&p).closed(&l, &u);
    if c != 1 {
        return Err(format!("{} has {} roots in [{},{}]: expected the one at {}", show(&m), c, l, u, f.show(want)));
    }
    Ok(())
}
fn judge(f: &Field, want: &E, got: Result<A, String>, what: &dyn Fn() -> String) -> Result<A, String> {
    match got {
        Err(e) => Err(format!("{} panicked: {}", what(), e)),
        Ok(n) => match denotes(f, want, &n) {
            Ok(()) => Ok(n),
            Err(e) => Err(format!("{}: {}", what(), e)),
        },
    }
}
fn same(a: &A, b: &A) -> bool {
    a.data() == b.data()
}
/// all forms must denote the value; forms with identical data are judged once
fn judge_forms(f: &Field, want: &E, forms: Vec<(&'static str, Result<A, String>)>, rec: &mut Rec, what: &dyn Fn() -> String) -> Result<(), String> {
    let mut done: Vec<A> = vec![];
    for (name, g) in forms {
        rec.step();
        if let Ok(n) = &g {
            if done.iter().any(|d| same(d, n)) {
                continue;
            }
        }
        done.push(judge(f, want, g, &|| format!("{} [{}]", what(), name))?);
    }
    Ok(())
}
struct Pairs {
    sets: Vec<Arc<Set>>,
    starts: Vec<u64>,
    total: u64,
}
/// index space: set x (value, representation) x (value, representation)
impl Pairs {
    fn new(sets: Vec<Arc<Set>>) -> Pairs {
        let mut starts = vec![];
        let mut t = 0;
        for s in &sets {
            starts.push(t);
            let r: u64 = s.nums.iter().map(|n| n.reps.len() as u64).sum();
            t += r * r;
        }
        Pairs { sets, starts, total: t }
    }
    fn get(&self, i: u64) -> (&Set, &Num, usize, &Num, usize) {
        let k = self.starts.iter().rposition(|s| *s <= i).unwrap();
        let s = &self.sets[k];
        let r: u64 = s.nums.iter().map(|n| n.reps.len() as u64).sum();
        let j = i - self.starts[k];
        let pick = |mut x: u64| {
            for n in &s.nums {
                if x < n.reps.len() as u64 {
                    return (n, x as usize);
                }
                x -= n.reps.len() as u64;
            }
            unreachable!()
        };
        let (a, ra) = pick(j / r);
        let (b, rb) = pick(j % r);
        (s, a, ra, b, rb)
    }
    fn bound(&self) -> String {
        self.sets
            .iter()
            .map(|s| format!("{} values x representations ({} total) in {}", s.nums.len(), s.nums.iter().map(|n| n.reps.len()).sum::<usize>(), s.f.name))
            .collect::<Vec<_>>()
            .join("; ")
    }
}
struct Ones {
    items: Vec<(Arc<Set>, usize, usize)>,
}
impl Ones {
    fn new(sets: &[Arc<Set>]) -> Ones {
        let mut items = vec![];
        for s in sets {
            for (i, n) in s.nums.iter().enumerate() {
                for r in 0..n.reps.len() {
                    items.push((s.clone(), i, r));
                }
            }
        }
        Ones { items }
    }
    fn get(&self, i: usize) -> (&Set, &Num, usize) {
        let (s, k, r) = &self.items[i];
        (s, &s.nums[*k], *r)
    }
    fn len(&self) -> usize {
        self.items.len()
    }
}
fn reps_note() -> String {
    "operands are the oracle's minimal polynomial with isolating dyadic intervals (tight, widest left/right/both) on several grids".into()
}
fn assume() -> Vec<String> {
    vec![
        "the oracle computes in explicit real number fields Q[t]/(f) with exact rationals; a result is accepted when its polynomial vanishes exactly at the expected field element and its interval contains that element and no other root (own Sturm sequence)".into(),
        "a case that does not finish within the engine's time limit counts as non-terminating".into(),
    ]
}

// ---------------------------------------------------------------- C01
fn split(mut v: Vec<Arc<Set>>, name: &str, bound_extra: &str, out: &mut Vec<Space>, f: fn(&Set, &Num, usize, &Num, usize, &mut Rec) -> Result<(), String>) {
    for s in v.drain(..) {
        let nm = format!("{}: {}", name, short(&s.f.name));
        let p = Pairs::new(vec![s]);
        out.push(Space::new(&nm, &format!("all ordered pairs, {}; {}; {}", bound_extra, p.bound(), reps_note()), p.total, move |i, rec| {
            let (s, a, ra, b, rb) = p.get(i);
            rec.state(&(&a.e, ra, &b.e, rb));
            f(s, a, ra, b, rb, rec)
        }));
    }
}
fn arith(s: &Set, a: &Num, ra: usize, b: &Num, rb: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let (x, y) = (a.lib(ra), b.lib(rb));
    let ctx = |op: &str| format!("({}) {} ({})", a.n(ra), op, b.n(rb));
    let r = judge(f, &f.add(&a.e, &b.e), catch(|| &x + &y), &|| ctx("+"))?;
    rec.outcome(&coeffs(r.minimal_polynomial()));
    judge(f, &f.sub(&a.e, &b.e), catch(|| &x - &y), &|| ctx("-"))?;
    judge(f, &f.mul(&a.e, &b.e), catch(|| &x * &y), &|| ctx("*"))?;
    rec.steps(4);
    if f.is_zero(&b.e) {
        let d = catch(|| (&x).checked_exact_div(&y));
        match d {
            Ok(None) => {}
            Ok(Some(n)) => return Err(format!("{} answered {:?}", ctx("checked_exact_div"), n)),
            Err(e) => return Err(format!("{} panicked: {}", ctx("checked_exact_div"), e)),
        }
        if let Ok(n) = catch(|| &x / &y) {
            return Err(format!("{} answered {:?}", ctx("/"), n));
        }
        let mut t = x.clone();
        let r = catch(|| t.checked_exact_div_assign(&y));
        ensure!(r == Ok(Err(())), "{} gave {:?}", ctx("checked_exact_div_assign"), r);
        judge(f, &a.e, Ok(t), &|| ctx("refused checked_exact_div_assign"))?;
    } else {
        let want = f.mul(&a.e, &f.inv(&b.e));
        judge(f, &want, catch(|| &x / &y), &|| ctx("/"))?;
    }
    rec.compared();
    rec.sample(|| format!("{}: all four operations exact, sum {:?}", ctx("+-*/"), r));
    Ok(())
}
fn arith_forms(s: &Set, a: &Num, ra: usize, b: &Num, rb: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let (x, y) = (a.lib(ra), b.lib(rb));
    let ctx = |op: &str| format!("({}) {} ({})", a.n(ra), op, b.n(rb));
    macro_rules! forms {
        ($op:tt, $as:tt) => {
            vec![
                ("v,v", catch(|| x.clone() $op y.clone())),
                ("r,r", catch(|| &x $op &y)),
                ("v,r", catch(|| x.clone() $op &y)),
                ("r,v", catch(|| &x $op y.clone())),
                ("assign v", catch(|| { let mut t = x.clone(); t $as y.clone(); t })),
                ("assign r", catch(|| { let mut t = x.clone(); t $as &y; t })),
            ]
        };
    }
    judge_forms(f, &f.add(&a.e, &b.e), forms!(+, +=), rec, &|| ctx("+"))?;
    judge_forms(f, &f.sub(&a.e, &b.e), forms!(-, -=), rec, &|| ctx("-"))?;
    judge_forms(f, &f.mul(&a.e, &b.e), forms!(*, *=), rec, &|| ctx("*"))?;
    if !f.is_zero(&b.e) {
        let mut v = forms!(/, /=);
        v.push(("exact_div v,v", catch(|| x.clone().exact_div(y.clone()))));
        v.push(("exact_div r,r", catch(|| (&x).exact_div(&y))));
        v.push(("exact_div v,r", catch(|| x.clone().exact_div(&y))));
        v.push(("exact_div r,v", catch(|| (&x).exact_div(y.clone()))));
        v.push(("exact_div_assign v", catch(|| { let mut t = x.clone(); t.exact_div_assign(y.clone()); t })));
        v.push(("exact_div_assign r", catch(|| { let mut t = x.clone(); t.exact_div_assign(&y); t })));
        v.push(("checked_exact_div v,v", catch(|| x.clone().checked_exact_div(y.clone()).unwrap())));
        v.push(("checked_exact_div r,v", catch(|| (&x).checked_exact_div(y.clone()).unwrap())));
        v.push(("checked_exact_div v,r", catch(|| x.clone().checked_exact_div(&y).unwrap())));
        v.push(("checked_exact_div_assign v", catch(|| { let mut t = x.clone(); t.checked_exact_div_assign(y.clone()).unwrap(); t })));
        judge_forms(f, &f.mul(&a.e, &f.inv(&b.e)), v, rec, &|| ctx("/"))?;
    } else {
        let z: Vec<(&str, bool)> = vec![
            ("v/v", catch(|| x.clone() / y.clone()).is_ok()),
            ("v/r", catch(|| x.clone() / &y).is_ok()),
            ("r/v", catch(|| &x / y.clone()).is_ok()),
            ("/= v", catch(|| { let mut t = x.clone(); t /= y.clone(); t }).is_ok()),
            ("/= r", catch(|| { let mut t = x.clone(); t /= &y; t }).is_ok()),
            ("exact_div", catch(|| (&x).exact_div(&y)).is_ok()),
            ("checked v,v", catch(|| x.clone().checked_exact_div(y.clone())) != Ok(None)),
            ("checked v,r", catch(|| x.clone().checked_exact_div(&y)) != Ok(None)),
            ("checked r,v", catch(|| (&x).checked_exact_div(y.clone())) != Ok(None)),
        ];
        for (n, bad) in z {
            rec.step();
            ensure!(!bad, "{} [{}] answered a division by zero", ctx("/"), n);
        }
    }
    rec.compared();
    Ok(())
}
fn unary(s: &Set, a: &Num, r: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let x = a.lib(r);
    let ctx = |op: &str| format!("{} of {}", op, a.n(r));
    judge_forms(f, &f.neg(&a.e), vec![("v", catch(|| -x.clone())), ("r", catch(|| -&x))], rec, &|| ctx("negation"))?;
    if f.is_zero(&a.e) {
        ensure!(matches!(catch(|| x.checked_recip()), Ok(None)), "{} was not refused", ctx("checked reciprocal"));
        ensure!(catch(|| x.recip()).is_err(), "{} was answered", ctx("reciprocal"));
        rec.steps(2);
    } else {
        judge_forms(
            f,
            &f.inv(&a.e),
            vec![("checked", catch(|| x.checked_recip().unwrap())), ("recip", catch(|| x.recip()))],
            rec,
            &|| ctx("reciprocal"),
        )?;
    }
    rec.compared();
    Ok(())
}
pub fn c01(tier: Tier) -> Property {
    let mut sp = vec![];
    split(sets(tier.pick(1, 2), tier == Tier::Thorough), "field operations", "+ - * / and checked division", &mut sp, arith);
    split(wide_sets(tier), "field operations, wide values", "+ - * / and checked division", &mut sp, arith);
    split(sets(0, false), "operator forms", "every by-value, by-reference and in-place form", &mut sp, arith_forms);
    let ones = Ones::new(&sets(2, true));
    sp.push(Space::new("negation and reciprocal", &format!("{} value representations over all fields", ones.len()), ones.len() as u64, move |i, rec| {
        let (s, a, r) = ones.get(i as usize);
        rec.state(&i);
        unary(s, a, r, rec)
    }));
    Property { id: "C01".into(), spaces: sp, assumptions: assume() }
}

// ---------------------------------------------------------------- C02
fn compare(s: &Set, a: &Num, ra: usize, b: &Num, rb: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let (x, y) = (a.lib(ra), b.lib(rb));
    let want = f.cmp(&a.e, &b.e);
    let ctx = |op: &str| format!("({}) {} ({})", a.n(ra), op, b.n(rb));
    eqv!(catch(|| x.cmp(&y)), Ok(want), "{}", ctx("cmp"));
    eqv!(catch(|| x == y), Ok(want == Ordering::Equal), "{}", ctx("=="));
    rec.steps(2);
    rec.outcome(&want);
    rec.compared();
    rec.sample(|| format!("{}: {:?}", ctx("cmp"), want));
    Ok(())
}
fn compare_forms(s: &Set, a: &Num, ra: usize, b: &Num, rb: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let (x, y) = (a.lib(ra), b.lib(rb));
    let want = f.cmp(&a.e, &b.e);
    let ctx = |op: &str| format!("({}) {} ({})", a.n(ra), op, b.n(rb));
    eqv!(catch(|| x.partial_cmp(&y)), Ok(Some(want)), "{}", ctx("partial_cmp"));
    eqv!(catch(|| x != y), Ok(want != Ordering::Equal), "{}", ctx("!="));
    eqv!(catch(|| x < y), Ok(want == Ordering::Less), "{}", ctx("<"));
    eqv!(catch(|| x <= y), Ok(want != Ordering::Greater), "{}", ctx("<="));
    eqv!(catch(|| x > y), Ok(want == Ordering::Greater), "{}", ctx(">"));
    eqv!(catch(|| x >= y), Ok(want != Ordering::Less), "{}", ctx(">="));
    rec.steps(6);
    let mx = if want == Ordering::Less { &b.e } else { &a.e };
    let mn = if want == Ordering::Greater { &b.e } else { &a.e };
    judge(f, mx, catch(|| x.clone().max(y.clone())), &|| ctx("max"))?;
    judge(f, mn, catch(|| x.clone().min(y.clone())), &|| ctx("min"))?;
    let d = f.sub(&a.e, &b.e);
    let pd = if f.sign(&d) > 0 { d } else { f.rat(&Q::zero()) };
    judge(f, &pd, catch(|| x.abs_sub(&y)), &|| ctx("abs_sub"))?;
    rec.steps(3);
    rec.compared();
    Ok(())
}
fn signs(s: &Set, a: &Num, r: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let x = a.lib(r);
    let sg = f.sign(&a.e);
    let ctx = |op: &str| format!("{} of {}", op, a.n(r));
    eqv!(catch(|| x.cmp_with_zero()), Ok(sg.cmp(&0)), "{}", ctx("cmp_with_zero"));
    eqv!(catch(|| x.is_positive()), Ok(sg > 0), "{}", ctx("is_positive"));
    eqv!(catch(|| x.is_negative()), Ok(sg < 0), "{}", ctx("is_negative"));
    eqv!(catch(|| x.is_zero()), Ok(sg == 0), "{}", ctx("is_zero"));
    judge(f, &f.rat(&qi(sg as i64)), catch(|| x.signum()), &|| ctx("signum"))?;
    let ab = if sg < 0 { f.neg(&a.e) } else { a.e.clone() };
    judge(f, &ab, catch(|| x.abs()), &|| ctx("abs"))?;
    rec.steps(6);
    rec.outcome(&sg);
    rec.compared();
    Ok(())
}
/// values that nearly coincide: continued fraction convergents, unit powers, tiny perturbations
fn close_sets(tier: Tier) -> Vec<Arc<Set>> {
    let mut v = vec![];
    let deep = tier == Tier::Thorough;
    {
        let f = sqrt2();
        let mut es = vec![el(&f, &[0, 1], 1)];
        let (mut p, mut w) = (1i64, 1i64);
        for k in 0..tier.pick(12, 24) {
            let (np, nw) = (p + 2 * w, p + w);
            p = np;
            w = nw;
            if k % 2 == 1 || k > 4 {
                es.push(f.rat(&q(p, w)));
            }
        }
        // sqrt2 +- 2^-k
        for k in tier.pick(vec![5i64, 30, 70], vec![5, 17, 30, 53, 70, 140]) {
            let mut e = el(&f, &[0, 1], 1);
            e[0] += pow2(-k);
            es.push(e);
            let mut e = el(&f, &[0, 1], 1);
            e[1] += pow2(-k);
            es.push(e);
        }
        v.push(set(f, es, deep));
    }
    {
        // units close to zero and to each other
        let f = sqrt5();
        let u = el(&f, &[-1, 1], 2);
        let mut es = vec![f.rat(&Q::zero())];
        for k in tier.pick(vec![4, 5, 11, 24], vec![4, 5, 11, 12, 24, 35, 60]) {
            let p = f.pow(&u, k);
            es.push(f.neg(&p));
            es.push(f.add(&p, &f.rat(&qi(3))));
            es.push(f.sub(&f.rat(&qi(3)), &p));
            es.push(p);
        }
        es.push(f.rat(&qi(3)));
        v.push(set(f, es, false));
    }
    {
        let f = biquad();
        let es = vec![
            bq(&f, 0, 1, 1, 0, 1),
            f.rat(&q(22, 7)),
            f.rat(&q(3_146_264_369_941_972, 1_000_000_000_000_000)),
            bq(&f, 0, 7, 0, 0, 1),
            bq(&f, 0, 0, 4, 0, 1),
            bq(&f, 3, 0, 4, 0, 1),
            bq(&f, 5, 0, 0, 2, 1),
            bq(&f, 0, 0, 0, 4, 1),
            bq(&f, 1, 6, 0, 0, 1),
        ];
        v.push(set(f, es, false));
    }
    v
}
pub fn c02(tier: Tier) -> Property {
    let mut sp = vec![];
    split(sets(tier.pick(1, 2), tier == Tier::Thorough), "comparison", "cmp and ==", &mut sp, compare);
    split(close_sets(tier), "near-equal comparison", "cmp and == on nearly coinciding values", &mut sp, compare);
    split(wide_sets(tier), "wide comparison", "cmp and ==", &mut sp, compare);
    split(sets(0, false), "comparison forms", "all comparison operators, max, min, positive difference", &mut sp, compare_forms);
    let mut all = sets(2, true);
    all.extend(close_sets(tier));
    all.extend(wide_sets(tier));
    let ones = Ones::new(&all);
    sp.push(Space::new("signs", &format!("sign tests, signum and absolute value of {} value representations", ones.len()), ones.len() as u64, move |i, rec| {
        let (s, a, r) = ones.get(i as usize);
        rec.state(&i);
        signs(s, a, r, rec)
    }));
    Property { id: "C02".into(), spaces: sp, assumptions: assume() }
}

// ---------------------------------------------------------------- C03
fn rounding(s: &Set, a: &Num, r: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let x = a.lib(r);
    let fl = f.floor(&a.e);
    let int = f.cmp_q(&a.e, &Q::from_integer(fl.clone())) == Ordering::Equal;
    let ce = if int { fl.clone() } else { &fl + 1 };
    let tr = if f.sign(&a.e) < 0 { ce.clone() } else { fl.clone() };
    let ctx = |op: &str| format!("{} of {}", op, a.n(r));
    let e = |v: &BigInt| f.rat(&Q::from_integer(v.clone()));
    eqv!(catch(|| x.to_integer_floor()), Ok(fl.clone()), "{}", ctx("to_integer_floor"));
    eqv!(catch(|| x.clone().into_integer_floor()), Ok(fl.clone()), "{}", ctx("into_integer_floor"));
    eqv!(catch(|| x.to_integer_ceil()), Ok(ce.clone()), "{}", ctx("to_integer_ceil"));
    eqv!(catch(|| x.clone().into_integer_ceil()), Ok(ce.clone()), "{}", ctx("into_integer_ceil"));
    eqv!(catch(|| x.to_integer_trunc()), Ok(tr.clone()), "{}", ctx("to_integer_trunc"));
    eqv!(catch(|| x.clone().into_integer_trunc()), Ok(tr.clone()), "{}", ctx("into_integer_trunc"));
    judge_forms(f, &e(&fl), vec![("r", catch(|| x.floor())), ("v", catch(|| x.clone().into_floor()))], rec, &|| ctx("floor"))?;
    judge_forms(f, &e(&ce), vec![("r", catch(|| x.ceil())), ("v", catch(|| x.clone().into_ceil()))], rec, &|| ctx("ceil"))?;
    judge_forms(f, &e(&tr), vec![("r", catch(|| x.trunc())), ("v", catch(|| x.clone().into_trunc()))], rec, &|| ctx("trunc"))?;
    let fr = f.sub(&a.e, &e(&fl));
    judge_forms(f, &fr, vec![("r", catch(|| x.fract())), ("v", catch(|| x.clone().into_fract()))], rec, &|| ctx("fract"))?;
    let rat = f.as_rational(&a.e);
    eqv!(catch(|| x.to_rational()), Ok(rat.clone()), "{}", ctx("to_rational"));
    eqv!(catch(|| x.to_integer()), Ok(if int { Some(fl.clone()) } else { None }), "{}", ctx("to_integer"));
    eqv!(catch(|| x.is_integer()), Ok(int), "{}", ctx("is_integer"));
    eqv!(catch(|| x.is_rational()), Ok(rat.is_some()), "{}", ctx("is_rational"));
    rec.steps(10);
    rec.outcome(&(fl, ce));
    rec.compared();
    rec.sample(|| format!("{}", ctx("rounding")));
    Ok(())
}
fn remainder(s: &Set, a: &Num, ra: usize, b: &Num, rb: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let (x, y) = (a.lib(ra), b.lib(rb));
    let ctx = |op: &str| format!("({}) {} ({})", a.n(ra), op, b.n(rb));
    rec.step();
    if f.is_zero(&b.e) {
        ensure!(catch(|| &x % &y).is_err(), "{} was answered", ctx("%"));
        return Ok(());
    }
    let qt = f.mul(&a.e, &f.inv(&b.e));
    let fl = f.floor(&qt);
    let tr = if f.sign(&qt) < 0 && f.cmp_q(&qt, &Q::from_integer(fl.clone())) != Ordering::Equal { fl + 1 } else { fl };
    let want = f.sub(&a.e, &f.mul(&f.rat(&Q::from_integer(tr.clone())), &b.e));
    let g = judge(f, &want, catch(|| &x % &y), &|| ctx("%"))?;
    rec.outcome(&tr);
    rec.compared();
    rec.sample(|| format!("{} = {:?}", ctx("%"), g));
    Ok(())
}
fn remainder_forms(s: &Set, a: &Num, ra: usize, b: &Num, rb: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    if f.is_zero(&b.e) {
        return Ok(());
    }
    let (x, y) = (a.lib(ra), b.lib(rb));
    let ctx = |op: &str| format!("({}) {} ({})", a.n(ra), op, b.n(rb));
    let qt = f.mul(&a.e, &f.inv(&b.e));
    let fl = f.floor(&qt);
    let tr = if f.sign(&qt) < 0 && f.cmp_q(&qt, &Q::from_integer(fl.clone())) != Ordering::Equal { fl + 1 } else { fl };
    let want = f.sub(&a.e, &f.mul(&f.rat(&Q::from_integer(tr)), &b.e));
    let forms = vec![
        ("v,v", catch(|| x.clone() % y.clone())),
        ("r,v", catch(|| &x % y.clone())),
        ("v,r", catch(|| x.clone() % &y)),
        ("assign v", catch(|| { let mut t = x.clone(); t %= y.clone(); t })),
        ("assign r", catch(|| { let mut t = x.clone(); t %= &y; t })),
    ];
    judge_forms(f, &want, forms, rec, &|| ctx("%"))?;
    rec.compared();
    Ok(())
}
/// values hugging integers from both sides, and every quarter in a range
fn near_integers(tier: Tier) -> Vec<Arc<Set>> {
    let mut v = vec![];
    let ks: Vec<i64> = tier.pick(vec![1, 2, 3, 6, 20, 55], (1..=12).chain([20, 33, 55, 90, 150]).collect());
    for (f, u) in [(sqrt2(), vec![-1i64, 1]), (sqrt5(), vec![-2, 1])] {
        let ue = el(&f, &u, 1);
        let mut es = vec![];
        for n in tier.pick(vec![-2i64, 0, 1, 1 << 33], vec![-3, -2, -1, 0, 1, 2, 7, 1 << 33, -(1 << 40)]) {
            for k in &ks {
                let p = f.pow(&ue, *k);
                es.push(f.add(&f.rat(&qi(n)), &p));
                es.push(f.sub(&f.rat(&qi(n)), &p));
            }
        }
        v.push(set(f, es, tier == Tier::Thorough));
    }
    {
        let f = cbrt2();
        let ue = el(&f, &[-1, 1], 1);
        let mut es = vec![];
        for n in [-1i64, 0, 2] {
            for k in tier.pick(vec![1i64, 4, 17], vec![1, 2, 4, 9, 17, 30]) {
                let p = f.pow(&ue, k);
                es.push(f.add(&f.rat(&qi(n)), &p));
                es.push(f.sub(&f.rat(&qi(n)), &p));
            }
        }
        v.push(set(f, es, false));
    }
    {
        let f = sqrt2();
        let b = tier.pick(12, 40);
        let mut es: Vec<E> = (-b..=b).map(|n| f.rat(&q(n, 4))).collect();
        es.extend((-b..=b).map(|n| f.rat(&q(n, 3))));
        for d in [7i64, 1 << 20, 1_000_003] {
            for n in [-2i64, -1, 0, 1, 5] {
                es.push(f.rat(&(qi(n) + q(1, d))));
                es.push(f.rat(&(qi(n) - q(1, d))));
            }
        }
        let h = BigInt::one() << 130usize;
        for n in [h.clone(), -h.clone()] {
            es.push(f.rat(&Q::from_integer(n.clone())));
            es.push(f.rat(&(Q::from_integer(n.clone()) + q(1, 2))));
            es.push(f.rat(&(Q::from_integer(n) - q(1, 3))));
        }
        for n in [-3i64, 0, 2] {
            for t in [pow2(-45), -pow2(-45), pow2(-90), -pow2(-90), (pow2(71) + qi(1)).recip(), -(pow2(71) + qi(1)).recip()] {
                es.push(f.rat(&(qi(n) + t)));
            }
        }
        v.push(set(f, es, true));
    }
    v
}
pub fn c03(tier: Tier) -> Property {
    let mut all = sets(2, true);
    all.extend(near_integers(tier));
    all.extend(wide_sets(tier));
    let ones = Ones::new(&all);
    let mut sp = vec![Space::new(
        "rounding",
        &format!("floor, ceil, trunc, fract (all variants) and integer/rational conversion of {} value representations, many hugging an integer", ones.len()),
        ones.len() as u64,
        move |i, rec| {
            let (s, a, r) = ones.get(i as usize);
            rec.state(&i);
            rounding(s, a, r, rec)
        },
    )];
    split(sets(tier.pick(0, 1), false), "remainder", "% against a - trunc(a/b) b", &mut sp, remainder);
    split(wide_sets(tier), "remainder, wide values", "% against a - trunc(a/b) b", &mut sp, remainder);
    let mut few: Vec<Arc<Set>> = vec![];
    {
        let f = sqrt2();
        let es = [(0i64, 1i64), (7, 0), (-7, 0), (-3, 1), (1, -2), (0, -1), (2, 0), (-2, 0)].iter().map(|(a, b)| el(&f, &[*a, *b], 1)).collect();
        few.push(set(f, es, false));
    }
    split(few, "remainder forms", "all % forms", &mut sp, remainder_forms);
    Property { id: "C03".into(), spaces: sp, assumptions: assume() }
}

// ---------------------------------------------------------------- C04
/// enclosure of z^(1/d) with relative precision 2^-bits, z = [lo,hi] positive
fn root_enc(lo: &Q, hi: &Q, d: u32, bits: usize) -> (Q, Q) {
    let r = |x: &Q, up: bool| -> Q {
        let s = Q::from_integer(BigInt::one() << (bits * d as usize));
        let v = x * s;
        let n = if up { ceil_q(&v) } else { floor_q(&v) };
        // integer d-th root by bisection
        let (mut a, mut b) = (BigInt::zero(), (BigInt::one() << (n.bits() as usize / d as usize + 1)) + 1);
        while &b - &a > BigInt::one() {
            let m: BigInt = (&a + &b) >> 1;
            if Pow::pow(m.clone(), d) <= n {
                a = m;
            } else {
                b = m;
            }
        }
        if up && Pow::pow(a.clone(), d) < n {
            a += 1;
        }
        Q::new(a, BigInt::one() << bits)
    };
    (r(lo, false), r(hi, true))
}
fn eval_iv(p: &P, iv: &(Q, Q)) -> (Q, Q) {
    let (mut lo, mut hi) = (Q::zero(), Q::zero());
    for c in p.iter().rev() {
        let ps = [&lo * &iv.0, &lo * &iv.1, &hi * &iv.0, &hi * &iv.1];
        lo = ps.iter().min().unwrap() + c;
        hi = ps.iter().max().unwrap() + c;
    }
    (lo, hi)
}
/// is `got` exactly the positive real d-th root of the positive field element z?
fn denotes_root(f: &Field, z: &E, d: u32, got: &A) -> Result<(), String> {
    let m = coeffs(got.minimal_polynomial());
    let (l, u) = ends(got);
    if m.len() < 2 {
        return Err(format!("minimal polynomial {} is constant", show(&m)));
    }
    // g(y^d) vanishes at the root
    let g = f.minpoly(z);
    let mut gy = vec![Q::zero(); (g.len() - 1) * d as usize + 1];
    for (i, c) in g.iter().enumerate() {
        gy[i * d as usize] = Q::from_integer(c.clone());
    }
    let p = pzb(&m);
    let common = pgcd(&gy, &p);
    if common.len() != p.len() {
        return Err(format!("{} has a root that is not a conjugate of the expected value, the {}-th root of {}", show(&m), d, f.show(z)));
    }
    let rest = pdivrem(&gy, &p).0; // gy is square-free: coprime to p
    let mut bits = 32;
    loop {
        let (zl, zh) = f.enclose(z, bits as i64 * d as i64 + 8);
        if zl.is_positive() {
            let iv = root_enc(&zl, &zh, d, bits);
            let no = |p: &P| {
                let (a, b) = eval_iv(p, &iv);
                a.is_positive() || b.is_negative()
            };
            if no(&p) {
                return Err(format!("{} does not vanish at the {}-th root of {}", show(&m), d, f.show(z)));
            }
            if no(&rest) {
                break;
            }
        }
        bits *= 2;
    }
    // z <= u^d and l^d <= z
    if !u.is_positive() || f.cmp_q(z, &qpow(&u, d as u64)) == Ordering::Greater || (l.is_positive() && f.cmp_q(z, &qpow(&l, d as u64)) == Ordering::Less) {
        return Err(format!("[{},{}] does not contain the {}-th root of {} (polynomial {})", l, u, d, f.show(z), show(&m)));
    }
    let c = Sturm::new(&p).closed(&l, &u);
    if c != 1 {
        return Err(format!("{} has {} roots in [{},{}]", show(&m), c, l, u));
    }
    Ok(())
}
fn power(s: &Set, a: &Num, r: usize, n: i64, d: i64, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let x = a.lib(r);
    let sg = f.sign(&a.e);
    let e = Q::new(bi(n), bi(d));
    let undefined = (sg == 0 && !e.is_positive()) || (sg < 0 && !e.is_integer());
    let ctx = |op: &str| format!("{} of {} to {}", op, a.n(r), e);
    let got = match catch(|| x.checked_pow((n, d))) {
        Ok(g) => g,
        Err(m) => return Err(format!("{} panicked: {}", ctx("checked_pow"), m)),
    };
    rec.step();
    rec.compared();
    rec.outcome(&got.as_ref().map(|g| coeffs(g.minimal_polynomial())));
    match got {
        None => {
            ensure!(undefined, "{} was refused", ctx("checked_pow"));
            Ok(())
        }
        Some(g) => {
            ensure!(!undefined, "{} is undefined but answered {:?}", ctx("checked_pow"), g);
            rec.sample(|| format!("{} = {:?}", ctx("power"), g));
            let (n, d) = (e.numer().to_i64().unwrap(), e.denom().to_u32().unwrap());
            if sg == 0 {
                return judge(f, &a.e, Ok(g), &|| ctx("checked_pow")).map(|_| ());
            }
            let z = f.pow(&a.e, n);
            if d == 1 {
                judge(f, &z, Ok(g), &|| ctx("checked_pow")).map(|_| ())
            } else {
                denotes_root(f, &z, d, &g).map_err(|m| format!("{}: {}", ctx("checked_pow"), m))
            }
        }
    }
}
fn power_forms(s: &Set, a: &Num, r: usize, n: i64, d: i64, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let x = a.lib(r);
    let ctx = || format!("power of {} to {}/{}", a.n(r), n, d);
    let base = match catch(|| x.checked_pow((n, d))) {
        Ok(g) => g,
        Err(m) => return Err(format!("{} panicked: {}", ctx(), m)),
    };
    let e = Q::new(bi(n), bi(d));
    let mut forms: Vec<(&str, Result<Option<A>, String>)> = vec![
        ("checked_into_pow", catch(|| x.clone().checked_into_pow((n, d)))),
        ("checked_pow big pair", catch(|| x.checked_pow((bi(n), bi(d))))),
        ("checked_pow negated pair", catch(|| x.checked_pow((-n, -d)))),
        ("checked_pow doubled pair", catch(|| x.checked_pow((2 * n, 2 * d)))),
        ("checked_pow Ratio<BigInt>", catch(|| x.checked_pow(e.clone()))),
        ("checked_pow &Ratio<BigInt>", catch(|| x.checked_pow(&e))),
        ("checked_pow Ratio<i64>", catch(|| x.checked_pow(Ratio::new(n, d)))),
        ("pow v", catch(|| Some(x.clone().pow((n, d))))),
        ("pow r", catch(|| Some((&x).pow((n, d))))),
    ];
    if n % d == 0 {
        let k = n / d;
        forms.push(("i32", catch(|| x.checked_pow(k as i32))));
        forms.push(("BigInt", catch(|| x.checked_pow(bi(k)))));
        forms.push(("i8", catch(|| x.checked_pow(k as i8))));
        if k >= 0 {
            forms.push(("u8", catch(|| x.checked_pow(k as u8))));
            forms.push(("u64", catch(|| x.checked_pow(k as u64))));
            forms.push(("BigUint", catch(|| x.checked_pow(BigUint::from(k as u64)))));
            forms.push(("Ratio<u32>", catch(|| x.checked_pow(Ratio::<u32>::from_integer(k as u32)))));
        }
    }
    for (name, g) in forms {
        rec.step();
        match (&base, g) {
            (None, Err(_)) if name.starts_with("pow") => {}
            (None, Ok(None)) => {}
            (Some(b), Ok(Some(g))) => {
                // same base, same exponent: agreement as values, judged independently of the stored interval
                if !same(b, &g) {
                    let (n, d) = (e.numer().to_i64().unwrap(), e.denom().to_u32().unwrap());
                    let z = f.pow(&a.e, n);
                    let r = if d == 1 { denotes(f, &z, &g) } else { denotes_root(f, &z, d, &g) };
                    r.map_err(|m| format!("{} [{}]: {}", ctx(), name, m))?;
                }
            }
            (b, g) => return Err(format!("{} [{}] gave {:?}, checked_pow gave {:?}", ctx(), name, g, b)),
        }
    }
    rec.compared();
    Ok(())
}
fn exponents(nmax: i64, dmax: i64) -> Vec<(i64, i64)> {
    let mut v = vec![];
    for d in 1..=dmax {
        for n in -nmax..=nmax {
            if num_integer::gcd(n, d) == 1 || (n == 0 && d == 1) {
                v.push((n, d));
            }
        }
    }
    v
}
pub fn c04(tier: Tier) -> Property {
    let mut sp = vec![];
    let deep = tier == Tier::Thorough;
    // small-degree bases, broad exponents
    let rats = {
        let f = sqrt2();
        let mut es: Vec<E> = vec![];
        for (n, d) in tier.pick(
            vec![(0i64, 1i64), (1, 1), (-1, 1), (2, 1), (-2, 1), (4, 1), (8, 1), (-8, 1), (16, 1), (1, 2), (4, 9), (-27, 8), (3, 7), (72, 1), (1, 1 << 30), (1 << 40, 1)],
            vec![
                (0, 1), (1, 1), (-1, 1), (2, 1), (-2, 1), (4, 1), (8, 1), (-8, 1), (16, 1), (1, 2), (4, 9), (-27, 8), (3, 7), (72, 1), (1, 1 << 30), (1 << 40, 1), (6, 1), (-6, 5), (64, 729),
                (1_000_003, 1), (1, 1_000_003), (99, 100), (-1, 64), (32, 243), (5, 2),
            ],
        ) {
            es.push(f.rat(&q(n, d)));
        }
        set(f, es, deep)
    };
    let ex = exponents(tier.pick(5, 7), tier.pick(4, 6));
    {
        let ones = Ones::new(&[rats.clone()]);
        let ex = ex.clone();
        let ne = ex.len();
        sp.push(Space::new(
            "powers of rationals",
            &format!("{} rational bases x representations ({}), exponents {:?}", rats.nums.len(), ones.len(), ex),
            (ones.len() * ne) as u64,
            move |i, rec| {
                let (s, a, r) = ones.get(i as usize / ne);
                let (n, d) = ex[i as usize % ne];
                rec.state(&i);
                power(s, a, r, n, d, rec)
            },
        ));
    }
    {
        let f = sqrt2();
        let mut es: Vec<E> = [(2i64, 1i64), (-3, 1), (1, 6), (32, 1), (5, 4), (128, 2187)].iter().map(|(n, d)| f.rat(&q(*n, *d))).collect();
        es.push(f.rat(&pow2(67)));
        es.push(f.rat(&q(3, 2).pow(24)));
        let s = set(f, es, false);
        let ones = Ones::new(&[s]);
        let mut ex: Vec<(i64, i64)> = exponents(tier.pick(9, 13), tier.pick(8, 12)).into_iter().filter(|(n, d)| *d > 4 || n.abs() > 5).collect();
        ex.extend([12i64, 15, 16, 17, 31, 32, 33, 64, 100].iter().flat_map(|n| [(*n, 1i64), (-n, 1), (*n, 7)]));
        let ne = ex.len();
        sp.push(Space::new(
            "long exponents of rationals",
            &format!("{} representations of eight rationals, exponents with denominators up to 8 (thorough 12) and numerators up to 9 (13) and around powers of two up to 100: {:?}", ones.len(), ex),
            (ones.len() * ne) as u64,
            move |i, rec| {
                let (s, a, r) = ones.get(i as usize / ne);
                let (n, d) = ex[i as usize % ne];
                rec.state(&i);
                power(s, a, r, n, d, rec)
            },
        ));
        let sets = vec![
            { let f = sqrt2(); let es = vec![el(&f, &[0, 1], 1), el(&f, &[1, 1], 1), el(&f, &[1, -1], 1), el(&f, &[0, -1], 2), el(&f, &[3, 1], 5)]; set(f, es, false) },
            { let f = cbrt2(); let es = vec![el(&f, &[0, 1], 1), el(&f, &[-1, 1], 1), el(&f, &[0, 0, -1], 2)]; set(f, es, false) },
        ];
        let ones = Ones::new(&sets);
        let ex: Vec<(i64, i64)> = [6i64, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33].iter().flat_map(|n| [(*n, 1i64), (-n, 1)]).collect();
        let ne = ex.len();
        sp.push(Space::new(
            "long exponents of irrationals",
            &format!("{} representations of eight irrationals, integer exponents {:?}", ones.len(), ex),
            (ones.len() * ne) as u64,
            move |i, rec| {
                let (s, a, r) = ones.get(i as usize / ne);
                let (n, d) = ex[i as usize % ne];
                rec.state(&i);
                power(s, a, r, n, d, rec)
            },
        ));
    }
    for s in sets(tier.pick(1, 2), deep) {
        let deg = s.f.n() as i64;
        let (nm, dm) = match (tier, deg) {
            (Tier::Quick, 2) => (5, 4),
            (Tier::Quick, 3) => (4, 3),
            (Tier::Quick, 4) => (3, 2),
            (Tier::Quick, _) => (2, 2),
            (_, 2) => (6, 4),
            (_, 3) => (5, 3),
            (_, 4) => (4, 2),
            _ => (3, 2),
        };
        let ex = exponents(nm, dm);
        let ones = Ones::new(&[s.clone()]);
        let ne = ex.len();
        sp.push(Space::new(
            &format!("powers in {}", short(&s.f.name)),
            &format!("{} bases x representations ({}) in {}, exponents {:?}", s.nums.len(), ones.len(), s.f.name, ex),
            (ones.len() * ne) as u64,
            move |i, rec| {
                let (s, a, r) = ones.get(i as usize / ne);
                let (n, d) = ex[i as usize % ne];
                rec.state(&i);
                power(s, a, r, n, d, rec)
            },
        ));
    }
    {
        let f = sqrt2();
        let es = [(0i64, 0i64), (1, 0), (-1, 0), (4, 0), (-8, 0), (0, 1), (1, 1), (1, -1), (0, -1)].iter().map(|(a, b)| el(&f, &[*a, *b], 1)).collect();
        let s = set(f, es, false);
        let ones = Ones::new(&[s]);
        let ex: Vec<(i64, i64)> = vec![(0, 1), (1, 1), (-1, 1), (2, 1), (-2, 1), (3, 1), (1, 2), (-1, 2), (3, 2), (2, 3), (0, 3), (4, 2)];
        let ne = ex.len();
        sp.push(Space::new(
            "exponent forms",
            &format!("{} representations x exponents {:?} in every accepted exponent form, consuming and borrowing", ones.len(), ex),
            (ones.len() * ne) as u64,
            move |i, rec| {
                let (s, a, r) = ones.get(i as usize / ne);
                let (n, d) = ex[i as usize % ne];
                rec.state(&i);
                power_forms(s, a, r, n, d, rec)
            },
        ));
    }
    let mut a = assume();
    a.push("a rational power with denominator d > 1 is accepted when its polynomial divides g(y^d), g the minimal polynomial of base^n, the cofactor provably does not vanish at the true root (rational interval evaluation), and the interval contains exactly that root".into());
    Property { id: "C04".into(), spaces: sp, assumptions: a }
}

// ---------------------------------------------------------------- C05
fn log2s(s: &Set, a: &Num, r: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let x = a.lib(r);
    let ctx = |op: &str| format!("{} of {}", op, a.n(r));
    let (fl, ce, ex) = if f.sign(&a.e) <= 0 {
        (None, None, None)
    } else {
        let (lo, _) = f.enclose(&a.e, 300);
        let mut k: i64 = if lo.is_positive() { lo.numer().bits() as i64 - lo.denom().bits() as i64 } else { -400 };
        while f.cmp_q(&a.e, &pow2(k)) == Ordering::Less {
            k -= 1;
        }
        while f.cmp_q(&a.e, &pow2(k + 1)) != Ordering::Less {
            k += 1;
        }
        let exact = f.cmp_q(&a.e, &pow2(k)) == Ordering::Equal;
        (Some(k), Some(if exact { k } else { k + 1 }), if exact { Some(k) } else { None })
    };
    eqv!(catch(|| x.checked_floor_log2()), Ok(fl), "{}", ctx("checked_floor_log2"));
    eqv!(catch(|| x.clone().into_checked_floor_log2()), Ok(fl), "{}", ctx("into_checked_floor_log2"));
    eqv!(catch(|| x.checked_ceil_log2()), Ok(ce), "{}", ctx("checked_ceil_log2"));
    eqv!(catch(|| x.clone().into_checked_ceil_log2()), Ok(ce), "{}", ctx("into_checked_ceil_log2"));
    eqv!(catch(|| x.to_integer_log2()), Ok(ex), "{}", ctx("to_integer_log2"));
    rec.steps(5);
    rec.outcome(&(fl, ce, ex));
    rec.compared();
    rec.sample(|| format!("{}: {:?} {:?} {:?}", ctx("log2"), fl, ce, ex));
    Ok(())
}
pub fn c05(tier: Tier) -> Property {
    let mut all = sets(2, true);
    all.extend(near_integers(tier));
    all.extend(wide_sets(tier));
    let deep = tier == Tier::Thorough;
    let ks: Vec<i64> = tier.pick(vec![-70, -33, -5, -2, -1, 0, 1, 2, 5, 31, 64], (-40..=40).chain([-130, -70, 63, 64, 65, 130]).collect());
    {
        // exact powers of two, their neighbours, and 2^k (1 +- tiny)
        let f = sqrt2();
        let mut es: Vec<E> = vec![];
        for &k in &ks {
            es.push(f.rat(&pow2(k)));
            es.push(f.rat(&-pow2(k)));
            for d in [3i64, 1 << 20, 1_000_000_007] {
                es.push(f.rat(&(pow2(k) * (qi(1) + q(1, d)))));
                es.push(f.rat(&(pow2(k) * (qi(1) - q(1, d)))));
            }
            es.push(f.rat(&(pow2(k) * q(3, 2))));
        }
        for n in [pow2(100), pow2(100) + qi(1), pow2(100) - qi(1), pow2(70) * qi(3), pow2(64) * qi(5), pow2(32) + qi(1), pow2(32) - qi(1)] {
            es.push(f.rat(&n));
            es.push(f.rat(&n.recip()));
            es.push(f.rat(&(n.clone() / (&n * qi(2) + qi(1)))));
        }
        all.push(set(f, es, deep));
        let f = sqrt2();
        let mut es: Vec<E> = vec![];
        let u = el(&f, &[-1, 1], 1);
        for &k in &ks {
            for j in tier.pick(vec![1i64, 7, 40], vec![1, 2, 7, 20, 40, 80]) {
                let p = f.mul(&f.pow(&u, j), &f.rat(&pow2(k)));
                es.push(f.add(&f.rat(&pow2(k)), &p));
                es.push(f.sub(&f.rat(&pow2(k)), &p));
            }
            es.push(f.mul(&el(&f, &[0, 1], 1), &f.rat(&pow2(k))));
        }
        all.push(set(f, es, deep));
        let f = cbrt2();
        let mut es: Vec<E> = vec![];
        let u = el(&f, &[-1, 1], 1);
        for &k in ks.iter().filter(|k| k.abs() < 40) {
            for j in [1i64, 9, 25] {
                let p = f.mul(&f.pow(&u, j), &f.rat(&pow2(k)));
                es.push(f.add(&f.rat(&pow2(k)), &p));
                es.push(f.sub(&f.rat(&pow2(k)), &p));
            }
        }
        all.push(set(f, es, false));
    }
    let ones = Ones::new(&all);
    let sp = vec![Space::new(
        "base-2 logarithms",
        &format!("floor/ceil/exact log2 of {} value representations: every power of two with exponent in {:?}, values hugging them from both sides in three fields, zero and negatives", ones.len(), ks),
        ones.len() as u64,
        move |i, rec| {
            let (s, a, r) = ones.get(i as usize);
            rec.state(&i);
            log2s(s, a, r, rec)
        },
    )];
    Property { id: "C05".into(), spaces: sp, assumptions: assume() }
}

// ---------------------------------------------------------------- C06
fn canonical(f: &Field, want: &E, got: Result<A, String>, what: &dyn Fn() -> String) -> Result<(), String> {
    let g = judge(f, want, got, what)?;
    let mp = f.minpoly(want);
    eqv!(coeffs(g.minimal_polynomial()), mp, "{}: minimal polynomial", what());
    let rat = f.as_rational(want);
    eqv!(g.degree(), mp.len() - 1, "{}: degree", what());
    eqv!(g.is_rational(), rat.is_some(), "{}: is_rational", what());
    eqv!(g.is_integer(), rat.as_ref().is_some_and(|r| r.is_integer()), "{}: is_integer", what());
    eqv!(g.is_zero(), rat == Some(qi(0)), "{}: is_zero", what());
    eqv!(g.is_one(), rat == Some(qi(1)), "{}: is_one", what());
    eqv!(g.is_negative_one(), rat == Some(qi(-1)), "{}: is_negative_one", what());
    let d = g.clone().into_data();
    ensure!(d.minimal_polynomial == *g.minimal_polynomial() && d.interval.is_same(g.interval()), "{}: data() and into_data() differ", what());
    Ok(())
}
fn canon_pair(s: &Set, a: &Num, ra: usize, b: &Num, rb: usize, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let (x, y) = (a.lib(ra), b.lib(rb));
    let ctx = |op: &str| format!("({}) {} ({})", a.n(ra), op, b.n(rb));
    canonical(f, &f.add(&a.e, &b.e), catch(|| &x + &y), &|| ctx("+"))?;
    canonical(f, &f.sub(&a.e, &b.e), catch(|| &x - &y), &|| ctx("-"))?;
    canonical(f, &f.mul(&a.e, &b.e), catch(|| &x * &y), &|| ctx("*"))?;
    rec.steps(3);
    if !f.is_zero(&b.e) {
        let quotient = f.mul(&a.e, &f.inv(&b.e));
        canonical(f, &quotient, catch(|| &x / &y), &|| ctx("/"))?;
        rec.step();
        if f.n() <= 2 && ra == 0 && rb == 0 {
            let t = if f.sign(&quotient) < 0 { -f.floor(&f.neg(&quotient)) } else { f.floor(&quotient) };
            let w = f.sub(&a.e, &f.mul(&b.e, &f.rat(&Q::from_integer(t))));
            canonical(f, &w, catch(|| &x % &y), &|| ctx("%"))?;
            canonical(f, &w, catch(|| x.clone() % y.clone()), &|| ctx("% by value"))?;
            rec.steps(2);
        }
    }
    if ra == 0 && rb == 0 {
        canonical(f, &f.sub(&b.e, &a.e), catch(|| { let mut t = y.clone(); t -= &x; t }), &|| ctx("reversed -="))?;
        canonical(f, &f.add(&b.e, &a.e), catch(|| { let mut t = y.clone(); t += x.clone(); t }), &|| ctx("reversed +="))?;
        canonical(f, &f.mul(&b.e, &a.e), catch(|| y.clone() * &x), &|| ctx("reversed *"))?;
        let d = f.sub(&a.e, &b.e);
        let d = if f.sign(&d) < 0 { f.rat(&qi(0)) } else { d };
        canonical(f, &d, catch(|| x.abs_sub(&y)), &|| ctx("positive difference"))?;
        rec.steps(4);
    }
    rec.outcome(&f.minpoly(&f.add(&a.e, &b.e)));
    rec.compared();
    Ok(())
}
fn canon_one(s: &Set, a: &Num, r: usize, maxpow: i64, rec: &mut Rec) -> Result<(), String> {
    let f = &s.f;
    let x = a.lib(r);
    let ctx = |op: &str| format!("{} of {}", op, a.n(r));
    canonical(f, &f.neg(&a.e), catch(|| -&x), &|| ctx("negation"))?;
    let sg = f.sign(&a.e);
    canonical(f, &if sg < 0 { f.neg(&a.e) } else { a.e.clone() }, catch(|| x.abs()), &|| ctx("abs"))?;
    canonical(f, &f.rat(&qi(sg as i64)), catch(|| x.signum()), &|| ctx("signum"))?;
    let fl = f.floor(&a.e);
    let fle = f.rat(&Q::from_integer(fl));
    canonical(f, &fle, catch(|| x.floor()), &|| ctx("floor"))?;
    canonical(f, &f.sub(&a.e, &fle), catch(|| x.fract()), &|| ctx("fract"))?;
    canonical(f, &fle, catch(|| x.clone().into_floor()), &|| ctx("into_floor"))?;
    canonical(f, &f.sub(&a.e, &fle), catch(|| x.clone().into_fract()), &|| ctx("into_fract"))?;
    let ce = f.neg(&f.rat(&Q::from_integer(f.floor(&f.neg(&a.e)))));
    canonical(f, &ce, catch(|| x.ceil()), &|| ctx("ceil"))?;
    canonical(f, &ce, catch(|| x.clone().into_ceil()), &|| ctx("into_ceil"))?;
    let tr = if sg < 0 { &ce } else { &fle };
    canonical(f, tr, catch(|| x.trunc()), &|| ctx("trunc"))?;
    canonical(f, tr, catch(|| x.clone().into_trunc()), &|| ctx("into_trunc"))?;
    canonical(f, &f.neg(&a.e), catch(|| -x.clone()), &|| ctx("negation by value"))?;
    rec.steps(12);
    if sg != 0 {
        canonical(f, &f.inv(&a.e), catch(|| x.recip()), &|| ctx("reciprocal"))?;
        for n in -maxpow..=maxpow {
            canonical(f, &f.pow(&a.e, n), catch(|| (&x).pow(n)), &|| ctx(&format!("power {}", n)))?;
            rec.step();
        }
        // roots whose value lies in the field: (|x|^d)^(1/d)
        for d in 2..=2i64 {
            let y = f.pow(&a.e, d);
            let yn = num(f, y, false);
            let ab = if sg < 0 { f.neg(&a.e) } else { a.e.clone() };
            for rr in 0..yn.reps.len() {
                let b = yn.lib(rr);
                canonical(f, &ab, catch(|| (&b).pow((1, d))), &|| format!("root {} of {}", d, yn.n(rr)))?;
                rec.step();
            }
        }
    }
    rec.compared();
    Ok(())
}
pub fn c06(tier: Tier) -> Property {
    let mut sp = vec![];
    split(sets(tier.pick(1, 2), false), "results of field operations", "minimal polynomial, interval and classification of + - * / results", &mut sp, canon_pair);
    split(wide_sets(tier), "results of field operations, wide values", "minimal polynomial, interval and classification of + - * / results", &mut sp, canon_pair);
    let s = sets(tier.pick(1, 2), tier == Tier::Thorough);
    let ones = Ones::new(&s);
    let mp = tier.pick(3, 4);
    sp.push(Space::new(
        "results of unary operations",
        &format!("negation, abs, signum, floor, fract, reciprocal, powers -{}..{} and square roots of squares of {} value representations", mp, mp, ones.len()),
        ones.len() as u64,
        move |i, rec| {
            let (s, a, r) = ones.get(i as usize);
            rec.state(&i);
            canon_one(s, a, r, if s.f.n() > 4 { 2 } else { mp }, rec)
        },
    ));
    // conversions
    let f = Arc::new(sqrt2());
    macro_rules! conv {
        ($($t:ty),*) => {$({
            let f = f.clone();
            let vals: Vec<i128> = {
                let mut v: Vec<i128> = vec![0, 1, 2, 3, 7, 12, 100, 127];
                if <$t>::MIN != 0 { v.extend([-1i128, -2, -3, -100, <$t>::MIN as i128]); }
                v.extend([<$t>::MAX as i128, (<$t>::MAX / 2) as i128 + 1]);
                v.sort(); v.dedup(); v
            };
            let n = vals.len();
            sp.push(Space::new(concat!("conversion from ", stringify!($t)), &format!("{} values and all reduced fractions of them", n), (n * n + n) as u64, move |i, rec| {
                rec.state(&i);
                rec.step();
                rec.compared();
                if (i as usize) < n {
                    let v = vals[i as usize] as $t;
                    let w = f.rat(&Q::from_integer(BigInt::from(v)));
                    return canonical(&f, &w, catch(|| A::from(v)), &|| format!("from {}", v));
                }
                let j = i as usize - n;
                let (a, b) = (vals[j / n] as $t, vals[j % n] as $t);
                // reduced with a positive denominator, computed outside the type so that nothing overflows
                if b == 0 { return Ok(()); }
                let w = Q::new(BigInt::from(a), BigInt::from(b));
                let (nn, dd) = (<$t>::try_from(w.numer().clone()), <$t>::try_from(w.denom().clone()));
                if let (Ok(nn), Ok(dd)) = (nn, dd) {
                    return canonical(&f, &f.rat(&w), catch(|| A::from(Ratio::new_raw(nn, dd))), &|| format!("from {}/{}", nn, dd));
                }
                Ok(())
            }));
        })*};
    }
    conv!(u8, u16, u32, u64, usize, i8, i16, i32, i64, i128, isize);
    {
        let f = f.clone();
        let k: Vec<BigInt> = {
            let mut v = vec![bi(0), bi(1), bi(-1), bi(6), bi(-35), bi(1) << 64usize, (bi(1) << 127usize) + 1, -(bi(1) << 200usize), bi(3) << 99usize];
            v.push(bi(1_000_000_007));
            v
        };
        let n = k.len();
        sp.push(Space::new("conversion from big integers", &format!("{} big integers, u128, BigUint and fractions of them", n), (n * n + n) as u64, move |i, rec| {
            rec.state(&i);
            rec.step();
            rec.compared();
            if (i as usize) < n {
                let v = &k[i as usize];
                let w = f.rat(&Q::from_integer(v.clone()));
                canonical(&f, &w, catch(|| A::from(v.clone())), &|| format!("from {}", v))?;
                if let Ok(u) = BigUint::try_from(v.clone()) {
                    canonical(&f, &w, catch(|| A::from(u)), &|| format!("from BigUint {}", v))?;
                }
                if let Ok(u) = u128::try_from(v.clone()) {
                    canonical(&f, &w, catch(|| A::from(u)), &|| format!("from u128 {}", v))?;
                }
                return Ok(());
            }
            let j = i as usize - n;
            if k[j % n].is_zero() {
                return Ok(());
            }
            let w = Q::new(k[j / n].clone(), k[j % n].clone());
            canonical(&f, &f.rat(&w), catch(|| A::from(w.clone())), &|| format!("from {}", w))?;
            if let (Ok(a), Ok(b)) = (BigUint::try_from(w.numer().clone()), BigUint::try_from(w.denom().clone())) {
                canonical(&f, &f.rat(&w), catch(|| A::from(Ratio::new(a, b))), &|| format!("from Ratio<BigUint> {}", w))?;
            }
            Ok(())
        }));
    }
    {
        let f = f.clone();
        sp.push(Space::new("constants", "zero, one, negative one, set_zero, set_one, set_negative_one", 6, move |i, rec| {
            rec.state(&i);
            rec.step();
            rec.compared();
            let mut t = A::from(5);
            let (g, w): (Result<A, String>, i64) = match i {
                0 => (catch(A::zero), 0),
                1 => (catch(A::one), 1),
                2 => (catch(A::negative_one), -1),
                3 => (catch(|| { t.set_zero(); t }), 0),
                4 => (catch(|| { t.set_one(); t }), 1),
                _ => (catch(|| { t.set_negative_one(); t }), -1),
            };
            canonical(&f, &f.rat(&qi(w)), g, &|| format!("constant {}", w))
        }));
    }
    // rational powers outside the field: irreducibility decided independently
    {
        let base: Vec<(i64, i64)> = tier.pick(vec![(2, 1), (4, 1), (8, 1), (4, 9), (12, 1), (1, 8), (5, 3), (64, 1)], vec![(2, 1), (3, 1), (4, 1), (8, 1), (4, 9), (12, 1), (1, 8), (5, 3), (64, 1), (36, 1), (16, 81), (1, 4096), (1_000_000, 1)]);
        let ex = exponents(tier.pick(4, 6), tier.pick(6, 8));
        let f = f.clone();
        let (nb, ne) = (base.len(), ex.len());
        {
            // the same for irrational bases
            let sets = vec![
                { let f = sqrt2(); let es = vec![el(&f, &[0, 1], 1), el(&f, &[1, 1], 1), el(&f, &[3, 2], 1), el(&f, &[-1, 1], 1), el(&f, &[3, 1], 2), el(&f, &[0, 2], 1), el(&f, &[0, 1], 1000)]; set(f, es, false) },
                { let f = sqrt5(); let es = vec![el(&f, &[1, 1], 2), el(&f, &[3, 1], 2), el(&f, &[-1, 1], 3), el(&f, &[9, 4], 1)]; set(f, es, false) },
                { let f = cbrt2(); let es = vec![el(&f, &[0, 1], 1), el(&f, &[0, 0, 1], 1), el(&f, &[-1, 1], 1), el(&f, &[1, 1, 1], 1)]; set(f, es, false) },
            ];
            let ones = Ones::new(&sets);
            let ex: Vec<(i64, i64)> = tier.pick(vec![(1, 2), (-1, 2), (3, 2), (1, 3), (-2, 3)], vec![(1, 2), (-1, 2), (3, 2), (-5, 2), (1, 3), (-2, 3), (4, 3), (1, 4), (3, 4)]);
            let ne = ex.len();
            sp.push(Space::new(
                "results of roots of irrationals",
                &format!("{} representations of irrational numbers of degree two and three, exponents {:?}: irreducible, primitive, positive leading coefficient", ones.len(), ex),
                (ones.len() * ne) as u64,
                move |i, rec| {
                    let (s, a, r) = ones.get(i as usize / ne);
                    let (n, d) = ex[i as usize % ne];
                    rec.state(&i);
                    rec.step();
                    rec.compared();
                    let what = format!("{} to the power {}/{}", a.n(r), n, d);
                    let x = a.lib(r);
                    let g = catch(|| x.pow((n, d))).map_err(|e| format!("{} panicked: {}", what, e))?;
                    let m = coeffs(g.minimal_polynomial());
                    ensure!(primitive(&pzb(&m)) == m, "{}: {} is not primitive with positive leading coefficient", what, show(&m));
                    ensure!(irreducible(&m), "{}: {} is reducible", what, show(&m));
                    denotes_root(&s.f, &s.f.pow(&a.e, n), d as u32, &g).map_err(|e| format!("{}: {}", what, e))?;
                    rec.outcome(&m);
                    Ok(())
                },
            ));
        }
        sp.push(Space::new(
            "results of rational powers",
            &format!("bases {:?}, exponents {:?}: irreducible, primitive, positive leading coefficient", base, ex),
            (nb * ne) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let (bn, bd) = base[ix.take(nb)];
                let (n, d) = ex[ix.take(ne)];
                rec.state(&i);
                rec.step();
                rec.compared();
                let what = format!("({}/{})^({}/{})", bn, bd, n, d);
                let g = match catch(|| A::from(q(bn, bd)).pow((n, d))) {
                    Ok(g) => g,
                    Err(e) => return Err(format!("{} panicked: {}", what, e)),
                };
                let m = coeffs(g.minimal_polynomial());
                ensure!(primitive(&pzb(&m)) == m, "{}: {} is not primitive with positive leading coefficient", what, show(&m));
                ensure!(irreducible(&m), "{}: {} is reducible", what, show(&m));
                let z = f.pow(&f.rat(&q(bn, bd)), n);
                denotes_root(&f, &z, d as u32, &g).map_err(|e| format!("{}: {}", what, e))?;
                rec.outcome(&m);
                Ok(())
            },
        ));
    }
    Property { id: "C06".into(), spaces: sp, assumptions: assume() }
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    Recip,
    Fract,
    Square,
    Abs,
    RevSub,
    Double,
    SqrtSq,
}
/// model step: None when the operation is undefined there (the library must then refuse)
fn model_step(f: &Field, op: Op, a: &E, b: &E) -> Option<E> {
    Some(match op {
        Op::Add => f.add(a, b),
        Op::Sub => f.sub(a, b),
        Op::RevSub => f.sub(b, a),
        Op::Mul => f.mul(a, b),
        Op::Div => {
            if f.is_zero(b) {
                return None;
            }
            f.mul(a, &f.inv(b))
        }
        Op::Rem => {
            if f.is_zero(b) {
                return None;
            }
            let qt = f.mul(a, &f.inv(b));
            let fl = f.floor(&qt);
            let tr = if f.sign(&qt) < 0 && f.cmp_q(&qt, &Q::from_integer(fl.clone())) != Ordering::Equal { fl + 1 } else { fl };
            f.sub(a, &f.mul(&f.rat(&Q::from_integer(tr)), b))
        }
        Op::Neg => f.neg(a),
        Op::Recip => {
            if f.is_zero(a) {
                return None;
            }
            f.inv(a)
        }
        Op::Fract => f.sub(a, &f.rat(&Q::from_integer(f.floor(a)))),
        Op::Square => f.mul(a, a),
        Op::Double => f.add(a, a),
        Op::Abs | Op::SqrtSq => {
            if f.sign(a) < 0 {
                f.neg(a)
            } else {
                a.clone()
            }
        }
    })
}
fn lib_step(op: Op, a: &A, b: &A) -> Result<Option<A>, String> {
    catch(|| match op {
        Op::Add => Some(a + b),
        Op::Sub => Some(a - b),
        Op::RevSub => Some(b - a),
        Op::Mul => Some(a * b),
        Op::Div => a.checked_exact_div(b),
        Op::Rem => {
            if b.is_zero() {
                None
            } else {
                Some(a % b)
            }
        }
        Op::Neg => Some(-a),
        Op::Recip => a.checked_recip(),
        Op::Fract => Some(a.fract()),
        Op::Square => {
            if a.is_zero() {
                Some(a.clone())
            } else {
                Some(a.pow(2))
            }
        }
        Op::Double => Some(a + a),
        Op::Abs => Some(a.abs()),
        Op::SqrtSq => {
            let s = a * a;
            if s.is_zero() {
                Some(s)
            } else {
                Some(s.pow((1, 2)))
            }
        }
    })
}
fn history(f: &Field, seeds: &[Num], ops: &[Op], depth: usize, i: u64, rec: &mut Rec) -> Result<(), String> {
    let mut ix = Ix(i);
    let (sa, sb) = (&seeds[ix.take(seeds.len())], &seeds[ix.take(seeds.len())]);
    let (ra, rb) = (0, sb.reps.len() - 1);
    let mut model = sa.e.clone();
    let mut a = sa.lib(ra);
    let b = sb.lib(rb);
    let b0 = format!("{:?}", b);
    let mut hist = vec![];
    for _ in 0..depth {
        let op = ops[ix.take(ops.len())];
        hist.push(op);
        let ctx = || format!("a = {}, b = {}, history {:?}", sa.n(ra), sb.n(rb), hist);
        let want = model_step(f, op, &model, &sb.e);
        let a0 = format!("{:?}", a);
        let got = lib_step(op, &a, &b);
        rec.step();
        ensure!(format!("{:?}", a) == a0 && format!("{:?}", b) == b0, "{}: a borrowed operand changed", ctx());
        match (want, got) {
            (_, Err(e)) => return Err(format!("{} panicked: {}", ctx(), e)),
            (None, Ok(None)) => break,
            (None, Ok(Some(g))) => return Err(format!("{}: undefined step answered {:?}", ctx(), g)),
            (Some(_), Ok(None)) => return Err(format!("{}: defined step refused", ctx())),
            (Some(w), Ok(Some(g))) => {
                denotes(f, &w, &g).map_err(|e| format!("{}: {}", ctx(), e))?;
                model = w;
                a = g;
            }
        }
        rec.state(&(&sa.e, &sb.e, format!("{:?}", a)));
    }
    // observations on the final register: order against the other register and a freshly built equal number
    let ctx = || format!("a = {}, b = {}, history {:?}", sa.n(ra), sb.n(rb), hist);
    let fresh = num(f, model.clone(), false).lib(0);
    eqv!(catch(|| a == fresh), Ok(true), "{}: computed number against the same number built directly", ctx());
    eqv!(catch(|| a.cmp(&b)), Ok(f.cmp(&model, &sb.e)), "{}: order of the computed number against b", ctx());
    eqv!(catch(|| a.to_integer_floor()), Ok(f.floor(&model)), "{}: floor of the computed number", ctx());
    eqv!(catch(|| a.cmp_with_zero()), Ok(f.sign(&model).cmp(&0)), "{}: sign of the computed number", ctx());
    let r1 = lib_step(Op::Add, &a, &b).map_err(|e| format!("{}: {}", ctx(), e))?.unwrap();
    denotes(f, &f.add(&model, &sb.e), &r1).map_err(|e| format!("{}: then a+b: {}", ctx(), e))?;
    rec.steps(5);
    rec.outcome(&coeffs(a.minimal_polynomial()));
    rec.compared();
    rec.sample(|| format!("{}: {:?}", ctx(), a));
    Ok(())
}
pub fn c07(tier: Tier) -> Property {
    let mut sp = vec![];
    let all = vec![Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Neg, Op::Recip, Op::Fract, Op::Square, Op::Abs, Op::RevSub, Op::SqrtSq];
    let core = vec![Op::Add, Op::RevSub, Op::Mul, Op::Div, Op::Recip, Op::Fract];
    let mut add = |f: Field, es: Vec<E>, ops: Vec<Op>, depth: usize, tag: &str| {
        let seeds: Vec<Num> = es.into_iter().map(|e| num(&f, e, false)).collect();
        let total = (seeds.len() * seeds.len()) as u64 * (ops.len() as u64).pow(depth as u32);
        let name = format!("histories {}: {}", tag, short(&f.name));
        let bound = format!("all {}-step sequences of {:?} on register a (with b fixed) from {} x {} seed values in {}", depth, ops, seeds.len(), seeds.len(), f.name);
        sp.push(Space::new(&name, &bound, total, move |i, rec| history(&f, &seeds, &ops, depth, i, rec)));
    };
    let d2 = tier.pick(2, 3);
    {
        let f = sqrt2();
        let es = vec![el(&f, &[0, 1], 1), el(&f, &[-1, 1], 1), el(&f, &[3, -2], 2), f.rat(&q(-3, 2))];
        add(f, es, all.clone(), d2, "broad");
        let f = sqrt2();
        let es = vec![el(&f, &[0, 1], 1), el(&f, &[1, -1], 1), f.rat(&q(2, 3))];
        add(f, es, core.clone(), tier.pick(4, 5), "deep");
        // histories that scale a number down until its conjugate is very close, or up, and back
        let f = sqrt2();
        let es = vec![el(&f, &[0, 1], 1), el(&f, &[3, 1], 1 << 20), f.rat(&q(1, 1 << 20)), f.rat(&q(1 << 20, 3))];
        add(f, es, vec![Op::Add, Op::RevSub, Op::Mul, Op::Div], tier.pick(3, 4), "scaled");
    }
    {
        let f = sqrt5();
        let es = vec![el(&f, &[1, 1], 2), el(&f, &[1, -1], 2), f.rat(&qi(2))];
        add(f, es, all.clone(), d2, "broad");
    }
    {
        let f = cbrt2();
        let es = vec![el(&f, &[0, 1], 1), el(&f, &[1, -1], 1), f.rat(&qi(-1))];
        add(f, es, all.clone(), 2, "broad");
        let f = cbrt2();
        let es = vec![el(&f, &[0, 1], 1), f.rat(&qi(2))];
        add(f, es, core.clone(), tier.pick(3, 4), "deep");
        let f = cos7(2);
        let es = vec![el(&f, &[0, 1], 1), el(&f, &[2, 1], 100_000), f.rat(&q(1, 100_000))];
        add(f, es, vec![Op::Add, Op::RevSub, Op::Mul, Op::Div], tier.pick(3, 4), "scaled");
    }
    {
        let f = biquad();
        let es = vec![bq(&f, 0, 1, 0, 0, 1), bq(&f, 0, 0, 1, 0, 1), bq(&f, 0, 0, 0, 1, 2)];
        add(f, es, vec![Op::Add, Op::RevSub, Op::Mul, Op::Div, Op::Rem, Op::Recip, Op::Fract, Op::Neg], tier.pick(2, 3), "broad");
    }
    {
        let f = cos7(2);
        let es = vec![el(&f, &[0, 1], 1), el(&f, &[-2, 0, 1], 1)];
        add(f, es, all, tier.pick(2, 2), "broad");
    }
    Property { id: "C07".into(), spaces: sp, assumptions: assume() }
}
