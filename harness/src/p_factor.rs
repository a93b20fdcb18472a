//! C17, C18 factorisation over the integers
use algebraics::polynomial::*;
use mccore::engine::*;
use mccore::refmath::*;
use num_bigint::BigInt;
use num_traits::*;
use std::sync::Arc;

type Z = Vec<BigInt>;
fn z(c: &[i64]) -> Z {
    c.iter().map(|v| bi(*v)).collect()
}
fn zmul(a: &Z, b: &Z) -> Z {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![BigInt::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += x * y;
        }
    }
    r
}
fn zpow(a: &Z, n: usize) -> Z {
    (0..n).fold(z(&[1]), |r, _| zmul(&r, a))
}
fn show(p: &Z) -> String {
    format!("[{}]", p.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))
}
type Factors = (BigInt, Vec<(Z, usize)>);
fn model(f: PolynomialFactors<BigInt>) -> Factors {
    let mut v: Vec<(Z, usize)> = f
        .polynomial_factors
        .into_iter()
        .map(|pf| (pf.polynomial.into_coefficients(), pf.power))
        .collect();
    v.sort();
    (f.constant_factor, v)
}
fn lib(p: &Z) -> Polynomial<BigInt> {
    p.clone().into()
}
fn factor(p: &Z) -> Result<Factors, String> {
    let l = lib(p);
    match catch(|| l.factor()) {
        Ok(f) => Ok(model(f)),
        Err(e) => Err(format!("factor({}) panicked: {}", show(p), e)),
    }
}
/// judge a factorisation from scratch: product, shape, distinctness and irreducibility by an independent decision procedure
fn judge(p: &Z, f: &Factors) -> Result<(), String> {
    let mut prod = vec![f.0.clone()];
    for (g, e) in &f.1 {
        ensure!(*e >= 1, "factor({}): {} has multiplicity 0", show(p), show(g));
        ensure!(g.len() >= 2, "factor({}): constant factor {} in the list", show(p), show(g));
        ensure!(g.last().unwrap().is_positive(), "factor({}): {} has a non-positive leading coefficient", show(p), show(g));
        ensure!(primitive(&pzb(g)) == *g, "factor({}): {} is not primitive", show(p), show(g));
        ensure!(irreducible(g), "factor({}): {} is reducible", show(p), show(g));
        prod = zmul(&prod, &zpow(g, *e));
    }
    while prod.last().is_some_and(|c| c.is_zero()) {
        prod.pop();
    }
    eqv!(prod, *p, "factor({}): product of the factors", show(p));
    for w in f.1.windows(2) {
        ensure!(w[0].0 != w[1].0, "factor({}): {} listed twice", show(p), show(&w[0].0));
    }
    Ok(())
}
fn expect(c: &BigInt, fs: &[(&Z, usize)]) -> (Z, Factors) {
    let mut p = vec![c.clone()];
    let mut m: Vec<(Z, usize)> = vec![];
    for (f, e) in fs {
        if *e == 0 {
            continue;
        }
        p = zmul(&p, &zpow(f, *e));
        match m.iter_mut().find(|(g, _)| g == *f) {
            Some(x) => x.1 += e,
            None => m.push(((*f).clone(), *e)),
        }
    }
    m.sort();
    (p, (c.clone(), m))
}
fn euler(f: &Factors) -> String {
    format!("{} * {}", f.0, f.1.iter().map(|(g, e)| format!("{}^{}", show(g), e)).collect::<Vec<_>>().join(" * "))
}

// ---------------------------------------------------------------- irreducible tables
fn cyclotomic(n: usize) -> Z {
    let mut p = vec![BigInt::zero(); n + 1];
    p[0] = bi(-1);
    p[n] = bi(1);
    let mut p = pzb(&p);
    for d in 1..n {
        if n % d == 0 {
            p = pdivrem(&p, &pzb(&cyclotomic(d))).0;
        }
    }
    p.iter().map(|c| c.to_integer()).collect()
}
/// all primitive irreducible polynomials of degree 1..=d, |c| <= b, positive leading coefficient
fn small_irreducibles(d: usize, b: i64) -> Vec<Z> {
    let mut out = vec![];
    for n in 1..=d {
        let w = (2 * b + 1) as usize;
        for i in 0..(w as u64).pow(n as u32) * b as u64 {
            let mut ix = Ix(i);
            let mut p: Z = (0..n).map(|_| bi(ix.take(w) as i64 - b)).collect();
            p.push(bi(ix.take(b as usize) as i64 + 1));
            if primitive(&pzb(&p)) == p && irreducible(&p) {
                out.push(p);
            }
        }
    }
    out
}
/// irreducible by theory: each entry is cyclotomic, Eisenstein at a prime, a Swinnerton-Dyer polynomial or linear
fn special(deep: bool) -> Vec<Z> {
    let mut v: Vec<Z> = vec![];
    for n in 1..=if deep { 36 } else { 21 } {
        v.push(cyclotomic(n));
    }
    v.push(cyclotomic(24)); // splits into quadratics or worse modulo every prime
    v.push(cyclotomic(30));
    if deep {
        v.push(cyclotomic(40));
        v.push(cyclotomic(60));
    }
    v.push(z(&[1, 0, -10, 0, 1])); // sqrt2 + sqrt3
    v.push(z(&[576, 0, -960, 0, 352, 0, -40, 0, 1])); // sqrt2 + sqrt3 + sqrt5
    v.push(z(&[4, 0, -14, 0, 1])); // Swinnerton-Dyer, sqrt2 + sqrt5
    v.push(z(&[16, 0, -20, 0, 1])); // sqrt3 + sqrt7
    for n in [2usize, 3, 4, 5, 6, 7] {
        for p in [2i64, 3, 7, 1_000_003] {
            let mut e = vec![bi(0); n + 1];
            e[0] = bi(-p);
            e[n] = bi(1);
            v.push(e.clone()); // x^n - p
            e.reverse();
            v.push(e.iter().map(|c| -c).collect()); // p x^n - 1
        }
    }
    // lead divisible by all the small primes, so that many primes are unusable
    v.push(z(&[1, 2, 3 * 5 * 7 * 11 * 13 * 17]));
    v.push(z(&[2, 0, 0, 3 * 5 * 7 * 11 * 13 * 17 * 19 * 23])); // Eisenstein at 2
    v.push(vec![bi(1), bi(1) << 40usize]);
    v.push(vec![bi(-1) - (bi(1) << 65usize), bi(1) << 33usize]);
    v.push(vec![bi(3), bi(3) << 31usize, bi(1)]); // Eisenstein at 3
    let mut out: Vec<Z> = vec![];
    for p in v {
        if !out.contains(&p) {
            out.push(p);
        }
    }
    out
}

pub fn c17(tier: Tier) -> Property {
    let mut spaces = vec![];
    // 1. every polynomial in a coefficient box
    for (d, b, tag) in tier.pick(
        vec![(2usize, 9i64, ""), (3, 4, ""), (4, 2, ""), (7, 1, "")],
        vec![(2, 25, ""), (3, 8, ""), (4, 4, ""), (5, 2, ""), (6, 2, ""), (9, 1, "")],
    ) {
        let w = (2 * b + 1) as usize;
        spaces.push(Space::new(
            &format!("box-degree{}-coef{}{}", d, b, tag),
            &format!("every integer polynomial of degree <= {} with coefficients in [-{},{}], zero and constants included", d, b, b),
            (w as u64).pow(d as u32 + 1),
            move |i, rec| {
                let mut ix = Ix(i);
                let mut p: Z = (0..=d).map(|_| bi(ix.take(w) as i64 - b)).collect();
                while p.last().is_some_and(|c| c.is_zero()) {
                    p.pop();
                }
                rec.state(&p);
                let f = factor(&p)?;
                rec.step();
                judge(&p, &f)?;
                rec.compared();
                rec.outcome(&f);
                rec.sample(|| format!("{} = {}", show(&p), euler(&f)));
                Ok(())
            },
        ));
    }
    // 1b. factors whose coefficients exceed those of the product
    for (d, alt) in tier.pick(vec![(10usize, false)], vec![(10, false), (10, true), (11, false)]) {
        spaces.push(Space::new(
            &format!("height-one-degree{}-root{}", d, if alt { "-1" } else { "1" }),
            &format!("every monic polynomial of degree {} with coefficients in {{-1,0,1}}, nonzero constant term and the root {} (such products have irreducible factors with coefficients up to 5 or 7)", d, if alt { -1 } else { 1 }),
            2 * 3u64.pow(d as u32 - 2),
            move |i, rec| {
                let mut ix = Ix(i);
                let mut p: Vec<i64> = vec![1 - 2 * ix.take(2) as i64];
                p.extend((2..d).map(|_| ix.take(3) as i64 - 1));
                let sign = |j: usize| if alt && j % 2 == 1 { -1 } else { 1 };
                let s: i64 = p.iter().enumerate().map(|(j, c)| c * sign(j)).sum::<i64>() + sign(d);
                let c = -s * sign(d - 1);
                if c.abs() > 1 {
                    return Ok(());
                }
                p.extend([c, 1]);
                let p = z(&p);
                rec.state(&p);
                let f = factor(&p)?;
                rec.step();
                judge(&p, &f)?;
                rec.compared();
                rec.outcome(&f);
                rec.sample(|| format!("{} = {}", show(&p), euler(&f)));
                Ok(())
            },
        ));
    }
    // 2. pairs of small irreducibles, with multiplicities and content
    let small = Arc::new(small_irreducibles(2, 2));
    let exps: &[(usize, usize)] = tier.pick(&[(1, 1), (2, 1), (1, 3), (2, 2)], &[(1, 1), (2, 1), (1, 2), (1, 3), (3, 1), (2, 2), (3, 2), (4, 1), (1, 5)]);
    let contents: &[i64] = tier.pick(&[1, -6], &[1, -1, 2, -6, 15, 1 << 40]);
    {
        let t = small.clone();
        let n = t.len();
        spaces.push(Space::new(
            "product-pairs",
            &format!("c*f^a*g^b, (f,g) over {} irreducibles of degree <= 2 with |coef| <= 2, (a,b) in {:?}, c in {:?}", n, exps, contents),
            (n * n * exps.len() * contents.len()) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let (f, g) = (&t[ix.take(n)], &t[ix.take(n)]);
                let (a, b) = exps[ix.take(exps.len())];
                let c = bi(contents[ix.take(contents.len())]);
                known(rec, expect(&c, &[(f, a), (g, b)]))
            },
        ));
    }
    {
        let t = Arc::new(small_irreducibles(3, tier.pick(1, 2)));
        let n = t.len();
        let b = tier.pick(1, 2);
        spaces.push(Space::new(
            "product-pairs-cubic",
            &format!("f*g and -2*f^2*g over {} irreducibles of degree <= 3 with |coef| <= {}", n, b),
            (n * n * 2) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let (f, g) = (&t[ix.take(n)], &t[ix.take(n)]);
                match ix.take(2) {
                    0 => known(rec, expect(&bi(1), &[(f, 1), (g, 1)])),
                    _ => known(rec, expect(&bi(-2), &[(f, 2), (g, 1)])),
                }
            },
        ));
    }
    {
        let t: Vec<(Z, Z)> = vec![(z(&[0, 1]), z(&[-1, 1])), (z(&[1, 1]), z(&[1, 1, 1])), (z(&[-3, 2]), z(&[-2, 0, 1])), (z(&[1 << 33, 5]), z(&[-7, 3])), (z(&[-2, 0, 0, 1]), z(&[1, 0, 1]))];
        let m = tier.pick(7usize, 11);
        spaces.push(Space::new(
            "high-multiplicities",
            &format!("f^a g^b, 5 pairs of irreducibles of degree up to 3, all a, b up to {}, content 1 and -12", m - 1),
            (t.len() * m * m * 2) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let (f, g) = &t[ix.take(t.len())];
                let (a, b) = (ix.take(m), ix.take(m));
                let c = if ix.take(2) == 0 { bi(1) } else { bi(-12) };
                known(rec, expect(&c, &[(f, a), (g, b)]))
            },
        ));
    }
    // 3. products with special polynomials
    let sp = Arc::new(special(tier == Tier::Thorough));
    {
        let t = sp.clone();
        let n = t.len();
        let maxdeg = tier.pick(16, 30);
        let exps: &[(usize, usize, i64)] = tier.pick(&[(1, 0, 1), (1, 1, 1), (2, 1, -3)], &[(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 1, -3), (1, 2, 1), (2, 2, 7)]);
        spaces.push(Space::new(
            "special-products",
            &format!("c*f^a*g^b over {} cyclotomic, Swinnerton-Dyer, Eisenstein and large-coefficient irreducibles, (a,b,c) in {:?}, degree <= {}", n, exps, maxdeg),
            (n * n * exps.len()) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let (f, g) = (&t[ix.take(n)], &t[ix.take(n)]);
                let (a, b, c) = exps[ix.take(exps.len())];
                if (f.len() - 1) * a + (g.len() - 1) * b > maxdeg {
                    return Ok(());
                }
                known(rec, expect(&bi(c), &[(f, a), (g, b)]))
            },
        ));
    }
    // 4. triples of linear factors over a magnitude ladder
    {
        let mags: Vec<BigInt> = tier
            .pick(vec![0usize, 1, 7, 15, 16, 31, 32, 40, 63, 64], vec![0usize, 1, 2, 3, 5, 7, 8, 12, 15, 16, 20, 24, 31, 32, 33, 40, 52, 63, 64, 100, 128])
            .into_iter()
            .map(|k| bi(1) << k)
            .collect();
        let n = mags.len();
        let dl: &[i64] = &[0, 1, -1];
        spaces.push(Space::new(
            "linear-magnitudes",
            &format!("(a x + b)(c x - d) with a,b,c,d in 2^k+e (k from a ladder of {} exponents, e in {{0,1,-1}} tied), reduced to primitive form", n),
            (n * n * n * n * 3) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let k: Vec<&BigInt> = (0..4).map(|_| &mags[ix.take(n)]).collect();
                let e = bi(dl[ix.take(3)]);
                let one = BigInt::one();
                let pos = |v: BigInt| if v.is_positive() { v } else { one.clone() };
                let f = primitive(&pzb(&[k[1].clone() - &e, pos(k[0] + &e)]));
                let g = primitive(&pzb(&[-(k[3] + &e), pos(k[2] - &e)]));
                if f.len() != 2 || g.len() != 2 {
                    return Ok(());
                }
                known(rec, expect(&bi(1), &[(&f, 1), (&g, 1)]))
            },
        ));
    }
    // 5. many modular factors: x^n - 1, x^n + 1, scaled
    {
        let nmax = tier.pick(30usize, 60);
        let ks: &[i64] = &[1, 2, 3, -5];
        spaces.push(Space::new(
            "roots-of-unity",
            &format!("c*(x^n -/+ 1) and its scaling x -> k x, n <= {}, k in {:?}: known cyclotomic factorisation", nmax, ks),
            (nmax * 2 * ks.len()) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let n = ix.take(nmax) + 1;
                let plus = ix.take(2) == 1;
                let k = ks[ix.take(ks.len())];
                let divs: Vec<usize> = if plus {
                    (1..=2 * n).filter(|d| (2 * n) % d == 0 && n % d != 0).collect()
                } else {
                    (1..=n).filter(|d| n % d == 0).collect()
                };
                let fs: Vec<Z> = divs
                    .iter()
                    .map(|d| {
                        let c = cyclotomic(*d);
                        let mut s = BigInt::one();
                        let mut scaled = vec![];
                        for x in c {
                            scaled.push(x * &s);
                            s *= k;
                        }
                        primitive(&pzb(&scaled))
                    })
                    .collect();
                let l: Vec<(&Z, usize)> = fs.iter().map(|f| (f, 1)).collect();
                known(rec, expect(&bi(-2), &l))
            },
        ));
    }
    // 6. products of several distinct linear and quadratic factors, all subsets
    {
        let base: Vec<Z> = tier.pick(
            vec![z(&[0, 1]), z(&[-1, 1]), z(&[1, 1]), z(&[-2, 1]), z(&[1, 2]), z(&[-3, 2]), z(&[1, 0, 1]), z(&[-2, 0, 1]), z(&[1, 1, 1]), z(&[-6, 0, 5])],
            vec![
                z(&[0, 1]), z(&[-1, 1]), z(&[1, 1]), z(&[-2, 1]), z(&[1, 2]), z(&[-3, 2]), z(&[1, 0, 1]), z(&[-2, 0, 1]), z(&[1, 1, 1]), z(&[-6, 0, 5]), z(&[-105, 1]),
                z(&[1, 105]), z(&[2, 0, 0, 3]), z(&[1, 0, 0, 0, 1]),
            ],
        );
        let n = base.len();
        let b2 = base.clone();
        spaces.push(Space::new(
            "subset-products",
            &format!("square-free products of every non-empty subset of {} fixed irreducibles (a quarter of them also with one factor cubed)", n),
            1u64 << n,
            move |i, rec| {
                if i == 0 {
                    return Ok(());
                }
                let l: Vec<(&Z, usize)> = (0..n).filter(|k| i >> k & 1 == 1).map(|k| (&b2[k], if i % 4 == 3 && k == (i as usize / 4) % n { 3 } else { 1 })).collect();
                known(rec, expect(&bi(1), &l))
            },
        ));
    }
    Property {
        id: "C17".into(),
        spaces,
        assumptions: vec![
            "irreducibility of each returned factor in the box spaces is decided by an independent exact procedure (factor degrees modulo 14 primes, then Kronecker); in the product spaces the expected factorisation is known by construction (cyclotomic, Eisenstein, Swinnerton-Dyer, enumerated irreducibles)".into(),
        ],
    }
}
fn known(rec: &mut Rec, (p, want): (Z, Factors)) -> Result<(), String> {
    rec.state(&p);
    let f = factor(&p)?;
    rec.step();
    eqv!(f, want, "factor({})", show(&p));
    rec.compared();
    rec.outcome(&f.1.len());
    rec.sample(|| format!("{} = {}", show(&p), euler(&f)));
    Ok(())
}

// ---------------------------------------------------------------- C18
struct Script {
    draws: Vec<u32>,
    at: usize,
    s: u64,
}
impl rand::RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let i = self.at;
        self.at += 1;
        if i < self.draws.len() {
            return self.draws[i];
        }
        if i > 2_000_000 {
            panic!("the generator was asked for more than two million numbers");
        }
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut x = self.s;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        (x >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        (self.next_u32() as u64) << 32 | self.next_u32() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn scripted(rec: &mut Rec, p: &Z, want: &Factors, base: &Factors, draws: Vec<u32>, tag: &dyn Fn() -> String) -> Result<(), String> {
    let l = lib(p);
    let mut rng = Script { draws, at: 0, s: 7 };
    let f = match catch(|| l.factor_with_rng(&mut rng)) {
        Ok(f) => model(f),
        Err(e) => return Err(format!("factor_with_rng({}) with generator answers {} panicked: {}", show(p), tag(), e)),
    };
    rec.steps(rng.at as u64 + 1);
    rec.outcome(&rng.at);
    eqv!(f, *base, "factor_with_rng({}) with generator answers {} against factor()", show(p), tag());
    eqv!(f, *want, "factor_with_rng({}) with generator answers {} against the known factors", show(p), tag());
    rec.compared();
    rec.sample(|| format!("{} with answers {}: {} draws, {}", show(p), tag(), rng.at, euler(&f)));
    Ok(())
}
pub fn c18(tier: Tier) -> Property {
    // inputs that need random splitting modulo the prime the library ends up using
    let lin = |v: &[i64]| -> Vec<Z> { v.iter().map(|c| z(&[-c, 1])).collect() };
    let sets: Vec<(BigInt, Vec<Z>)> = {
        let mut s: Vec<(BigInt, Vec<Z>)> = vec![
            (bi(1), lin(&[0, 1])),
            (bi(1), lin(&[0, 1, 2])),
            (bi(-1), lin(&[0, 1, 2, 3, 4])),
            (bi(2), lin(&[-3, -2, -1, 0, 1, 2])),
            (bi(1), vec![z(&[1, 0, 0, 0, 1])]),
            (bi(1), vec![cyclotomic(16)]),
            (bi(1), vec![z(&[1, 0, -10, 0, 1])]),
            (bi(1), vec![z(&[1, 0, 1]), z(&[2, 1, 1]), z(&[2, 2, 1])]),
            (bi(3), vec![z(&[1, 2]), z(&[-1, 2]), z(&[5, 7])]),
            (bi(1), vec![cyclotomic(15)]),
            (bi(1), vec![cyclotomic(7), z(&[-1, 1])]),
            (bi(5), vec![z(&[-2, 0, 0, 1]), z(&[-3, 0, 0, 1])]),
        ];
        if tier == Tier::Thorough {
            s.push((bi(1), vec![z(&[576, 0, -960, 0, 352, 0, -40, 0, 1])]));
            s.push((bi(1), vec![cyclotomic(24), cyclotomic(5)]));
            s.push((bi(1), lin(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9])));
            s.push((bi(-7), vec![cyclotomic(1), cyclotomic(2), cyclotomic(3), cyclotomic(4), cyclotomic(5), cyclotomic(6)]));
            s.push((bi(1), vec![vec![bi(1), bi(1) << 40usize], vec![bi(-3), bi(1) << 33usize], z(&[0, 1])]));
        }
        s
    };
    let cases: Arc<Vec<(Z, Factors, Vec<usize>)>> = Arc::new(
        sets.iter()
            .flat_map(|(c, fs)| {
                let mut v = vec![];
                for pw in 0..2usize {
                    let l: Vec<(&Z, usize)> = fs.iter().enumerate().map(|(i, f)| (f, if pw == 1 && i == 0 { 2 } else { 1 })).collect();
                    let (p, w) = expect(c, &l);
                    v.push((p, w, vec![]));
                }
                v
            })
            .collect(),
    );
    let mut spaces = vec![];
    let (a, k) = tier.pick((7usize, 4u32), (11, 4));
    {
        let cs = cases.clone();
        let per = (a as u64).pow(k);
        let n = cs.len();
        spaces.push(Space::new(
            "answer-prefixes",
            &format!("{} polynomials x every sequence of {} generator answers from {} equally spaced values (all residues modulo primes <= {}), then a fixed pseudo-random tail", n, k, a, a),
            n as u64 * per,
            move |i, rec| {
                let (p, w, _) = &cs[(i / per) as usize];
                let mut ix = Ix(i % per);
                let syms: Vec<usize> = (0..k).map(|_| ix.take(a)).collect();
                let draws: Vec<u32> = syms.iter().map(|s| ((*s as u64 * (1u64 << 32) / a as u64) + (1u64 << 31) / a as u64) as u32).collect();
                rec.state(&(i / per, &syms));
                scripted(rec, p, w, w, draws, &|| format!("{:?}/{}", syms, a))
            },
        ));
    }
    {
        let cs = cases.clone();
        let n = cs.len();
        let pats: Vec<u32> = vec![0, 1, 0x5555_5555, 0x7fff_ffff, 0x8000_0000, 0xaaaa_aaaa, 0xffff_fffe, 0xffff_ffff];
        let lens: Vec<usize> = tier.pick(vec![1, 2, 3, 7, 30], (1..=40).collect());
        let (np, nl) = (pats.len(), lens.len());
        spaces.push(Space::new(
            "stuck-generators",
            &format!("{} polynomials x generators that answer one of {} extreme words or alternate between two of them for a prefix of length {:?}", n, np, lens),
            (n * np * np * nl) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let (p, w, _) = &cs[ix.take(n)];
                let (x, y, l) = (pats[ix.take(np)], pats[ix.take(np)], lens[ix.take(nl)]);
                // words the sampler rejects would stall a constant generator: the prefix stays finite
                let draws: Vec<u32> = (0..l).map(|j| if j % 2 == 0 { x } else { y }).collect();
                rec.state(&i);
                scripted(rec, p, w, w, draws, &|| format!("{:#x},{:#x} repeated to length {}", x, y, l))
            },
        ));
    }
    {
        let cs = cases.clone();
        let n = cs.len();
        let pats: Vec<u32> = vec![0, 1, 0x5555_5555, 0x7fff_ffff, 0x8000_0000, 0xaaaa_aaaa, 0xffff_fffe, 0xffff_ffff];
        let lens: Vec<usize> = tier.pick(vec![60, 150, 600, 2500], vec![60, 100, 150, 250, 400, 600, 1000, 1500, 2500, 6000, 20000]);
        let (np, nl) = (pats.len(), lens.len());
        let mut sp = Space::new(
            "long-stuck-generators",
            &format!("{} polynomials x generators that answer the same one of {} extreme words {:?} times before they vary", n, np, lens),
            (n * np * nl) as u64,
            move |i, rec| {
                let mut ix = Ix(i);
                let (p, w, _) = &cs[ix.take(n)];
                let (x, l) = (pats[ix.take(np)], lens[ix.take(nl)]);
                rec.state(&i);
                scripted(rec, p, w, w, vec![x; l], &|| format!("{:#x} repeated {} times", x, l))
            },
        );
        sp.chunk = 1;
        spaces.push(sp);
    }
    {
        let cs = cases.clone();
        let n = cs.len();
        spaces.push(Space::new("default-generator", "the same polynomials through factor()", n as u64, move |i, rec| {
            let (p, w, _) = &cs[i as usize];
            known(rec, (p.clone(), w.clone()))
        }));
    }
    Property {
        id: "C18".into(),
        spaces,
        assumptions: vec![
            "the default factorisation and the known factors are compared as multisets: the order of the returned list is not part of the property".into(),
            "after the enumerated prefix the generator continues with a fixed splitmix64 stream; a run that asks for more than two million numbers counts as non-terminating".into(),
        ],
    }
}
