"""C25: bounded exhaustive exploration of the Python class in lockstep with an exact model.

usage: mc.py run C25 <tier> [<space> <case>]
The extension module is built by check.sh from /repo's working tree; MODDIR names the directory that holds it.
"""
import json
import math
import multiprocessing as mp
import operator
import os
import sys
import time
from fractions import Fraction as Fr

HANG = 150


# ------------------------------------------------------------------ model: a0 + a1*t + a2*t^2 .. with t = r^(1/n) > 0, t^n = r
class Field:
    def __init__(self, n, r):
        self.n, self.r = n, r

    def key(self):
        return (self.n, self.r)


Q1, Q2, Q3, Q5 = Field(1, 1), Field(2, 2), Field(3, 2), Field(2, 5)


class N:
    """an exact element of one of the fields above"""

    __slots__ = ("f", "c")

    def __init__(self, f, c):
        c = [Fr(x) for x in c]
        if all(x == 0 for x in c[1:]):
            f, c = Q1, c[:1]
        self.f, self.c = f, tuple(c)

    def key(self):
        return (self.f.key(), self.c)

    def __repr__(self):
        if self.f is Q1:
            return str(self.c[0])
        return "+".join("(%s)*%d^(%d/%d)" % (x, self.f.r, i, self.f.n) for i, x in enumerate(self.c) if x)

    def bounds(self, k):
        """rational bounds, tighter with k"""
        s = 1 << k
        n, r = self.f.n, self.f.r
        lo = iroot(r * s**n, n)
        a, b = Fr(lo, s), Fr(lo + 1, s)
        L = U = Fr(0)
        for i, x in enumerate(self.c):
            p, q = (a**i, b**i) if i else (Fr(1), Fr(1))
            L += x * (p if x >= 0 else q)
            U += x * (q if x >= 0 else p)
        return L, U

    def rational(self):
        return self.c[0] if self.f is Q1 else None

    def floor(self):
        if self.f is Q1:
            return math.floor(self.c[0])
        k = 8
        while True:
            L, U = self.bounds(k)
            if math.floor(L) == math.floor(U):
                return math.floor(L)
            k *= 2

    def sign(self):
        if self.f is Q1:
            x = self.c[0]
            return (x > 0) - (x < 0)
        k = 8
        while True:
            L, U = self.bounds(k)
            if L > 0:
                return 1
            if U < 0:
                return -1
            k *= 2

    def pad(self, f):
        return list(self.c) + [Fr(0)] * (f.n - len(self.c))


def iroot(v, n):
    """floor of the n-th root"""
    if v < 2:
        return v
    x = 1 << (-(-v.bit_length() // n))
    while True:
        y = ((n - 1) * x + v // x ** (n - 1)) // n
        if y >= x:
            return x
        x = y


def common(a, b):
    if a.f is Q1:
        return b.f
    if b.f is Q1 or a.f is b.f:
        return a.f
    return None


def add(a, b):
    f = common(a, b)
    return N(f, [x + y for x, y in zip(a.pad(f), b.pad(f))])


def neg(a):
    return N(a.f, [-x for x in a.c])


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    f = common(a, b)
    p, q = a.pad(f), b.pad(f)
    r = [Fr(0)] * f.n
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            k = i + j
            r[k % f.n] += x * y * (f.r if k >= f.n else 1)
    return N(f, r)


def solve(m, v):
    """solve the square system m x = v (rows), None if singular"""
    n = len(v)
    m = [list(row) + [v[i]] for i, row in enumerate(m)]
    for c in range(n):
        p = next((i for i in range(c, n) if m[i][c] != 0), None)
        if p is None:
            return None
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x / d for x in m[c]]
        for i in range(n):
            if i != c and m[i][c] != 0:
                k = m[i][c]
                m[i] = [x - k * y for x, y in zip(m[i], m[c])]
    return [row[n] for row in m]


def recip(a):
    if a.sign() == 0:
        return None
    f = a.f
    cols = [mul(a, N(f, [Fr(int(i == j)) for i in range(f.n)])).pad(f) for j in range(f.n)]
    rows = [[cols[j][i] for j in range(f.n)] for i in range(f.n)]
    return N(f, solve(rows, [Fr(1)] + [Fr(0)] * (f.n - 1)))


def div(a, b):
    r = recip(b)
    return None if r is None else mul(a, r)


def ipow(a, n):
    r = N(Q1, [1])
    for _ in range(n):
        r = mul(r, a)
    return r


def minpoly(a):
    """coefficients, lowest first, primitive with positive leading coefficient"""
    pw = [N(Q1, [1])]
    for d in range(1, a.f.n + 1):
        pw.append(mul(pw[-1], a))
        f = a.f
        vec = [p.pad(f) for p in pw]
        # a^d as a combination of the lower powers: least number of unknowns first, verified exactly
        sol = combo(vec[:-1], vec[-1])
        if sol is not None:
            c = [-x for x in sol] + [Fr(1)]
            m = math.lcm(*[x.denominator for x in c])
            z = [int(x * m) for x in c]
            g = math.gcd(*z)
            return [x // g for x in z]
    raise AssertionError("no minimal polynomial")


def combo(vs, t):
    """t as a rational combination of the vectors vs, by elimination"""
    n, k = len(t), len(vs)
    m = [[vs[j][i] for j in range(k)] + [t[i]] for i in range(n)]
    row, piv = 0, []
    for c in range(k):
        p = next((i for i in range(row, n) if m[i][c] != 0), None)
        if p is None:
            return None
        m[row], m[p] = m[p], m[row]
        d = m[row][c]
        m[row] = [x / d for x in m[row]]
        for i in range(n):
            if i != row and m[i][c] != 0:
                q = m[i][c]
                m[i] = [x - q * y for x, y in zip(m[i], m[row])]
        piv.append(row)
        row += 1
    if any(m[i][k] != 0 for i in range(row, n)):
        return None
    return [m[i][k] for i in piv]


def rootof(v, d):
    """the positive d-th root of a positive rational if it is rational or lies in one of the fields; None if not expressible"""
    p, q = v.numerator, v.denominator
    for f in (Q1, Q2, Q3, Q5):
        # v = (c * t^i)^d with c rational: v^n = c^(dn) * r^(i d)
        for i in range(f.n):
            w = v ** f.n / Fr(f.r) ** (i * d)
            k = d * f.n
            a, b = iroot(w.numerator, k), iroot(w.denominator, k)
            if a**k == w.numerator and b**k == w.denominator:
                return N(f, [Fr(a, b) if j == i else 0 for j in range(f.n)])
    return None


UNKNOWN = "unknown"


def power(a, e):
    """a to the rational e: a number, None if undefined, UNKNOWN if outside the model"""
    n, d = e.numerator, e.denominator
    s = a.sign()
    if s == 0:
        return a if n > 0 else None
    if d == 1:
        r = ipow(a, abs(n))
        return recip(r) if n < 0 else r
    if s < 0:
        return None
    q = a.rational()
    if q is None:
        if sum(1 for x in a.c if x) == 1:
            i = next(i for i, x in enumerate(a.c) if x)
            # (c t^i)^(n/d) = ((c^N r^i)^(n))^(1/(dN))
            w = a.c[i] ** a.f.n * Fr(a.f.r) ** i
            r = rootof(w ** abs(n), d * a.f.n)
        else:
            return UNKNOWN
    else:
        r = rootof(q ** abs(n), d)
    if r is None:
        return UNKNOWN
    return recip(r) if n < 0 else r


def log2floor(a):
    k = 0
    if a.sign() <= 0:
        return None
    two = N(Q1, [2])
    half = N(Q1, [Fr(1, 2)])
    one = N(Q1, [1])
    x = a
    q = a.rational()
    if q is not None:
        k = q.numerator.bit_length() - q.denominator.bit_length()
        if Fr(2) ** k > q:
            k -= 1
        assert Fr(2) ** k <= q < Fr(2) ** (k + 1)
        return k
    while sub(x, one).sign() < 0:
        x = mul(x, two)
        k -= 1
    while sub(x, two).sign() >= 0:
        x = mul(x, half)
        k += 1
    return k


def log2ceil(a):
    k = log2floor(a)
    if k is None:
        return None
    return k if a.rational() == Fr(2) ** k else k + 1


# ------------------------------------------------------------------ binding side
class Bad(Exception):
    pass


R = None


def load():
    global R
    if R is None:
        sys.path.insert(0, os.environ["MODDIR"])
        import algebraics

        R = algebraics.RealAlgebraicNumber


def build(v):
    """the Python object for a model number, from integers by + * / **"""
    if v.f is Q1:
        q = v.c[0]
        return R(q.numerator) if q.denominator == 1 else R(q.numerator) / R(q.denominator)
    t = R(v.f.r) ** (R(1) / R(v.f.n))
    out = R(0)
    for i, x in enumerate(v.c):
        if x:
            out = out + build(N(Q1, [x])) * t**i
    return out


def shows(o, v, what):
    """the object denotes the number"""
    if type(o) is not R:
        raise Bad("%s: result is a %s, not a number of the class" % (what, type(o).__name__))
    want = minpoly(v)
    got = o.minimal_polynomial
    if got != want:
        raise Bad("%s: minimal polynomial %r, expected %r (%r)" % (what, got, want, v))
    if v.f is not Q1:
        # which root: scaled floor
        s = 1 << 24
        g, w = math.floor(o * s), mul(v, N(Q1, [s])).floor()
        if g != w:
            raise Bad("%s: floor of 2^24 times the result is %d, expected %d (%r)" % (what, g, w, v))


def call(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("exc", e)
    except BaseException as e:  # a panic of the library
        raise Bad("%s%r ended with %s: %s" % (getattr(f, "__name__", f), a, type(e).__name__, e))


def raises(f, a, kind, what):
    k, r = call(f, *a)
    if k == "ok":
        raise Bad("%s is answered (%r)" % (what, r))
    if type(r) is not kind:
        raise Bad("%s raises %s (%s), expected %s" % (what, type(r).__name__, r, kind.__name__))


def answers(f, a, what):
    k, r = call(f, *a)
    if k != "ok":
        raise Bad("%s raises %s: %s" % (what, type(r).__name__, r))
    return r


def eq(got, want, what):
    if type(got) is not type(want) or got != want:
        raise Bad("%s is %r, expected %r" % (what, got, want))


def unary(v, st):
    o = build(v)
    shows(o, v, "%r built" % v)
    st.step(20)
    fl = v.floor()
    q = v.rational()
    isint = q is not None and q.denominator == 1
    ce = fl if isint else fl + 1
    eq(math.floor(o), fl, "floor(%r)" % v)
    eq(math.ceil(o), ce, "ceil(%r)" % v)
    eq(math.trunc(o), fl if v.sign() >= 0 else ce, "trunc(%r)" % v)
    eq(o.to_integer(), int(q) if isint else None, "to_integer(%r)" % v)
    eq(o.to_rational(), None if q is None else (q.numerator, q.denominator), "to_rational(%r)" % v)
    eq(o.is_integer(), isint, "is_integer(%r)" % v)
    eq(o.is_rational(), q is not None, "is_rational(%r)" % v)
    eq(o.degree, len(minpoly(v)) - 1, "degree of %r" % v)
    eq(o.minimal_polynomial, minpoly(v), "minimal polynomial of %r" % v)
    shows(answers(operator.neg, (o,), "-(%r)" % v), neg(v), "-(%r)" % v)
    shows(answers(abs, (o,), "abs(%r)" % v), v if v.sign() >= 0 else neg(v), "abs(%r)" % v)
    r = recip(v)
    if r is None:
        raises(o.recip, (), ZeroDivisionError, "recip(%r)" % v)
    else:
        shows(answers(o.recip, (), "recip(%r)" % v), r, "recip(%r)" % v)
    for name, w in (("floor_log2", log2floor(v)), ("ceil_log2", log2ceil(v))):
        f = getattr(o, name)
        if w is None:
            raises(f, (), ValueError, "%s(%r)" % (name, v))
        else:
            eq(answers(f, (), "%s(%r)" % (name, v)), w, "%s(%r)" % (name, v))
    c = R(o)
    shows(c, v, "copy of %r" % v)
    if isint:
        shows(R(int(q)), v, "R(%d)" % int(q))
    if not isinstance(repr(o), str) or "RealAlgebraicNumber" not in repr(o):
        raise Bad("repr of %r is %r" % (v, repr(o)))
    # foreign operands are refused, equality with them is false
    for foreign in (1.5, "1", None, [1], Fr(1, 2), object()):
        for op in (operator.add, operator.sub, operator.mul, operator.truediv, operator.lt, operator.ge):
            for args in ((o, foreign), (foreign, o)):
                raises(op, args, TypeError, "%s with a %s" % (op.__name__, type(foreign).__name__))
        if o == foreign or not (o != foreign):
            raise Bad("%r equals a %s" % (v, type(foreign).__name__))
    raises(pow, (o, 2, 3), TypeError, "three-argument pow of %r" % v)
    shows(pow(o, 1, None), v, "pow(%r, 1, None)" % v)
    shows(o, v, "%r after all of these" % v)
    st.state(("u", v.key()))
    return "%r: minimal polynomial %r" % (v, o.minimal_polynomial)


OPS = [("+", operator.add, add), ("-", operator.sub, sub), ("*", operator.mul, mul), ("/", operator.truediv, div)]
CMP = [("<", operator.lt, lambda s: s < 0), ("<=", operator.le, lambda s: s <= 0), ("==", operator.eq, lambda s: s == 0),
       ("!=", operator.ne, lambda s: s != 0), (">", operator.gt, lambda s: s > 0), (">=", operator.ge, lambda s: s >= 0)]


def forms(v):
    """the ways a number can be passed: class instance, and plain int for integers"""
    f = [("class", build(v))]
    q = v.rational()
    if q is not None and q.denominator == 1:
        f.append(("int", int(q)))
    return f


def binary(a, b, st):
    s = sub(a, b).sign()
    for fa, oa in forms(a):
        for fb, ob in forms(b):
            if fa == "int" and fb == "int":
                continue
            for name, op, ref in OPS:
                w = "%r %s %r (%s, %s)" % (a, name, b, fa, fb)
                want = ref(a, b)
                if want is None:
                    raises(op, (oa, ob), ZeroDivisionError, w)
                else:
                    shows(answers(op, (oa, ob), w), want, w)
                st.step(1)
            for name, op, ref in CMP:
                w = "%r %s %r (%s, %s)" % (a, name, b, fa, fb)
                eq(answers(op, (oa, ob), w), ref(s), w)
                st.step(1)
            for o, v in ((oa, a), (ob, b)):
                if type(o) is R:
                    shows(o, v, "operand %r after the operations" % v)
    st.state(("b", a.key(), b.key()))
    return "%r with %r" % (a, b)


def powers(a, e, st):
    ev = N(Q1, [e])
    want = power(a, e)
    if want is UNKNOWN:
        return None
    for fa, oa in forms(a):
        for fe, oe in forms(ev):
            if fa == "int" and fe == "int":
                continue
            for name, op in (("**", operator.pow), ("pow", lambda x, y: pow(x, y, None))):
                w = "%r %s %s (%s, %s)" % (a, name, e, fa, fe)
                if want is None:
                    raises(op, (oa, oe), ValueError, w)
                else:
                    shows(answers(op, (oa, oe), w), want, w)
                st.step(1)
            raises(pow, (oa, oe, 7), TypeError, "three-argument pow of %r, %s (%s, %s)" % (a, e, fa, fe))
    # an irrational exponent
    raises(operator.pow, (build(a), build(N(Q2, [0, 1]))), ValueError, "%r to an irrational power" % a)
    st.state(("p", a.key(), e))
    return "%r ** %s = %r" % (a, e, want)


STEPS = [
    ("+=", operator.iadd, add), ("-=", operator.isub, sub), ("*=", operator.imul, mul), ("/=", operator.itruediv, div),
    ("rsub", lambda x, y: y - x, lambda x, y: sub(y, x)), ("rdiv", lambda x, y: y / x, lambda x, y: div(y, x)),
    ("neg", lambda x, y: -x, lambda x, y: neg(x)), ("abs", lambda x, y: abs(x), lambda x, y: x if x.sign() >= 0 else neg(x)),
    ("floor", lambda x, y: R(math.floor(x)), lambda x, y: N(Q1, [x.floor()])),
    ("square", lambda x, y: x**2, lambda x, y: mul(x, x)),
    ("swap", lambda x, y: y, lambda x, y: y),
]


def history(seed, ops, st):
    x, y = build(seed[0]), build(seed[1])
    mx, my = seed
    trail = "x=%r y=%r" % (mx, my)
    for k in ops:
        name, f, ref = STEPS[k]
        trail += "; " + name
        want = ref(mx, my)
        old, oldv = x, mx
        if want is None:
            raises(f, (x, y), ZeroDivisionError, trail)
        else:
            x = answers(f, (x, y), trail)
            mx = want
            if name == "swap":
                x, y, mx, my = y, old, my, oldv
        st.step(1)
        shows(old, oldv, trail + ": earlier value")
        shows(x, mx, trail)
        shows(y, my, trail + ": other operand")
        eq(x < y, sub(mx, my).sign() < 0, trail + ": x < y")
        eq(x == y, sub(mx, my).sign() == 0, trail + ": x == y")
        st.state(("h", mx.key(), my.key()))
    return trail


# ------------------------------------------------------------------ spaces
def values(tier):
    th = tier == "thorough"
    out = []
    m, dm = (6, 4) if th else (4, 3)
    for n in range(-m, m + 1):
        for d in range(1, dm + 1):
            if math.gcd(n, d) == 1:
                out.append(N(Q1, [Fr(n, d)]))
    for v in (2**31, 2**63 - 1, 2**63, -(2**63) - 1, 2**64, -(10**30), 10**40 + 1, Fr(1, 2**70), Fr(-(3**50), 2**40)):
        out.append(N(Q1, [v]))
    k = 3 if th else 2
    irr = []
    for a in range(-k, k + 1):
        for b in range(-k, k + 1):
            if b:
                irr.append(N(Q2, [a, b]))
                if th:
                    irr.append(N(Q2, [Fr(a, 2), Fr(b, 3)]))
    irr.append(N(Q2, [Fr(7, 5), -1]))
    irr.append(N(Q2, [10**12, Fr(1, 3)]))
    cub = [N(Q3, c) for c in ((0, 1, 0), (0, -1, 0), (1, 1, 0), (0, 0, 1), (-1, Fr(1, 2), 1), (2, 0, -1), (Fr(-5, 4), 1, 0))]
    five = [N(Q5, [Fr(1, 2), Fr(1, 2)]), N(Q5, [Fr(1, 2), Fr(-1, 2)])]
    return out, irr, cub, five


class Space:
    def __init__(self, name, bound, cases, run):
        self.name, self.bound, self.cases, self.run = name, bound, cases, run


def spaces(tier):
    th = tier == "thorough"
    rat, irr, cub, five = values(tier)
    S = []
    allv = rat + irr + cub + five
    S.append(Space("unary", "every method, getter, conversion and refused operand of %d numbers (rational, quadratic, cubic, beyond 64 bits)" % len(allv), allv, unary))
    one = rat + irr
    S.append(Space("pairs-quadratic", "all pairs of %d rational numbers and elements of Q(sqrt 2), every operator and comparison, class and int operands on either side" % len(one),
                   [(a, b) for a in one for b in one], lambda c, st: binary(c[0], c[1], st)))
    small = [v for v in rat if abs(v.c[0]) <= 3 and v.c[0].denominator <= 2]
    two = small + cub
    S.append(Space("pairs-cubic", "all pairs of %d rational numbers and elements of Q(2^(1/3))" % len(two), [(a, b) for a in two for b in two], lambda c, st: binary(c[0], c[1], st)))
    golden = small + five
    S.append(Space("pairs-golden", "all pairs of %d rational numbers and the golden ratio with its conjugate" % len(golden), [(a, b) for a in golden for b in golden], lambda c, st: binary(c[0], c[1], st)))
    m = 6 if th else 4
    exps = sorted({Fr(n, d) for n in range(-m, m + 1) for d in range(1, 5)})
    bases = [v for v in one + cub + five if all(abs(x.numerator) < 100 and x.denominator < 100 for x in v.c)]
    bases += [N(Q1, [v]) for v in (Fr(4, 9), Fr(8, 27), 16, Fr(1, 64), 32, -8, 1024)]
    S.append(Space("powers", "%d bases x %d exponents n/d, |n| <= %d, d <= 4, in ** and three-argument form, class and int operands (results outside the model's fields are skipped)" % (len(bases), len(exps), m),
                   [(b, e) for b in bases for e in exps], lambda c, st: powers(c[0], c[1], st)))
    depth = 4 if th else 3
    seeds = [(N(Q2, [1, 1]), N(Q1, [Fr(1, 2)])), (N(Q2, [0, 1]), N(Q2, [2, -1])), (N(Q1, [-3]), N(Q1, [2]))]
    if th:
        seeds += [(N(Q3, [0, 1, 0]), N(Q1, [1])), (N(Q5, [Fr(1, 2), Fr(1, 2)]), N(Q5, [Fr(1, 2), Fr(-1, 2)]))]
    hist = []
    for s in seeds:
        for i in range(len(STEPS) ** depth):
            ops = []
            for _ in range(depth):
                ops.append(i % len(STEPS))
                i //= len(STEPS)
            hist.append((s, ops))
    S.append(Space("histories", "all sequences of %d of %d operations on two registers from %d starting pairs" % (depth, len(STEPS), len(seeds)), hist, lambda c, st: history(c[0], c[1], st)))
    S.append(Space("construction", "the constructor with each kind of argument", list(range(14)), construct))
    return S


def construct(i, st):
    st.step(1)
    st.state(("c", i))
    if i == 0:
        shows(R(), N(Q1, [0]), "R()")
    elif i == 1:
        shows(R(None), N(Q1, [0]), "R(None)")
    elif i == 2:
        shows(R(True), N(Q1, [1]), "R(True)")
    elif i == 3:
        for b in range(0, 200):
            for d in (-1, 0, 1):
                for s in (1, -1):
                    v = s * (2**b + d)
                    o = R(v)
                    shows(o, N(Q1, [v]), "R(%d)" % v)
                    eq(o.to_integer(), v, "R(%d).to_integer()" % v)
                    eq(o.floor_log2() if v > 0 else 0, v.bit_length() - 1 if v > 0 else 0, "floor_log2(%d)" % v)
                    st.step(3)
    else:
        bad = [1.0, "1", "x", [1], (1, 2), {}, Fr(1, 2), 1j, b"1", object()]
        raises(R, (bad[i - 4],), TypeError, "R(%r)" % type(bad[i - 4]).__name__)
    return "constructor case %d" % i


# ------------------------------------------------------------------ engine
class Stat:
    def __init__(self):
        self.steps, self.states, self.cases, self.compared, self.samples = 0, set(), 0, 0, []

    def step(self, n):
        self.steps += n

    def state(self, k):
        self.states.add(hash(repr(k)))


def worker(tier, todo, conn):
    load()
    sp = spaces(tier)
    out = {}
    for si, lo, hi, step in todo:
        st = out.setdefault(si, Stat())
        for i in range(lo, hi, step):
            conn.send(("at", si, i))
            try:
                smp = sp[si].run(sp[si].cases[i], st)
                st.compared += smp is not None
                if smp and (i in (0, hi // 2) or i + step >= hi):
                    st.samples.append("%s[%d]: %s" % (sp[si].name, i, smp))
            except Bad as e:
                conn.send(("bad", si, i, str(e)))
            except BaseException as e:
                conn.send(("bad", si, i, "the driver saw %s: %s" % (type(e).__name__, e)))
            st.cases += 1
    conn.send(("done", {k: (v.steps, v.states, v.cases, v.compared, v.samples) for k, v in out.items()}))
    conn.close()


def main():
    prop, tier = sys.argv[2], sys.argv[3]
    t0 = time.time()
    verif = os.environ["VERIF_DIR"]
    sp = spaces(tier)
    n = int(os.environ.get("VERIF_THREADS", min(16, os.cpu_count() or 8)))
    if len(sys.argv) > 5:
        si = next(i for i, s in enumerate(sp) if s.name == sys.argv[4])
        jobs = [[(si, int(sys.argv[5]), int(sys.argv[5]) + 1, 1)]]
    else:
        jobs = [[(si, w, len(s.cases), n) for si, s in enumerate(sp)] for w in range(n)]
    ctx = mp.get_context("fork")
    procs = []
    for j in jobs:
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(tier, j, b))
        p.start()
        b.close()
        procs.append([p, a, None, time.time(), False])
    bad, res, err = [], [], None
    live = list(procs)
    while live:
        mp.connection.wait([x[1] for x in live], 5)
        for x in list(live):
            p, conn = x[0], x[1]
            try:
                while conn.poll():
                    m = conn.recv()
                    x[3] = time.time()
                    if m[0] == "at":
                        x[2] = m[1:]
                    elif m[0] == "bad":
                        bad.append(m[1:])
                    else:
                        res.append(m[1])
                        x[4] = True
            except EOFError:
                if not x[4]:
                    p.join()
                    if x[2] is None:
                        err = "a worker ended before its first case (exit %s)" % p.exitcode
                    else:
                        bad.append(x[2] + ("the interpreter dies while executing this case (exit %s)" % p.exitcode,))
                live.remove(x)
                continue
            if time.time() - x[3] > HANG:
                bad.append((x[2] or (0, 0)) + ("no answer within %d s" % HANG,))
                p.kill()
                live.remove(x)
            elif len(bad) > 20:
                p.kill()
                live.remove(x)
    known = []
    for l in open(os.path.join(verif, "KNOWN_FINDINGS.txt")):
        if l.startswith("finding: property=%s " % prop):
            known.append(l.split(" ", 2)[2].strip())
    new = []
    for si, i, m in sorted(bad):
        full = "%s: %s" % (sp[si].name, m)
        if any(full.startswith(k) for k in known):
            print("KNOWN-FINDING: property=%s %s" % (prop, full))
        else:
            new.append((si, i, m))
    first = None
    for k, (si, i, m) in enumerate(new[:10]):
        os.makedirs(os.path.join(verif, "replays"), exist_ok=True)
        path = os.path.join(verif, "replays", "%s-%d.json" % (prop, k))
        json.dump({"property": prop, "tier": tier, "space": sp[si].name, "case": i, "message": m,
                   "replay_cmd": "cd %s && ./check.sh %s %s %s %d" % (verif, prop, tier, sp[si].name, i)}, open(path, "w"))
        print("violation: %s case %d: %s" % (sp[si].name, i, m[:500]))
        first = first or path
    if len(sys.argv) <= 5:
        tot, rows, samples, exhaustive = [0, 0, 0, 0], [], [], not bad and err is None and len(res) == len(jobs)
        for si, s in enumerate(sp):
            steps = sum(r[si][0] for r in res if si in r)
            states = len(set().union(*[r[si][1] for r in res if si in r])) if res else 0
            cases = sum(r[si][2] for r in res if si in r)
            comp = sum(r[si][3] for r in res if si in r)
            exhaustive = exhaustive and cases == len(s.cases)
            for r in res:
                if si in r:
                    samples += r[si][4][:1]
            rows.append({"space": s.name, "bound": s.bound, "size": len(s.cases), "executed": cases, "transitions": steps, "distinct_states": states})
            tot = [tot[0] + states, tot[1] + steps, tot[2] + comp, tot[3] + cases]
            print("%s %s: executed=%d transitions=%d states=%d" % (prop, s.name, cases, steps, states))
        os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
              "coverage": {"states": tot[0], "transitions": tot[1], "traces_validated_against_impl": tot[2], "exhaustive": bool(exhaustive), "executions": tot[3], "spaces": rows, "samples": samples[:30]},
              "assumptions": ["the extension module is built for the installed interpreter with pyo3's configuration set to CPython 3.11 (the newest this pyo3 knows); the C API it uses is unchanged in 3.12",
                              "the model covers Q(sqrt 2), Q(2^(1/3)) and Q(sqrt 5); powers leaving them are skipped"],
              "wall_s": round(time.time() - t0, 3), "violations": len(new)}
        json.dump(ev, open(os.path.join(verif, "evidence", prop + ".json"), "w"), indent=1)
        print("%s: tier=%s states=%d transitions=%d exhaustive=%s wall=%.1fs" % (prop, tier, tot[0], tot[1], bool(exhaustive), time.time() - t0))
    if first:
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    if err:
        print("ERROR: " + err, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    import multiprocessing.connection

    sys.exit(main())
