"""P02: exact constant arithmetic, or an explicit overflow error."""
import ctypes, math, os, pathlib
from fractions import Fraction as F
from mpmath import mpf, mpc, mp
import pbt, wfbuild
from pbt import Reject, Violation, Stream
from wfexpr import Num, WfEval, Unstable, Undef, NotValue
from wrenfold import sym

LIB = ctypes.CDLL(str(wfbuild.compile_lib(pathlib.Path(os.environ["WF_BDIR"]), "p02.cc",
                                          ("-O1", "-fsanitize=undefined",
                                           "-fno-sanitize-recover=undefined"))))
for f, a in {"chk_op": [ctypes.c_int, ctypes.c_int64, ctypes.c_int64, ctypes.c_void_p],
             "chk_pow": [ctypes.c_int64, ctypes.c_uint64, ctypes.c_void_p],
             "chk_factors": [ctypes.c_int64, ctypes.c_void_p, ctypes.c_int],
             "chk_cmp_int_float": [ctypes.c_int64, ctypes.c_double],
             "chk_rat": [ctypes.c_int] + [ctypes.c_int64] * 4 + [ctypes.c_void_p],
             "chk_rat_cmp": [ctypes.c_int64] * 4}.items():
    getattr(LIB, f).argtypes = a
    getattr(LIB, f).restype = ctypes.c_int

MAX, MIN = 2 ** 63 - 1, -2 ** 63
RULE = ("exact/special: a random tree of constant operations, non-trivial when >= 2 operations were "
        "evaluated and compared node by node; roots: an integer/rational base with a non-integer "
        "exponent; checked/ints: one operation on 64-bit operands with a boundary or composite operand.")
ASSUMPTIONS = ["an overflow error is accepted when a cross product of the operands exceeds 64 bits",
               "Python int/Fraction/float arithmetic is the reference"]
ZOO, NAN = "zoo", "nan"


def fits(v):
    return MIN <= v <= MAX


def gen_int(s):
    k = s.draw(9)
    if k <= 4:
        return s.sint(12)
    if k == 5:
        return s.sint(1000)
    if k == 6:
        return s.choice([MAX, MIN, MAX - 1, MIN + 1, 2 ** 62, -2 ** 62, 2 ** 32, 2 ** 31, 2 ** 63 // 3,
                         3037000499, 3037000500, -3037000500])
    if k == 7:
        v = (1 << s.int(1, 62)) + s.sint(2)
        return -v if s.bool() else v
    if k == 8:
        v = 1
        while s.bool(0.8):
            n = v * s.choice([2, 3, 5, 7, 11, 13, 4, 9, 10])
            if n > MAX:
                break
            v = n
        return -v if s.bool(0.3) else v
    return s.draw(2 ** 64 - 1) + MIN


def const(fr):
    if fr == ZOO:
        return sym.zoo
    if fr == NAN:
        return sym.nan
    if fr.denominator == 1:
        return sym.integer(fr.numerator)
    return sym.rational(fr.numerator, fr.denominator)


def read(e):
    t = e.type_name
    if t == "IntegerConstant":
        return F(int(repr(e)))
    if t == "RationalConstant":
        n, d = repr(e).split("/")
        n, d = int(n), int(d)
        if d < 2 or math.gcd(n, d) != 1:
            raise Violation("rational constant is not in lowest terms", got=repr(e))
        return F(n, d)
    if t == "ComplexInfinity":
        return ZOO
    if t == "Undefined":
        return NAN
    if t == "FloatConstant":
        return e.eval()
    return t


def m_add(a, b):
    if NAN in (a, b):
        return NAN
    if a == ZOO or b == ZOO:
        return NAN if a == b else ZOO
    return a + b


def m_mul(a, b):
    if NAN in (a, b):
        return NAN
    if a == ZOO or b == ZOO:
        return NAN if a == 0 or b == 0 else ZOO
    return a * b


def m_pow(a, n):
    """n: integer."""
    if a == NAN:
        return NAN
    if a == ZOO:
        return ZOO if n > 0 else (F(0) if n < 0 else NAN)
    if a == 0:
        return F(0) if n > 0 else (ZOO if n < 0 else NAN)
    return a ** n


def crossfits(*vals):
    """True when no naive intermediate of combining these fractions can exceed 64 bits."""
    n = 1
    d = 1
    for v in vals:
        if isinstance(v, F):
            n *= abs(v.numerator) + 1
            d *= v.denominator
    return n * d < 2 ** 62


class Exact:
    def __init__(self, s, special):
        self.s, self.special, self.ops = s, special, 0

    def leaf(self):
        s = self.s
        if self.special and s.bool(0.15):
            v = s.choice([ZOO, NAN, F(0)])
            return const(v), v, repr(v)
        if s.bool(0.5):
            v = F(gen_int(s))
        else:
            n, d = gen_int(s), gen_int(s)
            if d == 0:
                d = 1
            v = F(n, d)
            if not (fits(v.numerator) and fits(v.denominator)):
                v = F(n)
            elif s.bool(0.5):
                # unreduced construction
                try:
                    return self.check("rational", lambda: sym.rational(n, d), v,
                                      fits(n) and fits(d) and n != MIN and d != MIN,
                                      f"rational({n},{d})")
                except Reject:
                    pass
        return const(v), v, str(v)

    def check(self, op, f, want, must_succeed, text):
        self.ops += 1
        try:
            e = f()
        except Exception as ex:
            if type(ex).__name__ == "ArithmeticError" and "overflow" in str(ex):
                if must_succeed:
                    raise Violation("overflow reported although everything fits in 64 bits",
                                    operation=text, expected=want, error=ex)
                raise Reject("overflow")
            raise Violation(f"{type(ex).__name__} on constant arithmetic", operation=text,
                            expected=want, error=str(ex))
        got = read(e)
        if type(got) is not type(want) or got != want:
            raise Violation("wrong constant result", operation=text, expected=want, got=repr(e),
                            type=e.type_name)
        return e, want, text

    def node(self, d):
        s = self.s
        if d == 0 or s.bool(0.1):
            return self.leaf()
        op = s.weighted([(4, "add"), (4, "mul"), (2, "sub"), (3, "div"), (3, "pow"), (1, "neg"),
                         (1, "abs"), (1, "sign"), (1, "floor"), (1, "minmax"), (1, "nary")])
        if op == "nary":
            xs = [self.node(d - 1) for _ in range(s.int(1, 4))]
            k = s.choice(["addition", "multiplication"])
            v = F(0) if k == "addition" else F(1)
            for x in xs:
                v = (m_add if k == "addition" else m_mul)(v, x[1])
            if k == "addition" and len([1 for x in xs if x[1] == ZOO]) > 1:
                v = NAN
            txt = f"{k}([{', '.join(x[2] for x in xs)}])"
            return self.check(op, lambda: getattr(sym, k)([x[0] for x in xs]), v,
                              crossfits(*[x[1] for x in xs]), txt)
        ae, av, at = self.node(d - 1)
        if op == "neg":
            return self.check(op, lambda: -ae, m_mul(F(-1), av), crossfits(av), f"-({at})")
        if op == "pow":
            n = s.choice([2, -1, 3, 0, 1, -2, 5, 10, -3, 30, 62, 63, 64, 100, -63])
            want = m_pow(av, n)
            big = isinstance(av, F) and \
                (max(abs(av.numerator), av.denominator) ** (2 * max(1, abs(n)))) >= 2 ** 62
            return self.check(op, lambda: sym.pow(ae, n), want, not big, f"({at})**{n}")
        if op in ("abs", "sign", "floor"):
            if not isinstance(av, F):
                return ae, av, at
            if op == "abs":
                return self.check(op, lambda: sym.abs(ae), abs(av),
                                  av.numerator != MIN, f"abs({at})")
            want = F(math.floor(av)) if op == "floor" else F((av > 0) - (av < 0))
            return self.check(op, lambda: getattr(sym, op)(ae), want, True, f"{op}({at})")
        be, bv, bt = self.node(d - 1)
        if op == "add":
            return self.check(op, lambda: ae + be, m_add(av, bv), crossfits(av, bv), f"({at}+{bt})")
        if op == "sub":
            return self.check(op, lambda: ae - be, m_add(av, m_mul(F(-1), bv)), crossfits(av, bv),
                              f"({at}-{bt})")
        if op == "mul":
            return self.check(op, lambda: ae * be, m_mul(av, bv), crossfits(av, bv), f"({at}*{bt})")
        if op == "div":
            return self.check(op, lambda: ae / be, m_mul(av, m_pow(bv, -1)), crossfits(av, bv),
                              f"({at}/{bt})")
        if not (isinstance(av, F) and isinstance(bv, F)):
            return ae, av, at
        k = s.choice(["min", "max"])
        return self.check(k, lambda: getattr(sym, k)(ae, be), min(av, bv) if k == "min" else
                          max(av, bv), crossfits(av, bv), f"{k}({at},{bt})")


def exact(src, ctx, special=False):
    x = Exact(src, special)
    try:
        e, v, t = x.node(src.int(1, 4))
    except Reject:
        ctx.label("overflow reported")
        if x.ops >= 2:
            ctx.mark("overflow" + str(src.rec), f"overflow after {x.ops} operations")
        return
    if x.ops >= 2:
        ctx.mark(t, f"{t} = {v}")


def special(src, ctx):
    exact(src, ctx, special=True)


def roots(src, ctx):
    """Rational powers of integers/rationals: value, and independence of how the base is factored."""
    s = src
    primes = [2, 3, 5, 7, 11, 13]

    def base(maxv):
        v = 1
        for _ in range(s.int(0, 6)):
            n = v * s.choice(primes)
            if n > maxv:
                break
            v = n
        if s.bool(0.1):
            v = s.int(1, maxv)
        return v
    n, d = base(10 ** 7), base(10 ** 4) if s.bool(0.4) else 1
    if s.bool(0.3):
        n = -n
    q = s.choice([2, 3, 4, 6, 5, 7, 8, 12])
    p = s.sint(3 * q)
    b, ex = F(n, d), F(p, q)
    text = f"({b})**({ex})"
    try:
        e = sym.pow(const(b), const(ex))
        want = Num(huge=mpf(10) ** 300).pow(mpf(b.numerator) / b.denominator, mpf(ex.numerator) / ex.denominator)
    except Exception as err:
        if type(err).__name__ == "ArithmeticError" and "overflow" in str(err):
            if max(abs(b.numerator), b.denominator) ** (abs(p) // q + q + 1) < 2 ** 62:
                raise Violation("overflow reported for a small root", expression=text)
            raise Reject("overflow")
        raise
    try:
        got = WfEval({}, Num(huge=mpf(10) ** 300))(e)
    except (NotValue, Undef) as err:
        raise Violation("root has no value", expression=text, wrenfold=e, expected=want)
    if abs(got - want) > abs(want) * mpf(10) ** -38:
        raise Violation("rational power has the wrong value", expression=text, wrenfold=e,
                        expected=want, got=got)
    # (b * k**q)**(p/q) == k**p * b**(p/q) for positive k: identical canonical forms
    k = s.choice([2, 3, 5, 6, 4])
    if abs(b.numerator) * k ** q < 10 ** 12 and abs(p) <= 2 * q and k ** (abs(p) + 1) < 10 ** 6 \
            and ex.denominator == q:
        try:
            l = sym.pow(const(b * k ** q), const(ex))
            r = sym.pow(const(F(k)), p) * e
        except Exception as err:
            if "overflow" in str(err):
                raise Reject("overflow")
            raise
        if not l.is_identical_to(r):
            lv, rv = WfEval({}, Num(huge=mpf(10) ** 300))(l), WfEval({}, Num(huge=mpf(10) ** 300))(r)
            if abs(lv - rv) > abs(lv) * mpf(10) ** -38:
                raise Violation("root of a scaled base has the wrong value", k=k, q=q, p=p, base=b,
                                left=l, right=r)
            ctx.label("scaled root: equal value, different form")
        else:
            ctx.label("scaled root identical")
    # product of several radicals keeps the value
    other = sym.pow(const(F(base(1000))), const(F(s.int(1, q), q)))
    try:
        prod = e * other
        pv = WfEval({}, Num(huge=mpf(10) ** 300))(prod)
        ov = WfEval({}, Num(huge=mpf(10) ** 300))(other)
    except Exception as err:
        if "overflow" in str(err):
            raise Reject("overflow")
        raise
    if abs(pv - got * ov) > abs(pv) * mpf(10) ** -36:
        raise Violation("product of radicals has the wrong value", a=e, b=other, product=prod)
    if e.type_name not in ("IntegerConstant", "RationalConstant"):
        ctx.mark(text + str(other), f"{text} -> {e}")


def flt(src, ctx):
    """Mixed exact/float arithmetic is IEEE double arithmetic."""
    s = src

    def fval():
        k = s.draw(4)
        if k <= 1:
            return s.sint(64) / 8.0
        if k == 2:
            return s.sint(10 ** 6) / 997.0
        if k == 3:
            return float(s.choice([1e300, 1e-300, 1e16, 2.0 ** 53, 1e-5, -1e18, 9.3e18, 5e-324]))
        return s.sint(1000) * 10.0 ** s.sint(20)
    a = fval()
    mixed = s.bool(0.5)
    if mixed:
        b = F(s.sint(10 ** 6), s.int(1, 1000))
        be, bf = const(b), (b.numerator / b.denominator)
    else:
        bf = fval()
        be = sym.float_constant(bf)
    ae = sym.float_constant(a)
    op = s.choice(["add", "mul", "sub", "div", "pow", "floor", "abs", "sign", "min", "max"])
    rev = s.bool()
    text = f"{op}({a!r}, {be}) rev={rev}"
    x, y = (bf, a) if rev else (a, bf)
    xe, ye = (be, ae) if rev else (ae, be)
    zero_exact = mixed and bf == 0
    tol = 4e-16
    try:
        if op == "add":
            want, e = x + y, xe + ye
        elif op == "sub":
            want, e = x - y, xe - ye
        elif op == "mul":
            want, e = x * y, xe * ye
        elif op == "div":
            if abs(y) < 1e-300:
                raise Reject("division by zero or a subnormal")
            want, e = x / y, xe / ye
        elif op == "pow":
            if x == 0 and y <= 0 or x < 0 and y != int(y):
                raise Reject("pow domain")
            want, e = math.pow(x, y), sym.pow(xe, ye)
        elif op == "floor":
            want, e = float(math.floor(a)), sym.floor(ae)
            if abs(a) >= 2.0 ** 63:
                raise Reject("floor out of 64-bit range")
        elif op == "abs":
            want, e = abs(a), sym.abs(ae)
        elif op == "sign":
            want, e = float((a > 0) - (a < 0)), sym.sign(ae)
        else:
            want, e = (min if op == "min" else max)(x, y), getattr(sym, op)(xe, ye)
    except OverflowError:
        raise Reject("float overflow")
    if not math.isfinite(want):
        raise Reject("float overflow")
    if op in ("min", "max") and mixed and e.type_name == "Conditional":
        # rational/float comparisons are left symbolic (only integer/float are decided)
        c, ta, tb = e.args
        rat = lambda q: mpf(q.eval()) if q.type_name != "RationalConstant" else \
            mpf(F(repr(q)).numerator) / F(repr(q)).denominator
        l, r_ = [rat(q) for q in c.args]
        e = ta if (l < r_ if " < " in repr(c) else l <= r_) else tb
        ctx.label("mixed min/max left symbolic")
    if e.type_name == "RationalConstant" and (op in ("min", "max") or a == 0):
        r = float(F(repr(e)))
    else:
        try:
            r = e.eval()
        except Exception as err:
            raise Violation("constant arithmetic did not produce a number", operation=text, got=e,
                            error=err)
    if isinstance(r, sym.Expr):
        raise Violation("constant arithmetic did not produce a number", operation=text, got=e)
    if isinstance(r, complex) or abs(r - want) > tol * abs(want) + (1e-320 if want else 0):
        if abs(want) < 1e-300:
            raise Reject("subnormal")
        raise Violation("float arithmetic differs from IEEE double arithmetic", operation=text,
                        expected=want, got=r)
    if want != 0 and not zero_exact:
        ctx.mark(text, f"{text} = {want}")


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def ints(src, ctx):
    """The 64-bit checked integer and rational layer, driven directly."""
    s = src
    out = (ctypes.c_int64 * 64)()
    k = s.weighted([(6, "op"), (2, "pow"), (2, "factors"), (3, "cmpf"), (5, "rat"), (3, "ratcmp")])
    if k == "op":
        op = s.draw(11)
        a, b = gen_int(s), gen_int(s)
        o = {8: 0, 9: 1, 10: 2, 11: 3}.get(op, op)
        if o in (3, 4) and b == 0:
            want = None
        elif o == 4 and b == -1 and a == MIN:
            want = None
        else:
            want = [lambda: a + b, lambda: a - b, lambda: a * b, lambda: tdiv(a, b),
                    lambda: a - b * tdiv(a, b), lambda: -a, lambda: abs(a),
                    lambda: None if MIN in (a, b) else math.gcd(a, b)][o]()
        if want is not None and not fits(want):
            want = None
        st = LIB.chk_op(op, a, b, out)
        if (st == 1) != (want is None) or (st == 0 and out[0] != want):
            raise Violation("checked integer operation is wrong", op=op, a=a, b=b, expected=want,
                            got="raised" if st else out[0])
        ctx.mark(("op", op, a, b), f"op{op}({a},{b}) -> {want}")
    elif k == "pow":
        b, e = gen_int(s), s.int(0, 70)
        # squaring once past the last used bit is allowed to be skipped; the result alone decides
        want = b ** e
        st = LIB.chk_pow(b, e, out)
        if st == 0 and out[0] != want or st == 1 and fits(want):
            raise Violation("integer power is wrong", base=b, exponent=e, expected=want,
                            got="raised" if st else out[0])
        ctx.mark(("pow", b, e), f"{b}**{e}")
    elif k == "factors":
        n = gen_int(s)
        if abs(n) > 10 ** 13:
            n = n % 10 ** 9
        c = LIB.chk_factors(n, out, 64)
        if n == 0:
            if c != 0:
                raise Violation("zero has prime factors")
            return
        prod, last = 1, -2
        for i in range(c):
            p, e = out[2 * i], out[2 * i + 1]
            if e < 1 or p == 1 or p == 0 or (p < 0 and (p, e, i) != (-1, 1, 0)) or p <= last or \
                    (p > 1 and any(p % q == 0 for q in range(2, min(p, 2000)))):
                raise Violation("bad prime factorization", n=n, factors=list(out[:2 * c]))
            last = p
            prod *= p ** e
        if prod != n:
            raise Violation("prime factors do not multiply back", n=n, factors=list(out[:2 * c]))
        ctx.mark(("f", n), f"factors({n})")
    elif k == "cmpf":
        i = gen_int(s)
        m = s.draw(4)
        f = float(i) if m <= 1 else (math.nextafter(float(i), s.choice([math.inf, -math.inf]))
                                     if m == 2 else (i + 0.5 if m == 3 else s.choice(
                                         [math.inf, -math.inf, math.nan, 2.0 ** 63, -2.0 ** 63,
                                          0.5, -0.5, 1e300, -1e300, 0.0])))
        want = 2 if math.isnan(f) else ((i > f) - (i < f))
        got = LIB.chk_cmp_int_float(i, f)
        if got != want:
            raise Violation("integer/float comparison is wrong", i=i, f=f, expected=want, got=got)
        ctx.mark(("c", i, f), f"cmp({i},{f})")
    else:
        q = []
        for _ in range(2):
            n, d = gen_int(s), gen_int(s)
            if s.bool(0.5):
                n, d = s.sint(40), s.int(1, 40)
            q += [n, d or 1]
        an, ad, bn, bd = q
        if k == "ratcmp":
            for v in q:
                if v == MIN:
                    raise Reject("INT64_MIN")
            a, b = F(an, ad), F(bn, bd)
            got = LIB.chk_rat_cmp(an, ad, bn, bd)
            want = (8 if a < b else 16 if a == b else 32) | (4 if a == b else 0) | \
                (64 if abs(a) < 1 else 0)
            if got & 128:
                if crossfits(a, b):
                    raise Violation("rational comparison reports overflow", a=a, b=b)
                got &= ~128
            else:
                want |= (1 if a < b else 0) | (2 if a > b else 0)
            if got != want:
                raise Violation("rational comparison is wrong", a=a, b=b, expected=want, got=got)
            ctx.mark(("rc", q), f"{a} <=> {b}")
            return
        op = s.draw(6)
        a, b = F(an, ad), F(bn, bd)
        if op in (3, 4) and b == 0:
            raise Reject("division by zero")       # excluded by every caller
        st = LIB.chk_rat(op, an, ad, bn, bd, out)
        want = None
        if op == 0:
            want = a + b
        elif op == 1:
            want = a - b
        elif op == 2:
            want = a * b
        elif op == 3:
            want = a / b if b else None
        elif op == 4:
            if b:
                quo = a / b
                want = F(quo.numerator - quo.denominator * tdiv(quo.numerator, quo.denominator),
                         quo.denominator)
        elif op == 5:
            want = a - 2 * math.floor((a + 1) / 2)      # (-1, 1]
            if want == -1:
                want = F(1)
        else:
            i = tdiv(a.numerator, a.denominator)
            want = a - i
        if st == 1:
            if want is None or MIN in q or not crossfits(a, b):
                return
            raise Violation("rational operation raised", op=op, a=a, b=b, expected=want)
        if want is None or (out[0], out[1]) != (want.numerator, want.denominator) or \
                (op == 6 and out[2] != i):
            raise Violation("rational operation is wrong", op=op, a=a, b=b, expected=want,
                            got=(out[0], out[1]))
        ctx.mark(("r", op, q), f"rat op{op}({a},{b})={want}")


def streams():
    return [Stream("exact", exact, 120000, 4000000), Stream("special", special, 60000, 1500000),
            Stream("roots", roots, 60000, 1500000), Stream("floats", flt, 60000, 1000000),
            Stream("ints", ints, 200000, 5000000)]
