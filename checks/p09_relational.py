"""P09: comparisons, booleans and conditionals."""
from fractions import Fraction as F
import math, random
from mpmath import mpf, mp
import wfexpr
import p01_value as p01
from p05_substitution import nodes, finite, lib, ERRS, Quiet, p01_compare
from pbt import Reject, Violation, Stream
from wfexpr import (Gen, Builder, Num, Ref, WfEval, make_symbols, show, size, syms_in, draw_point,
                    split_top, kinds, Undef, Unstable, NotValue, has_float, SETS)
from pywrenfold import exceptions
from wrenfold import sym
from wrenfold.enumerations import NumberSet

RULE = ("constants: the two operands differ by less than 1e-6 relative, or mix integer/float/symbolic "
        "kinds, and a decision was made; exact: the tree has >= 2 conditional nodes and was evaluated "
        "exactly at >= 1 point where some comparison was a tie or two branches differed; decided: the "
        "operands contain symbols with number sets; matrices: both branches differ.")
ASSUMPTIONS = ["relationals that the library leaves symbolic are judged through their truth value at "
               "sampled assignments; which constant pairs are decided is not part of the property "
               "beyond integer/rational/float pairs of the same kind and integer-float pairs"]
SYMS = make_symbols(sym, NumberSet)
OPS = {"<": sym.lt, "<=": sym.le, "==": sym.eq, ">": sym.gt, ">=": sym.ge}
I64 = 2 ** 63


def holds(op, a, b):
    return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b}[op]


# ------------------------------------------------------------------ constants
def near(s, v):
    """A constant close to (or at) the value v: (python exact value, expr, kind)."""
    k = s.weighted([(4, "int"), (4, "flt"), (3, "rat"), (1, "sym")])
    if k == "int":
        n = math.floor(v) + s.sint(2)
        n = max(-I64 + 1, min(I64 - 1, n))
        return F(n), sym.integer(n), k
    if k == "flt":
        f = float(v)
        for _ in range(s.draw(3)):
            f = math.nextafter(f, math.inf if s.bool() else -math.inf)
        if not math.isfinite(f):
            raise Reject("not finite")
        return F(f), sym.float_constant(f), k
    if k == "rat":
        q = s.int(1, s.choice([3, 50, 10 ** 6, 10 ** 12]))
        n = math.floor(v * q) + s.sint(2)
        if abs(n) >= I64:
            raise Reject("range")
        f = F(n, q)
        return f, sym.rational(n, q), "int" if f.denominator == 1 else k
    c = s.choice(["pi", "E"])
    return None, {"pi": sym.pi, "E": sym.E}[c], "sym:" + c


def centre(s):
    k = s.draw(5)
    if k == 0:
        return F(s.sint(20))
    if k == 1:
        return F(s.sint(1000), s.int(1, 64))
    if k == 2:
        return F(s.choice([2 ** 53, 2 ** 53 + 1, 2 ** 54, 2 ** 62, 2 ** 63 - 1, -2 ** 63 + 1,
                           -2 ** 53 - 1, 2 ** 63, 2 ** 63 - 512, -2 ** 63, 2 ** 60 + 1]))
    if k == 3:
        return F(s.choice([3, 3, 2])) + F(s.choice([14159265358979311600, 14159265, 71828182845904509,
                                                    718281828, 0]), 10 ** s.choice([20, 8, 17, 9]))
    if k == 4:
        return F(s.draw(2 ** 63 - 1)) * (1 if s.bool() else -1)
    e = s.int(0, 300)
    return F(s.sint(99)) * (F(10) ** (e - 200) if s.bool() else F(2) ** (e - 150))


def exactly(c, v):
    if v is not None:
        return v
    return F(str(mp.nstr({"pi": mp.pi, "E": mp.e}[c.split(":")[1]] + 0, 45)))


def constants(src, ctx):
    s = src
    v = centre(s)
    a, ea, ka = near(s, v)
    b, eb, kb = near(s, v)
    op = s.choice(list(OPS))
    form = s.draw(2)
    try:
        if form == 0 or kb.startswith("sym") or kb == "rat":
            r = OPS[op](ea, eb)
        else:
            p = int(b) if kb == "int" else float(b)
            if op == "==":
                r = OPS[op](ea, p)
            elif form == 1:
                r = {"<": lambda: ea < p, "<=": lambda: ea <= p, ">": lambda: ea > p,
                     ">=": lambda: ea >= p}[op]()
            else:
                r = {"<": lambda: p < eb, "<=": lambda: p <= eb, ">": lambda: p > eb,
                     ">=": lambda: p >= eb}[op]() if ka == "x" else OPS[op](ea, p)
    except ERRS as ex:
        if "overflow" in str(ex):
            raise Reject("overflow reported")       # cross products of rationals, see P02
        raise Violation("comparison of constants raised", a=ea, b=eb, op=op, error=str(ex)[:200])
    xa, xb = exactly(ka, a), exactly(kb, b)
    truth = holds(op, xa, xb) if not (ka == kb and ka.startswith("sym")) else op not in ("<", ">")
    if r.type_name == "BooleanConstant":
        if bool(r) != truth:
            raise Violation("wrong decision between constants", a=ea, b=eb, op=op, got=r, want=truth,
                            kinds=(ka, kb))
        must = True
    else:
        same = ka == kb or {ka, kb} <= {"int", "rat"} or {ka, kb} == {"int", "flt"}
        if same:
            raise Violation("comparison of comparable constants was not decided", a=ea, b=eb, op=op)
        got = lib(lambda: sym.where(r, 1, 0))
        if got.type_name != "Conditional":
            raise Violation("undecided condition dropped a branch", cond=r, got=got)
        w = split_top(repr(r))
        if w not in ("<", "<=", "=="):
            raise Violation("unexpected relational form", rel=r)
        l, h = r.args
        lv, hv = (xa, xb) if (l.is_identical_to(ea) and h.is_identical_to(eb)) else \
            (xb, xa) if (l.is_identical_to(eb) and h.is_identical_to(ea)) else (None, None)
        if lv is None or holds(w, lv, hv) != truth:
            raise Violation("undecided comparison changed its meaning", a=ea, b=eb, op=op, got=r)
        return
    # the conditional operations on the same constants
    mx, mn = sym.max(ea, eb), sym.min(ea, eb)
    hi, lo = (eb, ea) if xa < xb else (ea, eb), None
    hi, lo = ((eb, ea) if xa < xb else (ea, eb))
    if mx.type_name != "Conditional":
        if not (mx.is_identical_to(hi) or (xa == xb and mx.is_identical_to(lo))):
            raise Violation("max of constants", a=ea, b=eb, got=mx)
        if not (mn.is_identical_to(lo) or (xa == xb and mn.is_identical_to(hi))):
            raise Violation("min of constants", a=ea, b=eb, got=mn)
    w = sym.where(r, ea, eb)
    if not w.is_identical_to(ea if truth else eb):
        raise Violation("where() on a decided condition", cond=r, got=w)
    if not sym.iverson(r).is_identical_to(sym.integer(1 if truth else 0)):
        raise Violation("iverson() of a decided condition", cond=r)
    if ka != kb or xa == xb or abs(xa - xb) <= F(1, 10 ** 6) * max(abs(xa), abs(xb)):
        ctx.mark((ka, kb, op, str(xa), str(xb)), f"{ea!r} {op} {eb!r} -> {r!r}")


# ------------------------------------------------------------------ exact evaluation with ties
class NoValue(Exception):
    pass


def tree(s, d, names):
    k = s.weighted([(3, "leaf"), (3, "add"), (3, "mul"), (1, "sub"), (1, "pow"), (2, "abs"),
                    (1, "sign"), (1, "floor"), (4, "where"), (3, "min"), (3, "max"), (3, "iv")]) \
        if d > 0 else "leaf"
    if k == "leaf":
        return ("sym", s.choice(names)) if s.bool(0.7) else \
            s.choice([("int", s.sint(3)), ("rat", s.sint(5), s.int(2, 4))])
    r = lambda: tree(s, d - 1, names)
    if k in ("add", "mul"):
        return (k,) + tuple(r() for _ in range(s.int(2, 3)))
    if k == "sub":
        return (k, r(), r())
    if k == "pow":
        return (k, r(), ("int", s.choice([2, 3])))
    if k in ("abs", "sign", "floor"):
        return ("fn", k, r())
    if k == "where":
        return ("where", boolean(s, d - 1, names), r(), r())
    if k == "iv":
        return ("iv", boolean(s, d - 1, names))
    return (k, r(), r())


def boolean(s, d, names):
    return ("cmp", s.choice(list(OPS)), tree(s, d, names), tree(s, d, names))


def ev(t, env, st):
    op = t[0]
    if op == "sym":
        return env[t[1]]
    if op == "int":
        return F(t[1])
    if op == "rat":
        return F(t[1], t[2])
    if op == "where":
        c = ev(t[1], env, st)
        a, b = ev(t[2], env, st), ev(t[3], env, st)
        st["differ"] |= a != b
        return a if c else b
    if op == "fn":
        a = ev(t[2], env, st)
        return {"abs": abs(a), "floor": F(math.floor(a)),
                "sign": F((a > 0) - (a < 0))}[t[1]]
    if op == "cmp":
        x, y = ev(t[2], env, st), ev(t[3], env, st)
        st["tie"] |= x == y
        return holds(t[1], x, y)
    a = [ev(x, env, st) for x in t[1:]]
    if op == "add":
        return sum(a)
    if op == "mul":
        return math.prod(a)
    if op == "sub":
        return a[0] - a[1]
    if op == "pow":
        return a[0] ** int(a[1])
    if op == "iv":
        return F(int(a[0]))
    st["tie"] |= a[0] == a[1]
    st["differ"] |= a[0] != a[1]
    return min(a) if op == "min" else max(a)


def wev(e, env, memo):
    if e in memo:
        return memo[e]
    t = e.type_name
    if t in ("IntegerConstant", "RationalConstant"):
        r = F(repr(e))
    elif t == "Variable":
        r = env[repr(e)]
    elif t == "BooleanConstant":
        r = bool(e)
    elif t == "Conditional":
        c, a, b = e.args
        r = wev(a, env, memo) if wev(c, env, memo) else wev(b, env, memo)
    else:
        a = [wev(x, env, memo) for x in e.args]
        if t == "Addition":
            r = sum(a)
        elif t == "Multiplication":
            r = math.prod(a)
        elif t == "Power":
            if a[1].denominator != 1:
                raise NoValue("fractional power")
            if a[0] == 0 and a[1] <= 0:
                raise NoValue("0**nonpositive")
            r = a[0] ** int(a[1])
        elif t == "Relational":
            r = holds(split_top(repr(e)), *a)
        elif t == "IversonBracket":
            r = F(int(a[0]))
        elif t == "BuiltInFunctionInvocation":
            n = repr(e).split("(", 1)[0]
            r = {"abs": lambda: abs(a[0]), "floor": lambda: F(math.floor(a[0])),
                 "sign": lambda: F((a[0] > 0) - (a[0] < 0))}[n]()
        else:
            raise NoValue(t)
    memo[e] = r
    return r


NAMES = ["x", "y", "p", "n", "u"]


def point(s, names):
    """Small, often coinciding values in each symbol's set."""
    env = {}
    pool = [F(0), F(1), F(-1), F(2), F(1, 2), F(-1, 2), F(3), F(-2), F(5, 3)]
    for n in names:
        v = s.choice(pool)
        if SETS[n] == "positive":
            v = abs(v) or F(1)
        elif SETS[n] == "nonneg":
            v = abs(v)
        env[n] = v
    return env


def exact(src, ctx):
    """Value of conditional/min/max/relational trees at exact points, ties included; both by walking
    the expression and by substituting the numbers."""
    s = src
    names = s.perm(NAMES)[:s.int(2, 3)]
    t = tree(s, s.int(1, 4), names) if s.bool(0.8) else boolean(s, s.int(1, 3), names)
    isb = t[0] == "cmp"
    e = lib(lambda: Builder(sym, SYMS)(t))
    nconds = sum(1 for nd in str(t).split("'") if nd in ("where", "min", "max", "iv", "cmp"))
    hit = False
    for _ in range(4):
        env = point(s, names)
        st = {"tie": False, "differ": False}
        want = ev(t, env, st)
        try:
            got = wev(e, env, {})
        except NoValue as ex:
            if "fractional" in str(ex) or "0**" in str(ex):
                raise Reject(str(ex))
            raise Violation("unexpected node", tree=show(t), expr=e, node=str(ex))
        if got != want:
            raise Violation("value differs at an exact point", tree=show(t), expr=e, env=env, want=want,
                            got=got)
        order = s.perm(names)
        try:
            sub = e.subs([(SYMS[n], sym.rational(env[n].numerator, env[n].denominator))
                          for n in order])
        except ERRS as ex:
            # a branch that is not selected may have no value after substitution
            ctx.label("subs raised")
            continue
        if isb:
            if sub.type_name != "BooleanConstant" or bool(sub) != want:
                raise Violation("substituting numbers into a relational does not decide it",
                                tree=show(t), expr=e, env=env, got=sub, want=want)
        elif sub.type_name not in ("IntegerConstant", "RationalConstant") or F(repr(sub)) != want:
            raise Violation("substituting numbers does not select the branch", tree=show(t), expr=e,
                            env=env, got=sub, want=want)
        hit |= st["tie"] or st["differ"]
    if hit and nconds >= 2:
        ctx.mark((show(t),), show(t))


# ------------------------------------------------------------------ decisions on symbolic operands
def decided(src, ctx):
    """Any decision made on symbolic operands must hold at every sampled assignment."""
    s = src
    g = Gen(s, syms=("x", "p", "n", "q", "y"), cond=0.1,
            fun_names=["abs", "sign", "floor", "exp", "cosh", "sqrt", "cos", "sinh", "log", "atan"])
    a = g.expr(s.int(1, 3))
    k = s.draw(4)
    if k == 0:
        b = a
    elif k == 1:
        b = ("int", s.choice([0, 0, 1, -1]))
    elif k == 2:
        b = ("add", a, g.number())
    elif k == 3:
        b = ("mul", a, g.number())
    else:
        b = g.expr(s.int(1, 2))
    op = s.choice(list(OPS))
    if s.bool():
        a, b = b, a
    bl = Builder(sym, SYMS)
    ea, eb = lib(lambda: (bl(a), bl(b)))
    try:
        r = OPS[op](ea, eb)
    except ERRS:
        raise Reject("library error")
    # the derived spellings agree with each other
    if op in (">", ">="):
        if not r.is_identical_to(OPS[{">": "<", ">=": "<="}[op]](eb, ea)):
            raise Violation("a > b differs from b < a", a=ea, b=eb)
    if op == "==" and not r.is_identical_to(sym.eq(eb, ea)):
        raise Violation("eq(a, b) differs from eq(b, a)", a=ea, b=eb)
    t = ("iv", ("cmp", op, a, b))
    names = sorted(syms_in(t))
    if not names:
        raise Reject("no symbols")
    n = p01_compare(t, sym.iverson(r), s, ctx, True, npts=4)
    if n:
        ctx.label("decided" if r.type_name == "BooleanConstant" else "symbolic")
        ctx.mark((show(t),), f"{show(t)} -> {r!r}")


def laws(src, ctx):
    """Form of where/min/max/iverson on symbolic operands."""
    s = src
    g = Gen(s, syms=("x", "p", "u", "y"), cond=0.2)
    b = Builder(sym, SYMS)
    t1, t2 = g.expr(s.int(0, 2)), g.expr(s.int(0, 2))
    cnd = ("cmp", s.choice(list(OPS)), g.expr(s.int(0, 2)), g.expr(s.int(0, 2)))
    e1, e2, c = lib(lambda: (b(t1), b(t2), b(cnd)))
    for x in (e1, e2, c):
        finite(x)

    def same(a, bb, what):
        if not a.is_identical_to(bb):
            raise Violation(what, e1=e1, e2=e2, cond=c, got=a, want=bb)

    same(sym.where(sym.true, e1, e2), e1, "where(true, a, b)")
    same(sym.where(sym.false, e1, e2), e2, "where(false, a, b)")
    same(sym.where(c, e1, e1), e1, "where(c, a, a)")
    same(sym.iverson(sym.true), sym.integer(1), "iverson(true)")
    same(sym.iverson(sym.false), sym.integer(0), "iverson(false)")
    w = sym.where(c, e1, e2)
    if c.type_name == "BooleanConstant":
        same(w, e1 if bool(c) else e2, "where() on a decided condition")
    else:
        same(w.subs(c, sym.true), e1.subs(c, sym.true), "substituting true selects the first branch")
        same(w.subs(c, sym.false), e2.subs(c, sym.false), "substituting false selects the second")
        try:
            bool(c)
        except ERRS:
            pass
        else:
            raise Violation("an undecided relational converted to bool", cond=c)
        ctx.mark((repr(w),), f"{w!r}")


def matrices(src, ctx):
    s = src
    g = Gen(s, syms=("x", "p", "y"), cond=0.1)
    n, m = s.int(1, 3), s.int(1, 3)
    b = Builder(sym, SYMS)
    A, B = lib(lambda: ([b(g.expr(1)) for _ in range(n * m)], [b(g.expr(1)) for _ in range(n * m)]))
    cnd = g.boolean(1)
    c = lib(lambda: b(cnd))
    MA = sym.matrix([A[i * m:(i + 1) * m] for i in range(n)])
    MB = sym.matrix([B[i * m:(i + 1) * m] for i in range(n)])
    if s.bool(0.2):
        n2, m2 = s.int(1, 3), s.int(1, 3)
        if (n2, m2) == (n, m):
            raise Reject("same shape")
        other = sym.zeros(n2, m2)
        for call in (lambda: sym.where(c, MA, other), lambda: sym.where(c, other, MA)):
            try:
                r = call()
            except ERRS + (exceptions.DimensionError,):
                continue
            raise Violation("where() accepted matrices of different shapes", a=MA, b=other, got=r)
        ctx.mark((repr(MA), n2, m2), f"shape mismatch {MA.shape} {(n2, m2)}")
        return
    try:
        w = sym.where(c, MA, MB)
    except ERRS as ex:
        raise Violation("where() on matrices raised", cond=c, a=MA, b=MB, error=str(ex)[:200])
    if w.shape != (n, m):
        raise Violation("where() changed the shape", cond=c, a=MA, b=MB, got=w)
    for i, (x, y, z) in enumerate(zip(A, B, w.to_flat_list())):
        want = sym.where(c, x, y)
        if not z.is_identical_to(want):
            raise Violation("where() on matrices differs from its entries", cond=c, a=MA, b=MB, entry=i,
                            got=z, want=want)
    if not MA.is_identical_to(MB):
        ctx.mark((repr(w),), f"{w!r}")


def infinite(src, ctx):
    """Complex infinity and undefined operands are refused, never decided."""
    s = src
    g = Gen(s, syms=("x", "p"), cond=0.1)
    e = lib(lambda: Builder(sym, SYMS)(g.expr(s.int(0, 2))))
    bad = s.choice([sym.zoo, sym.nan])
    a, b = (bad, e) if s.bool() else (e, bad)
    op = s.choice(list(OPS))
    try:
        r = OPS[op](a, b)
    except ERRS:
        ctx.mark((repr(a), repr(b), op), f"{a!r} {op} {b!r} refused")
        return
    raise Violation("relational on an infinite/undefined operand", a=a, b=b, op=op, got=r)


KNOWN = {}


def streams():
    return [Stream("constants", constants, 120000, 3000000), Stream("exact", exact, 40000, 1000000),
            Stream("decided", decided, 40000, 1000000), Stream("laws", laws, 20000, 400000),
            Stream("matrices", matrices, 8000, 150000), Stream("infinite", infinite, 3000, 30000)]
