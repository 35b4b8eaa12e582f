"""P04: derivatives equal the true derivative."""
import re
import mpmath
from mpmath import mpf, mp
import wfexpr
from pbt import Reject, Violation, Stream
from wfexpr import (Gen, Builder, Num, Ref, WfEval, make_symbols, show, size, syms_in, kinds,
                    draw_point, Undef, Unstable, NotValue, has_float, isreal)
from wrenfold import sym
from wrenfold.enumerations import NumberSet

RULE = ("scalar/functions/wrt: the derivative was compared at >= 1 point and the tree has >= 4 nodes and "
        "contains the variable; matrices: a Jacobian/derivative with >= 2 entries depending on the "
        "variables was compared entry by entry.")
ASSUMPTIONS = ["points near kinks, jumps, poles and branch cuts are skipped; the derivative across a "
               "jump of a conditional is by design that of the active branch",
               "complex intermediate values are skipped (abs is real-differentiable only)"]
PREC = 420
H = mpf(10) ** -30
SYMS = make_symbols(sym, NumberSet)


class NumD(Num):
    """Real-valued domain, away from non-differentiable points."""
    near = mpf(10) ** -9

    def chk(self, v):
        v = super().chk(v)
        if not isreal(v):
            raise Reject("complex value")
        return v

    def add(self, vals):
        m = max(abs(v) for v in vals)
        t = mpmath.fsum(vals)
        return self.chk(mpf(0) if abs(t) < mpf(10) ** -100 * m else t)

    def pow(self, b, e):
        if not (isreal(e) and e == int(e) and abs(e) < 2 ** 20):
            if b < self.near:
                raise Reject("non-integer power of a non-positive number")
        elif abs(b) < self.near:
            raise Unstable("power of zero")     # 0**e is singular in e
        return super().pow(b, e)

    def fn(self, name, a):
        x = a[0]
        if name in ("abs", "sign") and abs(x) < self.near:
            raise Unstable("kink")
        if name == "floor" and abs(x - mp.nint(x)) < self.near:
            raise Unstable("kink")
        if name in ("log", "sqrt") and x < self.near:
            raise Reject("log/sqrt of a non-positive number")
        if name in ("acos", "asin", "atanh") and abs(x) > 1 - self.near:
            raise Reject("outside the real domain")
        if name == "acosh" and x < 1 + self.near:
            raise Reject("outside the real domain")
        if name == "atan2":
            if a[0] ** 2 + a[1] ** 2 < self.near or a[1] < 0 and abs(a[0]) < self.near:
                raise Unstable("atan2 cut")
        return super().fn(name, a)

    def cmp(self, op, a, b):
        if abs(a - b) < self.near * max(abs(a), abs(b), 1):
            raise Unstable("tie")
        return super().cmp(op, a, b)


def ufun(name, args):
    """A concrete smooth function for each (name, arity)."""
    k = {"f": 3, "g": 5, "h": 7}[name]
    lin = mpf(0)
    q = mpf(0)
    for i, a in enumerate(args):
        lin += a * mpf(k + 2 * i) / 11
        q += a * a * mpf(2 * k - i) / 13
        for b in args[:i]:
            q += a * b * mpf(k + i) / 17
    return q - lin + mp.sin(lin)


class RefD(Ref):
    """Tree evaluation; `stop` nodes hold the value at the unperturbed point."""
    base = None

    def ev(self, t):
        if t[0] == "stop":
            return (self.base or self)(t[1])
        if t[0] == "ufun":
            return self.num.chk(ufun(t[1], [self(a) for a in t[2:]]))
        if t[0] == "subst":
            e = dict(self.env)
            e[t[2][1]] = self(t[3])
            r = RefD(e, self.num)
            if self.base is not None:
                # values held by a stop node inside the substitution: same binding, base point
                eb = dict(self.base.env)
                eb[t[2][1]] = self.base(t[3])
                r.base = RefD(eb, self.num)
            return r(t[1])
        return super().ev(t)


class EvalD(WfEval):
    def __init__(self, env, num, over=None, base=None):
        super().__init__(env, num)
        self.over = over or {}
        self.base = base        # evaluator at the undisturbed point, for StopDerivative

    def __call__(self, e):
        if self.over and e in self.over:
            return self.over[e]
        return super().__call__(e)

    def ev(self, e):
        t = e.type_name
        if t == "SymbolicFunctionInvocation":
            return self.num.chk(ufun(repr(e).split("(", 1)[0], [self(a) for a in e.args]))
        if t == "Substitution":
            inp, target, rep = e.args
            over = dict(self.over)
            over[target] = self(rep)
            base = None
            if self.base is not None:
                bo = dict(self.base.over)
                bo[target] = self.base(rep)
                base = EvalD(self.env, self.num, bo)
            return EvalD(self.env, self.num, over, base)(inp)
        if t == "StopDerivative" and self.base is not None:
            return self.base(e.args[0])
        if t == "Derivative":
            f, v = e.args
            m = re.search(r", (\d+)\)$", repr(e))
            n = int(m.group(1)) if m else 1

            def at(x):
                over = dict(self.over)
                over[v] = x
                return EvalD(self.env, self.num, over, self.base or self)(f)
            return fd(at, self(v), n)
        return super().ev(e)


def fd(f, x, n):
    if n == 1:
        return (f(x + H) - f(x - H)) / (2 * H)
    if n == 2:
        return (f(x + H) - 2 * f(x) + f(x - H)) / H ** 2
    if n == 3:
        return (f(x + 2 * H) - 2 * f(x + H) + 2 * f(x - H) - f(x - 2 * H)) / (2 * H ** 3)
    raise Reject("order")


SKIP = (Undef, Unstable, Reject, ZeroDivisionError)


def ref_derivative(t, env, name, n, num):
    base = RefD(env, num)
    base(t)

    def at(x):
        e = dict(env)
        e[name] = x
        r = RefD(e, num)
        r.base = base
        return r(t)
    return fd(at, env[name], n)


def log_negative(t, env):
    """Finding log-claimed-positive: a log of a positive symbol with a negative value."""
    ref = RefD(env, NumD())
    found = []

    def walk(t):
        if t[0] == "fn" and t[1] == "log":
            try:
                if ref(t) < 0:
                    found.append(1)
            except SKIP:
                found.append(1)
        for a in t:
            if isinstance(a, tuple):
                walk(a)
    walk(t)
    return bool(found)


def judge(t, d, env, wfenv, name, n, ctx, what, over=None, extra=None):
    """Compare the wrenfold derivative d with the numeric derivative of tree t at env."""
    num = NumD()
    try:
        ref = ref_derivative(t, env, name, n, num)
    except SKIP as e:
        ctx.label("point:" + (str(e) or type(e).__name__)[:30])
        return False
    num2 = NumD()
    try:
        got = EvalD(wfenv, num2, over)(d)
    except (Unstable, Reject) as e:
        ctx.label("result:" + str(e)[:30])
        return False
    except (Undef, NotValue, ZeroDivisionError) as e:
        if "log" in kinds(t) and log_negative(t, env):
            ctx.label("known-finding:log-claimed-positive")
            return False
        raise Violation("derivative has no value where the expression is differentiable",
                        tree=show(t), wrt=name, order=n, derivative=d, env=env, expected=ref,
                        problem=repr(e), **(extra or {}))
    tol = mpf(10) ** -15 * (1 + abs(ref) + num2.maxabs)
    if abs(ref) > mpf(10) ** 14:
        return False
    if abs(ref - got) > tol:
        if "log" in kinds(t) and log_negative(t, env):
            ctx.label("known-finding:log-claimed-positive")
            return False
        raise Violation(what, tree=show(t), wrt=name, order=n, derivative=d, env=env, expected=ref,
                        got=got, **(extra or {}))
    return True


def points(s, names, k):
    return [draw_point(s, names) for _ in range(k)]


FN = [f for f in wfexpr.FUN1]
REALS = ("x", "y", "p")


def setprec(f):
    def g(src, ctx):
        old = mp.prec
        mp.prec = PREC
        try:
            return f(src, ctx)
        except wfexpr.wf_errors() as e:
            if "overflow" in str(e):
                raise Reject("overflow")
            raise
        finally:
            mp.prec = old
    return g


def gen(s, **kw):
    return Gen(s, REALS, share=0.3, cond=0.25, wrap=True, consts=0.04, **kw)


def build(t, symbols=SYMS):
    e = Builder(sym, symbols, True)(t)
    if has_float(e):
        raise Reject("folded to float")
    return e


def diffs(e, v, n, abstract):
    return e.diff(v, n, use_abstract=abstract)


@setprec
def scalar(src, ctx):
    s = src
    t = gen(s).expr(s.int(1, 4))
    name = s.choice(REALS)
    n = s.weighted([(6, 1), (2, 2), (1, 3)])
    abstract = s.bool(0.2)
    if name not in syms_in(t) and s.bool(0.9):
        names = sorted(syms_in(t))
        if not names:
            raise Reject("no variables")
        name = s.choice(names)
    e = build(t)
    if any(k in repr(e) for k in ("zoo", "nan")):
        raise Reject("infinite")
    v = SYMS[name]
    d = diffs(e, v, n, abstract)
    if n > 1 and s.bool(0.5):
        # repeated first derivatives are the same derivative
        d = e
        for _ in range(n):
            d = diffs(d, v, 1, abstract)
    ok = 0
    for env in points(s, sorted(syms_in(t) | {name}), 2):
        ok += judge(t, d, env, env, name, n, ctx, "derivative has the wrong value")
    if ok and size(t) >= 4 and name in syms_in(t):
        ctx.mark((show(t), name, n), f"d^{n}/d{name}^{n} {show(t)} -> {repr(d)[:200]}")


ANALYTIC = ["cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh",
            "atanh", "log", "sqrt", "exp"]


@setprec
def analytic(src, ctx):
    """Analytic functions at complex points (and on the whole real line), away from branch cuts."""
    s = src
    g = Gen(s, ["z", "u", "w"], share=0.2, cond=0.0, minmax=False, iv=False, wrap=False, consts=0.05,
            I=s.bool(0.3), fun_names=ANALYTIC, special=False)
    name = s.choice(["z", "u", "w"])
    if s.bool(0.5):
        t = ("fn", s.choice(ANALYTIC), g.expr(s.int(0, 1)) if s.bool(0.6) else ("sym", name))
    else:
        t = g.expr(s.int(1, 3))
    if name not in syms_in(t):
        raise Reject("no variables")
    if kinds(t) & {"abs", "sign", "floor", "atan2", "cmp", "max", "min", "where", "iverson"}:
        raise Reject("not analytic")
    e = build(t)
    if any(k in repr(e) for k in ("zoo", "nan")):
        raise Reject("infinite")
    d = e.diff(SYMS[name])
    ok = 0
    for env in points(s, sorted(syms_in(t)), 3):
        def at(x):
            en = dict(env)
            en[name] = x
            return WfEval(en, Num(mpf(10) ** -80))(e)
        z = env[name]
        try:
            f0 = at(z)
            a, b = [(at(z + h) - at(z - h)) / (2 * h) for h in (H, H * mpmath.mpc(0, 1))]
        except SKIP as ex:
            ctx.label("point:" + (str(ex) or type(ex).__name__)[:30])
            continue
        if abs(a) > mpf(10) ** 12 or abs(a - b) > mpf(10) ** -20 * (1 + abs(a)):
            ctx.label("point:not analytic here")
            continue
        num = Num(mpf(10) ** -80)
        try:
            got = WfEval(env, num)(d)
        except (Unstable, Reject) as ex:
            ctx.label("result:" + str(ex)[:30])
            continue
        except (Undef, NotValue, ZeroDivisionError) as ex:
            raise Violation("derivative has no value where the expression is differentiable",
                            tree=show(t), wrt=name, derivative=d, env=env, expected=a,
                            problem=repr(ex))
        if abs(got - a) > mpf(10) ** -15 * (1 + abs(a) + num.maxabs):
            raise Violation("derivative has the wrong value at a complex point", tree=show(t),
                            expr=e, wrt=name, derivative=d, env=env, expected=a, got=got)
        ok += 1
        ctx.label("complex" if isinstance(env[name], mpmath.mpc) else "real")
    if ok and size(t) >= 2:
        ctx.mark((show(t), name), f"d/d{name} {show(t)} -> {repr(d)[:200]}")


@setprec
def functions(src, ctx):
    """Expressions holding symbolic functions, substitutions and stop_derivative."""
    s = src
    g = Gen(s, REALS, share=0.3, cond=0.1, abstract=True, consts=0.0,
            fun_names=["sin", "exp", "atan", "tanh", "cos", "sqrt"])
    t = g.expr(s.int(1, 3))
    if "deriv" in kinds(t) or not kinds(t) & {"ufun", "subst", "stop"}:
        raise Reject("no symbolic function")
    names = sorted(syms_in(t))
    if not names:
        raise Reject("no variables")
    name = s.choice(names)
    n = s.weighted([(5, 1), (2, 2)])
    e = build(t)
    if any(k in repr(e) for k in ("zoo", "nan")):
        raise Reject("infinite")
    d = diffs(e, SYMS[name], n, False)
    ok = 0
    for env in points(s, sorted(set(names) | set(REALS)), 2):
        ok += judge(t, d, env, env, name, n, ctx, "derivative of symbolic functions is wrong")
    if ok and size(t) >= 4:
        ctx.mark((show(t), name, n), f"d^{n}/d{name}^{n} {show(t)} -> {repr(d)[:200]}")


@setprec
def wrt(src, ctx):
    """Differentiation with respect to f(x) or Derivative(f(x), x) treats it as a variable."""
    s = src
    t = gen(s).expr(s.int(1, 3))
    if "y" not in syms_in(t):
        raise Reject("no target")
    X = SYMS["x"]
    f = sym.Function("f")
    kind = s.choice(["f(x)", "f(x,p)", "deriv", "unique"])
    target = {"f(x)": lambda: f(X), "f(x,p)": lambda: f(X, SYMS["p"]),
              "deriv": lambda: f(X).diff(X),
              "unique": lambda: sym.unique_symbols(1, real=True)}[kind]()
    symbols = dict(SYMS, y=target)
    e = build(t, symbols)
    if any(k in repr(e) for k in ("zoo", "nan")):
        raise Reject("infinite")
    n = s.weighted([(4, 1), (1, 2)])
    d = diffs(e, target, n, False)
    ok = 0
    for env in points(s, sorted(syms_in(t) | {"y", "x", "p"}), 2):
        ok += judge(t, d, env, env, "y", n, ctx, "derivative with respect to a function is wrong",
                    over={target: env["y"]}, extra={"y_is": target})
    if ok and size(t) >= 4:
        ctx.mark((show(t), kind, n), f"y={target}: d^{n}/dy^{n} {show(t)}")


@setprec
def matrices(src, ctx):
    s = src
    g = gen(s)
    rows = s.int(1, 4)
    ts = [g.expr(s.int(0, 2)) for _ in range(rows)]
    es = [build(t) for t in ts]
    names = s.perm(list(REALS))[:s.int(1, 3)]
    vs = [SYMS[n] for n in names]
    abstract = s.bool(0.1)
    form = s.draw(3)
    vec = sym.vector(*es)
    if form == 0:
        J = sym.jacobian(es, vs, use_abstract=abstract)
    elif form == 1:
        J = sym.jacobian(vec, sym.vector(*vs), use_abstract=abstract)
    elif form == 2:
        J = vec.jacobian(vs, use_abstract=abstract)
    else:
        J = sym.row_vector(*es).jacobian(sym.row_vector(*vs), use_abstract=abstract) if s.bool() \
            else vec.jacobian(sym.vector(*vs), use_abstract=abstract)
    if tuple(J.shape) != (rows, len(vs)):
        raise Violation("Jacobian has the wrong shape", shape=J.shape, rows=rows, vars=names)
    ok = 0
    env = draw_point(s, list(REALS))
    for i in range(rows):
        for j in range(len(vs)):
            w = es[i].diff(vs[j], use_abstract=abstract)
            if not J[i, j].is_identical_to(w):
                raise Violation("Jacobian entry differs from the scalar derivative", row=i, col=j,
                                functions=[show(t) for t in ts], variables=names, got=J[i, j],
                                expected=w)
            if names[j] in syms_in(ts[i]) and not any(q in repr(es[i]) for q in ("zoo", "nan")):
                ok += judge(ts[i], J[i, j], env, env, names[j], 1, ctx, "Jacobian entry is wrong")
    # element-wise derivative of a matrix
    cols = s.int(1, 3)
    r = s.int(1, 3)
    ents = [[s.draw(rows - 1) for _ in range(cols)] for _ in range(r)]
    m = sym.matrix([[es[k] for k in row] for row in ents])
    n = s.weighted([(4, 1), (1, 2), (1, 0)])
    D = m.diff(vs[0], n, use_abstract=abstract)
    if tuple(D.shape) != (r, cols):
        raise Violation("matrix derivative has the wrong shape", got=D.shape, expected=(r, cols))
    for i in range(r):
        for j in range(cols):
            w = es[ents[i][j]].diff(vs[0], n, use_abstract=abstract)
            if not D[i, j].is_identical_to(w):
                raise Violation("matrix derivative entry differs from the scalar derivative",
                                matrix=m, var=names[0], order=n, row=i, col=j, got=D[i, j],
                                expected=w)
    if ok >= 2:
        ctx.mark(([show(t) for t in ts], names), f"J of {[show(t) for t in ts]} wrt {names}")


def streams():
    return [Stream("scalar", scalar, 160000, 3000000), Stream("functions", functions, 120000, 2000000),
            Stream("analytic", analytic, 40000, 800000), Stream("wrt", wrt, 50000, 800000), Stream("matrices", matrices, 50000, 800000)]


KNOWN = {}
