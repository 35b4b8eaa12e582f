"""P17: SymPy conversion preserves meaning in both directions."""
import contextlib, signal
import mpmath
import sympy as sp
from mpmath import mp, mpf, mpc
import wfexpr
from wfexpr import (Gen, Builder, Num, Ref, WfEval, make_symbols, show, size, syms_in, kinds,
                    draw_point, Undef, Unstable, NotValue, has_float, isreal, norm, SETS, FUN1, close)
from pbt import Reject, Violation, Stream
import p01_value as p01
import p04_derivative as p04
from wrenfold import sym, sympy_conversion as sc
from wrenfold.enumerations import NumberSet

RULE = ("out/out_abstract/matrices: the expression has >= 4 nodes, was converted to SymPy, and its value was "
        "compared at >= 1 point or its round trip compared; in/in_abstract: a SymPy tree of >= 4 nodes was "
        "converted and compared in value at >= 1 point; names/numbers: a symbol or number was carried "
        "both ways.")
ASSUMPTIONS = ["with evaluate=True SymPy may rewrite into forms wrenfold has no counterpart for (a raised "
               "TypeError/NotImplementedError is then accepted), and a value SymPy itself changes when "
               "the same tree is built through its own constructors is not counted",
               "SymPy keeps the operands of Min/Max unordered, so those round trips are compared by value"]
KNOWN = {}
PREC = 1200         # nested numeric derivatives of total order up to 6
SYMS = make_symbols(sym, NumberSet)
KW = {"real": {"real": True}, "positive": {"positive": True}, "nonneg": {"nonnegative": True},
      "unknown": {}, "complex": {"complex": True}}
SPSYMS = {n: sp.Symbol(n, **KW[k]) for n, k in SETS.items()}
SKIP = (Undef, Unstable, Reject, ZeroDivisionError)


ACTIVE = False


class Slow(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds=2.5):
    """SymPy's own canonicalisation can take arbitrarily long; such a case is rejected."""
    global ACTIVE
    if ACTIVE:
        yield
        return
    ACTIVE = True

    def on(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)
    try:
        yield
    except (Slow, RecursionError):
        raise Reject("sympy too slow")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ACTIVE = False


class NoNode(Exception):
    """A SymPy node the evaluator does not cover."""


SPFN = {"Abs": "abs", **{f: f for f in FUN1 if f not in ("abs", "sqrt")}, "atan2": "atan2"}


class SpEval:
    """Value of a SymPy tree, node by node, with the same numerics as the reference."""

    def __init__(self, env, num=None, over=None):
        self.env, self.num, self.over, self.memo = env, num or Num(), over or {}, {}

    def __call__(self, e):
        if e in self.over:
            return self.over[e]
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self.ev(e)
        return r

    def cond(self, c):
        if c in (True, sp.true):
            return True
        if c in (False, sp.false):
            return False
        return self(c)

    def ev(self, e):
        n = self.num
        name = type(e).__name__
        if isinstance(e, sp.Integer):
            return mpf(int(e))
        if isinstance(e, sp.Rational):
            return mpf(int(e.p)) / int(e.q)
        if isinstance(e, sp.Float):
            return mpf(float(e))
        if e is sp.nan or e is sp.zoo or e in (sp.oo, -sp.oo):
            raise NotValue(str(e))
        if e is sp.E or e is sp.pi:
            return +(mp.e if e is sp.E else mp.pi)
        if e is sp.I:
            return mpc(0, 1)
        if isinstance(e, sp.Symbol):
            try:
                return self.env[e.name]
            except KeyError:
                raise Violation("unexpected symbol in the converted expression", symbol=e)
        if e in (sp.true, sp.false):
            return bool(e)
        if name == "Piecewise":
            for v, c in e.args:
                if self.cond(c):
                    return self(v)
            raise Undef("no branch")
        if name in ("And", "Or", "Not"):
            a = [self.cond(x) for x in e.args]
            return all(a) if name == "And" else any(a) if name == "Or" else not a[0]
        if name == "Derivative":
            f = e.args[0]

            def d(i, over):
                if i == len(e.args):
                    return SpEval(self.env, n, over)(f)
                v, c = e.args[i]
                x0 = SpEval(self.env, n, over)(v)
                return p04.fd(lambda x: d(i + 1, {**over, v: x}), x0, int(c))
            return d(1, self.over)
        if name == "Subs":
            # SymPy applies the replacements one after another (doit uses subs with a list, and
            # nested Subs are flattened into one), so the last one is the outermost
            over = dict(self.over)
            for v, p in reversed(list(zip(e.variables, e.point))):
                over[v] = SpEval(self.env, n, over)(p)
            return SpEval(self.env, n, over)(e.expr)
        a = [self(x) for x in e.args]
        if name == "Add":
            return n.add(a)
        if name == "Mul":
            return n.mul(a)
        if name == "Pow":
            return n.pow(*a)
        if name in SPFN:
            return n.fn(SPFN[name], a)
        if name in ("Min", "Max"):
            if not all(isreal(x) for x in a):
                raise Reject("complex min/max")
            for i in range(len(a)):
                for j in range(i):
                    n.cmp("<", a[i], a[j])
            return min(a) if name == "Min" else max(a)
        rel = {"StrictLessThan": "<", "LessThan": "<=", "Equality": "==", "StrictGreaterThan": ">",
               "GreaterThan": ">="}.get(name)
        if rel:
            return n.cmp(rel, *a)
        if name == "Unequality":
            return not n.cmp("==", *a)
        if name == "UnevaluatedExpr":
            return a[0]
        if name == "Heaviside":
            if not isreal(a[0]):
                raise Reject("complex heaviside")
            n.cmp("<", a[0], mpf(0))
            return mpf(1) if a[0] > 0 else mpf(0) if a[0] < 0 else a[1]
        if isinstance(e, sp.core.function.AppliedUndef):
            return n.chk(p04.ufun(e.func.__name__, a))
        raise NoNode(name)


def assumptions(e, where):
    for s in e.free_symbols:
        if s.name in SPSYMS and s != SPSYMS[s.name]:
            raise Violation("symbol assumptions were not preserved", expr=where, symbol=s,
                            got=s.assumptions0, expected=SPSYMS[s.name].assumptions0)


# ------------------------------------------------------- independent construction of SymPy trees
SPF = {"abs": sp.Abs, **{f: getattr(sp, f) for f in FUN1 if f not in ("abs", "sqrt")}, "atan2": sp.atan2}


class SpBuild:
    """SymPy expression of a tuple tree."""

    def __init__(self, evaluate):
        self.ev = evaluate
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(id(t))
        if r is None:
            r = self.memo[id(t)] = (self.b(t), t)
        return r[0]

    def b(self, t):
        k = {"evaluate": self.ev}
        op = t[0]
        if op == "int":
            return sp.Integer(t[1])
        if op == "rat":
            return sp.Rational(t[1], t[2])
        if op == "flt":
            return sp.Float(t[1])
        if op == "sym":
            return SPSYMS[t[1]]
        if op == "const":
            return {"pi": sp.pi, "E": sp.E, "I": sp.I}[t[1]]
        if op == "bool":
            return sp.true if t[1] else sp.false
        if op == "pw":
            a = [(self(v), self(c)) for v, c in t[1]]
            return sp.Piecewise(*a, **k)
        if op == "subs2":
            return sp.Subs(self(t[1]), tuple(self(v) for v in t[2]), tuple(self(p) for p in t[3]))
        if op == "deriv2":
            return sp.Derivative(self(t[1]), *[(self(v), n) for v, n in t[2]])
        a = [self(x) for x in t[1:] if isinstance(x, tuple)]
        if op == "add":
            return sp.Add(*a, **k)
        if op == "mul":
            return sp.Mul(*a, **k)
        if op == "sub":
            return sp.Add(a[0], sp.Mul(sp.Integer(-1), a[1], **k), **k)
        if op == "neg":
            return sp.Mul(sp.Integer(-1), a[0], **k)
        if op == "div":
            return sp.Mul(a[0], sp.Pow(a[1], sp.Integer(-1), **k), **k)
        if op == "pow":
            return sp.Pow(a[0], a[1], **k)
        if op == "fn":
            if t[1] == "sqrt":
                return sp.Pow(a[0], sp.Rational(1, 2), **k)
            return SPF[t[1]](*a, **k)
        if op in ("min", "max"):
            return (sp.Min if op == "min" else sp.Max)(*a, **k)
        if op == "where":
            return sp.Piecewise((a[1], a[0]), (a[2], True), **k)
        if op == "cmp":
            return {"<": sp.Lt, "<=": sp.Le, "==": sp.Eq, ">": sp.Gt, ">=": sp.Ge}[t[1]](*a, **k)
        if op == "iv":
            return sp.Piecewise((sp.Integer(1), a[0]), (sp.Integer(0), True), **k)
        if op == "heaviside":
            return sp.Heaviside(a[0], a[1], **k)
        if op == "uneval":
            return sp.UnevaluatedExpr(a[0])
        if op == "ufun":
            return sp.Function(t[1])(*a)
        raise AssertionError(op)


def from_wf(e, evaluate):
    """SymPy tree with the structure of wrenfold expression e, through SymPy's own constructors."""
    k = {"evaluate": evaluate}
    memo = {}

    def go(e):
        r = memo.get(e)
        if r is None:
            r = memo[e] = one(e)
        return r

    def one(e):
        t = e.type_name
        if t == "IntegerConstant":
            return sp.Integer(int(repr(e)))
        if t == "RationalConstant":
            return sp.Rational(repr(e))
        if t == "FloatConstant":
            return sp.Float(e.eval())
        if t == "Variable":
            return SPSYMS[repr(e)]
        if t == "SymbolicConstant":
            return {"pi": sp.pi, "e": sp.E, "E": sp.E}[repr(e)]
        if t == "ImaginaryUnit":
            return sp.I
        if t == "BooleanConstant":
            return sp.true if bool(e) else sp.false
        a = [go(x) for x in e.args]
        if t == "Addition":
            return sp.Add(*a, **k)
        if t == "Multiplication":
            return sp.Mul(*a, **k)
        if t == "Power":
            return sp.Pow(*a, **k)
        if t == "BuiltInFunctionInvocation":
            return SPF[repr(e).split("(", 1)[0]](*a, **k)
        if t == "Relational":
            return {"<": sp.Lt, "<=": sp.Le, "==": sp.Eq}[wfexpr.split_top(repr(e))](*a, **k)
        if t == "Conditional":
            c, x, y = e.args
            if sym.lt(y, x).is_identical_to(c):
                return sp.Max(a[1], a[2], **k)
            if sym.lt(x, y).is_identical_to(c):
                return sp.Min(a[1], a[2], **k)
            return sp.Piecewise((a[1], a[0]), (a[2], True), **k)
        if t == "IversonBracket":
            return sp.Piecewise((sp.Integer(1), a[0]), (sp.Integer(0), True), **k)
        if t == "Unevaluated":
            return sp.UnevaluatedExpr(a[0])
        raise NoNode(t)
    return go(e)


def value(ev, e):
    try:
        return ev(e)
    except (NotValue, Undef, ZeroDivisionError) as ex:
        return ex


def tolerance(t, env, num, floats, ref):
    if not floats:
        return mpf(10) ** -24 * (1 + num.maxabs ** 2)
    d = mpf(10) ** -12
    devs = [abs(Ref(env, Num(noise=mpf(10) ** -9), perturb=d, salt=s)(t) - ref) for s in (1, 2, 3)]
    tol = 20 * max(devs) + num.maxabs * mpf(10) ** -12
    if tol > mpf(10) ** -4 * (1 + abs(ref)):
        raise Unstable("ill-conditioned")
    return tol


def mismatch(ref, got, tol):
    return isinstance(got, Exception) or isinstance(got, bool) != isinstance(ref, bool) \
        or (ref != got if isinstance(ref, bool) else not close(ref, got, tol))


def build(t, symbols=SYMS):
    e = Builder(sym, symbols, True)(t)
    if "zoo" in repr(e) or "nan" in repr(e):
        raise Reject("infinite")
    return e


def tolerant(f):
    """Exceptions raised inside SymPy itself, outside a conversion that is being judged."""
    def g(src, ctx):
        try:
            with limit():
                return f(src, ctx)
        except (Reject, Violation):
            raise
        except Exception as ex:
            tb = ex.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            fn = tb.tb_frame.f_code.co_filename
            if "/sympy/" in fn or "/mpmath/" in fn:
                raise Reject("sympy raised " + type(ex).__name__)
            raise
    return g


def opts(s):
    k = s.int(0, 3)
    if k == 0:
        return dict(syms=("x", "y", "p", "n"), wrap=True), 0
    if k == 1:
        return dict(syms=("u", "w", "x", "p"), I=True, cond=0.1, wrap=True,
                    fun_names=[f for f in FUN1 if f not in ("floor", "sign")]), 0
    if k == 2:
        return dict(syms=("x", "p"), floats=0.4, cond=0.2), 1
    return dict(syms=("x", "y", "z", "p"), cond=0.5, wrap=True), 0


def compare_out(t, e, sps, back, src, ctx, floats):
    """sps: [(evaluate, sympy tree)], back: [(evaluate, wrenfold expr or None)]"""
    used = 0
    for _ in range(2):
        env = draw_point(src, sorted(syms_in(t)))
        mk = (lambda: Num(noise=mpf(10) ** -9)) if floats else Num
        num = mk()
        try:
            Ref(env, num)(t)
            ref = WfEval(env, num)(e)           # what wrenfold's expression is worth
            tol = tolerance(t, env, num, floats, Ref(env, mk())(t))
        except SKIP + (NotValue,) as ex:
            ctx.label("point:" + (str(ex) or type(ex).__name__)[:25])
            continue
        for evaluate, s in sps:
            try:
                got = value(SpEval(env, mk()), s)
            except (Unstable, Reject, NoNode) as ex:
                ctx.label("sympy:" + str(ex)[:25])
                continue
            if mismatch(ref, got, tol):
                # SymPy's own doing when its constructors have this effect on the same tree
                try:
                    with limit():
                        own = value(SpEval(env, mk()), from_wf(e, evaluate))
                    if mismatch(ref, own, tol):
                        ctx.label("sympy changes the value")
                        continue
                except (Unstable, Reject, NoNode):
                    continue
                raise Violation("to_sympy changed the value", wrenfold=e, evaluate=evaluate, sympy=s,
                                srepr=sp.srepr(s)[:600], env=env, expected=ref, got=got)
            used += 1
        for evaluate, b in back:
            if b is None:
                continue
            try:
                got = value(WfEval(env, mk()), b)
            except (Unstable, Reject) as ex:
                continue
            if mismatch(ref, got, tol):
                s = dict(sps)[evaluate]
                try:
                    if mismatch(ref, value(SpEval(env, mk()), s), tol):
                        continue
                except (Unstable, Reject, NoNode):
                    continue
                if p01.known_explains(t, env):
                    ctx.label("known-finding")
                    continue
                raise Violation("round trip through SymPy changed the value", wrenfold=e,
                                evaluate=evaluate, sympy=s, back=b, env=env, expected=ref, got=got)
            used += 1
    return used


def convert(e, evaluate):
    with limit():
        try:
            return sc.to_sympy(e, evaluate=evaluate)
        except sym_type_error as ex:
            raise Violation("to_sympy refused a supported expression", wrenfold=e, error=ex)
        except Exception as ex:
            # SymPy's own refusal (e.g. comparing complex numbers), raised through the converter
            if refuses(e, evaluate):
                raise Reject("sympy refused")
            raise Violation("to_sympy raised", wrenfold=e, error=ex)


def refuses(e, evaluate):
    try:
        from_wf(e, evaluate)
    except Exception:
        return True
    return False


def sig_wf(e):
    """Structure of a wrenfold expression in SymPy's vocabulary, without involving SymPy."""
    t = e.type_name
    if not e.args:
        return repr(e) if t != "FloatConstant" else repr(e.eval())
    a = [sig_wf(x) for x in e.args]
    if t == "Conditional":
        if (a[1], a[2]) == ("1", "0"):
            return ("same SymPy form as the Iverson bracket",)
        return ("Piecewise", a[1], a[0], a[2])
    if t == "IversonBracket":
        return ("Piecewise", "1", a[0], "0")
    if t == "BuiltInFunctionInvocation":
        return (repr(e).split("(", 1)[0],) + tuple(a)
    if t == "Relational":
        return (wfexpr.split_top(repr(e)),) + tuple(a)
    if t == "SymbolicFunctionInvocation":
        return ("ufun", repr(e).split("(", 1)[0]) + tuple(a)
    if t in ("Addition", "Multiplication"):
        a.sort(key=repr)
    return (t,) + tuple(a)


def sig_sp(e):
    name = type(e).__name__
    if isinstance(e, sp.Float):
        return repr(float(e))
    if e == sp.zoo:
        return "zoo"
    if not e.args:
        return {"True": "true", "False": "false"}.get(str(e), str(e))
    if name == "Piecewise":
        if len(e.args) != 2 or e.args[1][1] != True:
            return None
        return ("Piecewise", sig_sp(e.args[0][0]), sig_sp(e.args[0][1]), sig_sp(e.args[1][0]))
    a = [sig_sp(x) for x in e.args]
    if isinstance(e, sp.core.function.AppliedUndef):
        return ("ufun", e.func.__name__) + tuple(a)
    if name in ("Add", "Mul"):
        a.sort(key=repr)
    return ({"Add": "Addition", "Mul": "Multiplication", "Pow": "Power", "UnevaluatedExpr": "Unevaluated",
             "StrictLessThan": "<", "LessThan": "<=", "Equality": "==", "Abs": "abs"}.get(name, name),
            ) + tuple(a)


sym_type_error = __import__("pywrenfold.exceptions", fromlist=["TypeError"]).TypeError


def convert_back(s, evaluate, e):
    try:
        return sc.from_sympy(s)
    except (TypeError, NotImplementedError) as ex:
        if evaluate or sig_sp(s) != sig_wf(e):
            return None
        raise Violation("from_sympy refused the unevaluated form of a wrenfold expression", wrenfold=e,
                        sympy=sp.srepr(s)[:500], error=ex)
    except wfexpr.wf_errors() as ex:
        if evaluate or sig_sp(s) != sig_wf(e):
            return None
        raise Violation("from_sympy raised on the unevaluated form of a wrenfold expression",
                        wrenfold=e, sympy=sp.srepr(s)[:500], error=ex)


@tolerant
def out(src, ctx):
    s = src
    o, floats = opts(s)
    g = Gen(s, share=0.25, **o)
    t = g.boolean(s.int(1, 3)) if s.bool(0.15) else g.expr(s.int(1, 4))
    e = build(t)
    if e.type_name == "BooleanConstant":
        raise Reject("constant")
    floats = floats or has_float(e)
    u = convert(e, False)
    assumptions(u, e)
    b = convert_back(u, False, e)
    # identical, unless SymPy's own constructors did not keep the tree (Min/Max, some Piecewise)
    kept = not u.has(sp.Min, sp.Max) and sig_sp(u) == sig_wf(e)
    ctx.label("tree kept by SymPy" if kept else "tree not kept by SymPy")
    if kept and not b.is_identical_to(e):
        raise Violation("round trip through SymPy (evaluate=False) is not identical", wrenfold=e,
                        tree=e.expression_tree_str()[:600], sympy=sp.srepr(u)[:600], back=b,
                        back_tree=b.expression_tree_str()[:600])
    sps, back = [(False, u)], [(False, b)]
    if s.bool(0.5):
        try:
            v = convert(e, True)
            assumptions(v, e)
            sps.append((True, v))
            back.append((True, convert_back(v, True, e)))
            if v == u:
                ctx.label("evaluate: no effect")
            else:
                # the flag is forwarded: an unevaluated tree is not the canonicalised one
                with limit():
                    try:
                        own = from_wf(e, True), from_wf(e, False)
                    except Exception as ex:
                        raise Reject("sympy: " + type(ex).__name__)
                    if u == own[0] != own[1]:
                        raise Violation("evaluate=False was not honoured", wrenfold=e,
                                        sympy=sp.srepr(u)[:600])
        except Reject as r:
            ctx.label("evaluate=True: " + str(r))
    used = compare_out(t, e, sps, back, s, ctx, floats)
    if size(t) >= 4:
        ctx.mark(show(t), f"{e!r} -> {u}")
    ctx.label("compared" if used else "round trip only")


@tolerant
def out_abstract(src, ctx):
    """Abstract functions, unevaluated substitutions and derivatives."""
    s = src
    g = Gen(s, ["x", "y", "p"], share=0.25, cond=0.15, consts=0.03, wrap=True, abstract=True, minmax=False)
    k = s.int(0, 3)
    t = g.expr(s.int(1, 3))
    f = ("ufun", s.choice("fgh")) + tuple(g.expr(s.int(0, 1)) for _ in range(s.int(1, 3)))
    v = ("sym", s.choice(g.syms))
    f = [f, ("subst", f, v, g.expr(1)), ("subst", t, v, g.expr(1)), ("deriv", f, v, s.int(1, 3))][k]
    if s.bool(0.7):
        t = (s.choice(["add", "mul"]), f, t)
    else:
        t = f
    e = build(t)
    if has_float(e):
        raise Reject("folded to float")
    if "stop" in kinds(t):
        if any("StopDerivative" == n.type_name for n in nodes(e)):
            try:
                r = sc.to_sympy(e)
            except sym_type_error:
                ctx.label("stop_derivative refused")
                return
            raise Violation("to_sympy accepted StopDerivative", wrenfold=e, got=r)
    with limit():
        try:
            u = sc.to_sympy(e, evaluate=False)
        except sym_type_error:
            raise
        except Exception as ex:
            # SymPy rejects derivatives it can see to be invalid
            raise Reject("sympy: " + type(ex).__name__)
    assumptions(u, e)
    b = convert_back(u, False, e)
    names = sorted(syms_in(t))
    used = 0
    old = mp.prec
    mp.prec = PREC
    try:
        for _ in range(2):
            env = draw_point(s, names)
            num = p04.NumD()
            try:
                ref = p04.EvalD(env, num)(e)
            except SKIP + (NotValue,) as ex:
                ctx.label("point:" + (str(ex) or type(ex).__name__)[:25])
                continue
            tol = mpf(10) ** -15 * (1 + abs(ref) + num.maxabs)
            for what, f in (("to_sympy", lambda: SpEval(env, p04.NumD())(u)),
                            ("round trip", lambda: p04.EvalD(env, p04.NumD())(b))):
                if what == "round trip" and b is None:
                    continue
                try:
                    got = f()
                except (Unstable, Reject, NoNode) as ex:
                    ctx.label("result:" + (str(ex) or type(ex).__name__)[:25])
                    continue
                except (Undef, NotValue, ZeroDivisionError) as ex:
                    got = ex
                if mismatch(ref, got, tol):
                    raise Violation(what + " changed the value", wrenfold=e, sympy=sp.srepr(u)[:700],
                                    back=b, env=env, expected=ref, got=got)
                used += 1
    finally:
        mp.prec = old
    if b is not None and not u.has(sp.Min, sp.Max, sp.Derivative, sp.Subs) and sig_sp(u) == sig_wf(e) and not b.is_identical_to(e):
        raise Violation("round trip through SymPy (evaluate=False) is not identical", wrenfold=e,
                        sympy=sp.srepr(u)[:600], back=b)
    if size(t) >= 4 and used:
        ctx.mark(show(t), f"{e!r} -> {u}")


def nodes(e, seen=None):
    seen = set() if seen is None else seen
    if e not in seen:
        seen.add(e)
        for a in e.args:
            nodes(a, seen)
    return seen


# ------------------------------------------------------------------------------ SymPy -> wrenfold
class GenIn(Gen):
    def _expr(self, d):
        s = self.s
        if self.extra and s.bool(0.2):
            k = s.weighted([(3, "pw"), (2, "heaviside")] + ([(6, "abstract")]
                                                           if self.extra == 2 else []))
            if k == "pw":
                n = s.int(1, 4)
                br = [(self.expr(d - 1) if not s.bool(0.4) else ("int", s.choice([0, 1])),
                       self.boolean(d - 1)) for _ in range(n)]
                if not s.bool(0.25):
                    br.append((self.expr(d - 1) if not s.bool(0.4) else ("int", s.choice([0, 1])),
                               ("bool", True)))
                return ("pw", tuple(br))
            if k == "heaviside":
                return ("heaviside", self.expr(d - 1), self.number())
            return self.abstract_node(d)
        return super()._expr(d)

    def abstract_node(self, d):
        s = self.s
        k = s.choice(["subs2", "deriv2", "ufun"])
        f = ("ufun", s.choice("fgh")) + tuple(self.expr(d - 1) for _ in range(s.int(1, 3)))
        if k == "ufun":
            return f
        if k == "subs2":
            vs = s.perm(list(self.syms))[:s.int(1, 3)]
            return ("subs2", f if s.bool(0.5) else self.expr(d - 1), tuple(("sym", v) for v in vs),
                    tuple(self.expr(d - 1) if s.bool(0.5) else ("sym", s.choice(self.syms))
                          for v in vs))
        vs = s.perm(list(self.syms))[:s.int(1, 2)]
        return ("deriv2", f, tuple((("sym", v), s.int(1, 3 - len(vs))) for v in vs))


class RefIn(p04.RefD):
    """Value of a tree with the SymPy-only nodes."""

    def ev(self, t):
        op = t[0]
        if op == "pw":
            # poles in any branch make the point unusable
            r = None
            for v, c in t[1]:
                x = self(v)
                if self(c) and r is None:
                    r = x
            if r is None:
                raise Undef("no branch")
            return r
        if op == "heaviside":
            x, h = self(t[1]), self(t[2])
            if not isreal(x):
                raise Reject("complex heaviside")
            self.num.cmp("<", x, mpf(0))
            return mpf(1) if x > 0 else mpf(0) if x < 0 else h
        if op == "subs2":
            e = dict(self.env)
            for v, p in reversed(list(zip(t[2], t[3]))):
                e[v[1]] = RefIn(e, self.num)(p)
            return RefIn(e, self.num)(t[1])
        if op == "deriv2":
            def d(i, env):
                if i == len(t[2]):
                    return RefIn(env, self.num)(t[1])
                v, n = t[2][i]
                return p04.fd(lambda x: d(i + 1, {**env, v[1]: x}), env[v[1]], n)
            return d(0, self.env)
        return super().ev(t)


def isize(t):
    if not isinstance(t, tuple):
        return 0
    return (1 if t and isinstance(t[0], str) else 0) + sum(isize(a) for a in t)


def isyms(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "sym":
            out.add(t[1])
        for a in t:
            isyms(a, out)
    return out


def to_in(t, evaluate, ctx):
    with limit():
        try:
            u = SpBuild(evaluate)(t)
        except Exception as ex:
            raise Reject("sympy: " + type(ex).__name__)
    if u in (sp.nan, sp.zoo) or u.has(sp.zoo, sp.nan, sp.oo, -sp.oo):
        raise Reject("infinite")
    try:
        return u, sc.from_sympy(u)
    except (TypeError, NotImplementedError) as ex:
        ctx.label("refused: " + str(ex)[:60])
        raise Reject("refused")
    except wfexpr.wf_errors():
        raise Reject("library error")


@tolerant
def in_(src, ctx):
    s = src
    o, floats = opts(s)
    g = GenIn(s, share=0.25, **o)
    g.extra = 1
    t = g.boolean(s.int(1, 3)) if s.bool(0.15) else g.expr(s.int(1, 4))
    evaluate = s.bool(0.4)
    u, e = to_in(t, evaluate, ctx)
    floats = floats or e.type_name != "BooleanConstant" and has_float(e)
    used = 0
    for _ in range(2):
        env = draw_point(s, sorted(isyms(t)))
        mk = (lambda: Num(noise=mpf(10) ** -9)) if floats else Num
        num = mk()
        try:
            RefC = type("R", (RefIn,), {})
            ref = RefC(env, num)(t)
            if floats:
                d = mpf(10) ** -12
                devs = [] if isinstance(ref, bool) else [
                    abs(RefC(env, mk(), perturb=d, salt=k)(t) - ref) for k in (1, 2, 3)]
                tol = 20 * max(devs, default=mpf(0)) + num.maxabs * mpf(10) ** -12
                if tol > mpf(10) ** -4 * (1 + abs(ref)):
                    continue
            else:
                tol = mpf(10) ** -24 * (1 + num.maxabs ** 2)
            spv = SpEval(env, mk())(u)
            if mismatch(ref, spv, tol):
                ctx.label("sympy changes the value")
                continue
            got = value(WfEval(env, mk()), e)
        except SKIP + (NotValue, NoNode) as ex:
            ctx.label("point:" + (str(ex) or type(ex).__name__)[:25])
            if isinstance(ex, Undef) and str(ex) == "no branch":
                undefined(t, u, e, env, mk, ctx)
            continue
        if mismatch(ref, got, tol):
            if p01.known_explains(flat(t), env):
                ctx.label("known-finding")
                continue
            raise Violation("from_sympy changed the value", sympy=u, srepr=sp.srepr(u)[:700], wrenfold=e,
                            env=env, expected=ref, got=got)
        used += 1
    if used and isize(t) >= 4:
        ctx.mark(str(t), f"{u} -> {e!r}")
    ctx.label("compared" if used else "no usable point")


def undefined(t, u, e, env, mk, ctx):
    """No branch of a Piecewise applies: SymPy's value is nan, so no number may come out of a tree
    in which nothing can hide it."""
    if t[0] != "pw" or isinstance(value(SpEval(env, mk()), u), mpf):
        return
    try:
        got = value(WfEval(env, mk()), e)
    except SKIP + (NotValue,):
        return
    ctx.label("undefined piecewise")
    if not isinstance(got, Exception):
        raise Violation("a Piecewise that is undefined at the point was converted to a value", sympy=u,
                        wrenfold=e, env=env, got=got)


def nested(t):
    """Total order of nested derivatives."""
    if not isinstance(t, tuple):
        return 0
    own = sum(n for _, n in t[2]) if t and t[0] == "deriv2" else 0
    return own + max((nested(a) for a in t), default=0)


def flat(t):
    """Tuple tree with the SymPy-only nodes spelt in the basic ones (for the finding predicates)."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "pw":
        r = flat(t[1][-1][0])
        for v, c in reversed(t[1][:-1]):
            r = ("where", flat(c), flat(v), r)
        return r
    if t and t[0] == "heaviside":
        return ("where", ("cmp", "<", ("int", 0), flat(t[1])), ("int", 1), flat(t[2]))
    return tuple(flat(a) for a in t)


@tolerant
def in_abstract(src, ctx):
    s = src
    g = GenIn(s, ["x", "y", "p"], share=0.25, cond=0.1, consts=0.03, minmax=False, wrap=True)
    g.extra = 2
    t = g.abstract_node(s.int(1, 3))
    if s.bool(0.5):
        t = (s.choice(["add", "mul"]), t, g.expr(s.int(0, 2)))
    u, e = to_in(t, False, ctx)
    if has_float(e):
        raise Reject("folded to float")
    used = 0
    old = mp.prec
    mp.prec = PREC
    try:
        for _ in range(2):
            env = draw_point(s, ["x", "y", "p"])
            num = p04.NumD()
            try:
                ref = RefIn(env, num)(t)
                if abs(ref) > mpf(10) ** 14 or nested(t) > 6:
                    continue
                tol = mpf(10) ** -15 * (1 + abs(ref) + num.maxabs)
                if mismatch(ref, SpEval(env, p04.NumD())(u), tol):
                    ctx.label("sympy changes the value")
                    continue
                got = value(p04.EvalD(env, p04.NumD()), e)
            except SKIP + (NotValue, NoNode) as ex:
                ctx.label("point:" + (str(ex) or type(ex).__name__)[:25])
                continue
            if mismatch(ref, got, tol):
                raise Violation("from_sympy changed the value", sympy=u, srepr=sp.srepr(u)[:700],
                                wrenfold=e, env=env, expected=ref, got=got)
            used += 1
    finally:
        mp.prec = old
    if used and isize(t) >= 4:
        ctx.mark(str(t), f"{u} -> {e!r}")
    ctx.label("compared" if used else "no usable point")


# --------------------------------------------------------------------- matrices, names and numbers
@tolerant
def matrices(src, ctx):
    s = src
    r, c = s.int(1, 4), s.int(1, 4)
    g = Gen(s, ["x", "y", "p"], share=0.3, wrap=False)
    ts = [[g.expr(s.int(0, 2)) for _ in range(c)] for _ in range(r)]
    es = [[build(t) for t in row] for row in ts]
    m = sym.matrix(es)
    u = None
    ev = s.bool(0.3)
    xs = [[convert(x, ev) for x in row] for row in es]
    u = sc.to_sympy(m, evaluate=ev)
    if tuple(u.shape) != (r, c):
        raise Violation("matrix shape was not preserved", wrenfold=m, shape=m.shape, got=u.shape)
    for i in range(r):
        for j in range(c):
            x = xs[i][j]
            if u[i, j] != x:
                raise Violation("matrix entry differs from the conversion of the entry", wrenfold=m,
                                at=(i, j), got=u[i, j], expected=x)
    kept = all(sig_sp(u[i, j]) == sig_wf(es[i][j]) for i in range(r) for j in range(c))
    kind = s.choice([sp.Matrix, sp.ImmutableMatrix, sp.SparseMatrix])
    try:
        b = sc.from_sympy(u if s.bool(0.4) else kind(u))
    except (TypeError, NotImplementedError):
        if ev or not kept:
            raise Reject("refused")
        raise
    if tuple(b.shape) != (r, c):
        raise Violation("matrix shape was not preserved by from_sympy", sympy=u, got=b.shape)
    if kept and not b.is_identical_to(m):
        raise Violation("matrix round trip is not identical", wrenfold=m, sympy=u, back=b)
    if r * c >= 4:
        ctx.mark((show(ts[0][0]), r, c, ev), f"{r}x{c} evaluate={ev} {es[0][0]!r}")


CHARS = list("abxyzXYZ_0123456789") + [" ", ",", ":", "(", ")", "\\", "'", "α", "β̂", "-", "+", "[", "'"]


def names(src, ctx):
    s = src
    nm = "".join(s.choice(CHARS) for _ in range(s.int(1, 6)))
    k = s.choice(list(KW))
    x = sym.symbol(nm, {"real": NumberSet.Real, "positive": NumberSet.RealPositive,
                        "nonneg": NumberSet.RealNonNegative, "unknown": NumberSet.Unknown,
                        "complex": NumberSet.Complex}[k])
    want = sp.Symbol(nm, **KW[k])
    for ev in (False, True):
        u = sc.to_sympy(x, evaluate=ev)
        if u != want:
            raise Violation("symbol was not carried over", name=nm, set=k, got=repr(u), expected=repr(want))
    b = sc.from_sympy(want)
    if not b.is_identical_to(x):
        raise Violation("from_sympy changed a symbol", name=nm, set=k, got=b)
    # SymPy assumptions beyond wrenfold's sets map to the smallest set that contains them
    kw = {}
    for a in ("real", "positive", "nonnegative", "negative", "integer", "complex", "imaginary", "zero",
              "rational", "finite", "extended_real", "commutative", "even", "nonzero", "hermitian"):
        if s.bool(0.12):
            kw[a] = True
    try:
        y = sp.Symbol(nm, **kw)
    except sp.core.facts.InconsistentAssumptions:
        y = want
    e = sc.from_sympy(y)
    allowed = (NumberSet.RealPositive if y.is_positive else NumberSet.RealNonNegative if y.is_nonnegative
               else NumberSet.Real if y.is_real else NumberSet.Complex if y.is_complex else NumberSet.Unknown)
    if not e.is_identical_to(sym.symbol(nm, allowed)):
        raise Violation("from_sympy gave a symbol the wrong number set", name=nm, assumptions=kw, got=e)
    f = sym.Function(nm)(x) if all(ch.isalnum() or ch == "_" for ch in nm) else None
    if f is not None:
        u = sc.to_sympy(f)
        if u != sp.Function(nm)(want) or not sc.from_sympy(u).is_identical_to(f):
            raise Violation("function name was not carried over", name=nm, got=u)
    ctx.mark((nm, k, tuple(kw)), f"{nm!r} {k} {kw}")


def numbers(src, ctx):
    s = src
    k = s.int(0, 4)
    mag = lambda: s.choice([s.sint(20), s.sint(10 ** 9), s.sint(2 ** 62), 2 ** 63 - 1 - s.int(0, 3),
                            -2 ** 63 + s.int(0, 3), 2 ** s.int(0, 62), 10 ** s.int(0, 18)])
    if k == 0:
        n = mag()
        e, want = sym.integer(n), sp.Integer(n)
    elif k == 1:
        n, d = mag(), abs(mag()) or 1
        try:
            e = sym.rational(n, min(d, 2 ** 63 - 1))
        except Exception as ex:
            raise Reject(type(ex).__name__)
        want = sp.Rational(n, min(d, 2 ** 63 - 1))
    elif k == 2:
        import struct
        f = s.choice([s.sint(100) / 8, s.sint(10 ** 6) / 10, s.sint(2 ** 53) * 2.0 ** s.sint(1000),
                      struct.unpack("d", struct.pack("Q", s.int(0, 2 ** 62)))[0], 0.1, 1e-300, 5e-324,
                      1.7976931348623157e308])
        if f != f or f in (float("inf"), -float("inf")):
            raise Reject("not finite")
        e, want = sym.float_constant(f), sp.Float(f)
        if e.type_name != "FloatConstant":
            raise Reject("not a float")
    elif k == 3:
        e, want = s.choice([(sym.pi, sp.pi), (sym.E, sp.E), (sym.I, sp.I), (sym.zoo, sp.zoo),
                            (sym.nan, sp.nan), (sym.true, sp.true), (sym.false, sp.false)])
    else:
        # SymPy numbers wrenfold cannot hold must be refused, not changed
        n = s.choice([2 ** 63 + s.int(0, 5), -2 ** 63 - 1 - s.int(0, 5), 2 ** 64 + s.int(0, 9), 10 ** 25,
                      s.sint(2 ** 62) * 3, s.sint(2 ** 62) * 2 ** 40])
        v = sp.Integer(n) if s.bool(0.5) else sp.Rational(n, 2 * s.int(0, 8) + 1)
        try:
            e = sc.from_sympy(v)
        except Exception as ex:
            ctx.label("refused " + type(ex).__name__)
            return
        if sc.to_sympy(e) != v:
            raise Violation("from_sympy changed a number it cannot represent", number=v, got=e)
        return
    if k == 4:
        return
    u = sc.to_sympy(e, evaluate=s.bool())
    if u != want or type(u) is not type(want):
        raise Violation("a constant was changed by to_sympy", constant=e, got=sp.srepr(u),
                        expected=sp.srepr(want))
    b = sc.from_sympy(want)
    if b.type_name != e.type_name or not b.is_identical_to(e):
        raise Violation("a constant was changed by from_sympy", constant=sp.srepr(want), got=b,
                        expected=e)
    ctx.mark((k, str(want)), f"{want}")


def streams():
    return [Stream("out", out, 9000, 400000), Stream("in", in_, 10000, 400000),
            Stream("out_abstract", out_abstract, 3000, 100000),
            Stream("in_abstract", in_abstract, 4000, 120000),
            Stream("matrices", matrices, 1500, 40000), Stream("names", names, 3000, 100000),
            Stream("numbers", numbers, 4000, 100000)]
