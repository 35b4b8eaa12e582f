"""P05: substitution means replacement."""
from mpmath import mpf, mp
import wfexpr
import p01_value as p01
from pbt import Reject, Violation, Stream
from wfexpr import (Gen, Builder, Num, Ref, WfEval, make_symbols, show, size, syms_in, draw_point,
                    Undef, Unstable, NotValue, SETS, FUN1)
from wrenfold import sym
from wrenfold.enumerations import NumberSet

RULE = ("variables/ordered/booleans: the target really occurs in the expression, and the result was "
        "compared at >= 1 point with the tree in which the replacement was made; subexpr: a non-leaf "
        "target taken from (or contained as a factor/term/power in) the expression, >= 1 point "
        "compared; linear/monomial: the reference model performed at least one replacement; matrices: "
        "at least one entry changed.")
ASSUMPTIONS = ["a list of pairs is applied in order, as documented; partial matching of sums, products "
               "and powers is judged by value with the replacement bound to the target's value",
               "numeric literals are not legal targets; bound variables of Derivative/Substitution "
               "nodes are not substituted"]
SYMS = make_symbols(sym, NumberSet)
ERRS = wfexpr.wf_errors()
W = sym.symbol("W0")            # fresh, no assumptions
W2 = sym.symbol("W1")


def sub_tree(t, name, r):
    """t with symbol `name` replaced by tree r."""
    if t[0] == "sym":
        return r if t[1] == name else t
    if not any(isinstance(a, tuple) for a in t):
        return t
    return tuple(sub_tree(a, name, r) if isinstance(a, tuple) else a for a in t)


def nodes(e, out=None):
    """All distinct sub-expressions of a wrenfold expression (scalar and boolean)."""
    out = {} if out is None else out
    if e in out:
        return out
    out[e] = None
    for a in e.args:
        nodes(a, out)
    return out


def occurs(e, target):
    return any(type(n) is type(target) and n.is_identical_to(target) for n in nodes(e))


def lib(f):
    try:
        return f()
    except ERRS as ex:
        raise Reject("library error: " + type(ex).__name__)


def finite(e):
    """Expressions holding complex infinity/undefined are not kept in a canonical form."""
    if any(n.type_name in ("ComplexInfinity", "Undefined") for n in nodes(e)):
        raise Reject("infinite/undefined part")


def subst(e, pairs, t, src):
    """e.subs(...); an error is legitimate only if the substituted tree has no value."""
    try:
        return e.subs(*pairs[0]) if len(pairs) == 1 else e.subs(list(pairs))
    except ERRS as ex:
        if "overflow" in str(ex):
            raise Reject("integer overflow reported")
        names = sorted(syms_in(t))
        for _ in range(4):
            env = draw_point(src, names)
            try:
                v = Ref(env)(t)
            except (Undef, Unstable, Reject):
                continue
            raise Violation(f"substitution raised {type(ex).__name__} although the value exists",
                            tree=show(t), expr=e, pairs=pairs, error=str(ex)[:200], expected=v)
        raise Reject("substitution raised on a tree without a value")


def replacement(s, names):
    k = s.weighted([(3, "sym"), (3, "num"), (3, "expr"), (1, "self"), (1, "flt")])
    if k == "sym":
        return ("sym", s.choice(["x", "y", "p", "q", "z"]))
    if k == "num":
        return Gen(s).number()
    if k == "flt":
        return ("flt", s.sint(40) / 8 + 0.0)
    if k == "self":
        return ("add", ("sym", s.choice(names)), ("sym", "z"))
    return Gen(s, syms=("x", "y", "p"), cond=0, fun_names=["cos", "exp", "sqrt", "abs"]).expr(2)


# The replacement of a symbol declared positive/real must itself be positive/real: simplifications
# already made on the strength of the declaration legitimately give another value otherwise.
def positive_tree(t):
    """Value is provably positive for every assignment in the declared sets."""
    op = t[0]
    if op in ("int", "rat", "flt"):
        return t[1] > 0
    if op == "sym":
        return SETS[t[1]] == "positive"
    if op in ("add", "mul"):
        return all(positive_tree(a) for a in t[1:])
    return op == "fn" and t[1] == "cosh" and real_tree(t[2])


def real_tree(t):
    op = t[0]
    if op in ("int", "rat", "flt"):
        return True
    if op == "sym":
        return SETS[t[1]] in ("real", "positive", "nonneg")
    if op in ("add", "mul", "sub", "neg"):
        return all(real_tree(a) for a in t[1:])
    if op == "pow":
        return real_tree(t[1]) and t[2][0] == "int" and t[2][1] >= 0
    if op == "fn":
        return t[1] in ("cos", "sin", "exp", "abs", "cosh", "sinh", "tanh", "atan", "asinh") and \
            real_tree(t[2])
    return False


def admissible(name, r):
    k = SETS[name]
    if k == "unknown" or k == "complex":
        return True
    if k == "real":
        return real_tree(r)
    return positive_tree(r)


def variables(src, ctx):
    """One variable replaced by any admissible tree."""
    s = src
    g = Gen(s, syms=("x", "u", "p"), cond=0.15)
    t = g.expr(s.int(2, 4))
    names = sorted(syms_in(t))
    if not names:
        raise Reject("no symbols")
    e = p01.build(t, s, ctx)
    finite(e)
    n = s.choice(names)
    r = replacement(s, names)
    if not admissible(n, r):
        raise Reject("replacement outside the declared set")
    rb = lib(lambda: Builder(sym, SYMS)(r))
    t2 = sub_tree(t, n, r)
    e2 = subst(e, [(SYMS[n], rb)], t2, s)
    if n not in syms_in(r) and occurs(e2, SYMS[n]):
        raise Violation("replaced variable still occurs", expr=e, target=n, repl=rb, result=e2)
    if not occurs(e, SYMS[n]) and not e2.is_identical_to(e):
        raise Violation("expression not containing the target changed", expr=e, target=n, result=e2)
    c = p01_compare(t2, e2, s, ctx, r[0] == "flt" or wfexpr.has_float(e2), inner=t)
    if c and occurs(e, SYMS[n]):
        ctx.mark(show(t) + n + show(r), f"({e!r}).subs({n}, {rb!r}) -> {e2!r}")


class Quiet:
    """ctx stand-in: compare() marks are decided by the caller."""

    def __init__(self, ctx):
        self.label = ctx.label

    def mark(self, *a):
        pass


def p01_compare(t2, e2, s, ctx, floats, inner=None, npts=2, **extra):
    try:
        return p01.compare(t2, e2, s, Quiet(ctx), npts, floats)
    except Violation as v:
        # The expression was simplified before the substitution: a known P01 finding in the
        # original tree can surface after it.
        if inner is not None:
            for _ in range(6):
                env = draw_point(s, sorted(syms_in(inner)))
                if p01.known_explains(inner, env):
                    raise Reject("known finding of P01 in the original expression")
        raise Violation(v.msg, **{**v.data, "result": e2, "tree": show(t2), **extra})


def ordered(src, ctx):
    """Lists of pairs behave as one substitution after another (leaf-only lists take another path)."""
    s = src
    g = Gen(s, syms=("x", "y", "z"), cond=0.1, fun_names=[f for f in FUN1 if f not in (
        "log", "acosh", "sqrt")], heavy_pow=False)
    t = g.expr(s.int(2, 4))
    names = ["x", "y", "z"]
    e = p01.build(t, s, ctx)
    k = s.int(2, 4)
    leafy = s.bool(0.6)
    pairs, cur = [], t
    for _ in range(k):
        n = s.choice(names)
        if leafy:
            r = s.weighted([(3, ("sym", s.choice(["x", "y", "z", "p", "q"]))), (2, Gen(s).number()),
                            (1, ("const", s.choice(["pi", "E"])))])
        else:
            r = replacement(s, names)
        if not admissible(n, r) and r[0] != "const":
            raise Reject("replacement outside the declared set")
        pairs.append((n, r))
        cur = sub_tree(cur, n, r)
        if size(cur) > 400:
            raise Reject("too large")
    bp = [(SYMS[n], lib(lambda: Builder(sym, SYMS)(r))) for n, r in pairs]
    e2 = subst(e, bp, cur, s)
    how = s.draw(2)
    if how == 1:
        e3 = subst_fold(e, bp)
        e2 = e2 if e3 is None else e3
    elif how == 2:
        e3 = sym.subs(e, bp)
        if not e3.is_identical_to(e2):
            raise Violation("sym.subs differs from the method", expr=e, pairs=bp, a=e2, b=e3)
    c = p01_compare(cur, e2, s, ctx, wfexpr.has_float(e2), inner=t, original=e, pairs=bp)
    if c and sum(occurs(e, SYMS[n]) for n in {p[0] for p in pairs}) >= 2:
        ctx.mark(show(t) + str(pairs), f"({e!r}).subs({bp!r}) -> {e2!r}")


def subst_fold(e, bp):
    try:
        for a, b in bp:
            e = e.subs(a, b)
        return e
    except ERRS:
        return None


NUMERIC = ("IntegerConstant", "RationalConstant", "FloatConstant", "BooleanConstant",
           "ComplexInfinity", "Undefined", "SymbolicConstant", "ImaginaryUnit")


def subexpr(src, ctx):
    """A sub-expression of the result (or a part of a sum/product/power in it) replaced by a symbol."""
    s = src
    # no principal-branch traps: the P01 findings are kept out by construction
    g = Gen(s, syms=("x", "u", "p", "y"), cond=0.1, share=0.5,
            fun_names=["cos", "sin", "exp", "abs", "atan", "sinh", "tanh"],
            heavy_pow=s.bool(0.3))
    t = g.expr(s.int(2, 4))
    e = lib(lambda: Builder(sym, SYMS)(t))
    finite(e)
    cand = [n for n in nodes(e) if isinstance(n, sym.Expr) and n.type_name not in NUMERIC]
    if not cand:
        raise Reject("nothing to replace")
    cand.sort(key=repr)
    target = s.choice(cand)
    how = s.weighted([(3, "exact"), (3, "part"), (2, "scaled")])
    if how == "part" and target.type_name in ("Addition", "Multiplication") and len(target.args) > 2:
        k = s.int(2, len(target.args) - 1)
        part = s.perm(list(target.args))[:k]
        target = (sym.addition if target.type_name == "Addition" else sym.multiplication)(part)
    elif how == "scaled":
        if target.type_name == "Power":
            b, x = target.args
            target = lib(lambda: sym.pow(b, x / s.choice([2, 3, -1, -2, sym.rational(2, 3), 4])))
        elif target.type_name == "Multiplication":
            target = lib(lambda: target * s.choice(list(target.args)))
        elif target.type_name == "Addition":
            target = target + s.sint(3)
    if target.type_name in NUMERIC:
        raise Reject("nothing to replace")
    exact = occurs(e, target)
    try:
        r = e.subs(target, W)
    except ERRS as ex:
        raise Reject("library error")
    if exact and not occurs(r, W) and not e.is_identical_to(r):
        # the replacement may cancel (e.g. w - w), so only "nothing happened" is suspicious
        ctx.label("replacement cancelled")
    if exact and e.is_identical_to(r):
        raise Violation("an occurring target was not replaced", expr=e, target=target, result=r)
    if exact and target.type_name not in ("Addition", "Multiplication", "Power") and \
            occurs(r, target):
        raise Violation("target still occurs after substitution", expr=e, target=target, result=r)
    if not exact and not occurs(r, W) and not r.is_identical_to(e):
        raise Violation("expression changed although nothing was replaced", expr=e, target=target,
                        result=r)
    used = 0
    names = sorted(syms_in(t))
    for _ in range(2):
        env = draw_point(s, names)
        try:
            ref = Ref(env)(t)
            tv = WfEval(env)(target)
            base = WfEval(env)(e)
            env2 = dict(env)
            env2["W0"] = tv
        except (Undef, Unstable, Reject, NotValue):
            continue
        if abs(ref - base) > mpf(10) ** -20 * (1 + abs(ref)):
            continue            # P01's business
        try:
            got = WfEval(env2)(r)
        except (Unstable, Reject):
            continue
        except (Undef, NotValue, ZeroDivisionError) as ex:
            raise Violation("value lost by substitution", expr=e, target=target, result=r, env=env,
                            expected=ref, problem=repr(ex))
        num = Num()
        if abs(got - ref) > mpf(10) ** -18 * (1 + abs(ref)):
            if p01.known_explains(t, env):
                ctx.label("known finding of P01")
                continue
            raise Violation("substitution changed the value", expr=e, target=target, result=r,
                            env=env, expected=ref, got=got)
        used += 1
    if used and len(target.args) and occurs(r, W):
        ctx.mark((repr(e), repr(target)), f"({e!r}).subs({target!r}, w) -> {r!r}")
        ctx.label(how + (":exact" if exact else ":partial"))


ATOMS = ["x", "y", "z", "p", "q", "u", "v"]


def atom(s, name):
    a = SYMS[name]
    return a


def linear(src, ctx):
    """Sums of atoms: partial matching against a reference model on coefficient vectors."""
    s = src
    kind = s.draw(3)
    ats = [SYMS[n] for n in s.perm(ATOMS)[:s.int(2, 5)]]
    if kind == 1:
        ats = [sym.cos(a) if s.bool() else a ** 2 for a in ats]
    nums = [1, 2, -1, 3, -2, sym.rational(1, 2), sym.rational(-3, 4), 5, 4]
    co = {a: s.choice(nums) for a in ats}
    c0 = s.choice([0, 1, -2, 3, sym.rational(5, 2)])
    S = [a for a in ats if s.bool(0.6)]
    if len(S) < 1:
        raise Reject("empty target")
    same = s.bool(0.7)
    tc = {a: (co[a] if same or s.bool(0.7) else s.choice(nums)) for a in S}
    d0 = s.choice([0, 0, 1, -2, 3, sym.rational(1, 3)])
    if len(S) + (d0 != 0) < 2:
        raise Reject("target is not a sum")
    e = sym.addition([a * co[a] for a in ats] + [sym.integer(0) + c0])
    tgt = sym.addition([a * tc[a] for a in S] + [sym.integer(0) + d0])
    if e.type_name != "Addition" or tgt.type_name != "Addition":
        raise Reject("not a sum")
    for wrap in (lambda v: v, lambda v: sym.sin(v) * ats[0]):
        r = wrap(e).subs(tgt, W)
        match = all((sym.integer(0) + co[a]).is_identical_to(sym.integer(0) + tc[a]) for a in S)
        if match:
            want = wrap(sym.addition([a * co[a] for a in ats if a not in S] + [sym.integer(0) + c0 - d0, W]))
        else:
            want = wrap(e)
        if not r.is_identical_to(want):
            raise Violation("partial sum substitution differs from the model", expr=wrap(e), target=tgt,
                            result=r, model=want)
    if match:
        ctx.mark((repr(e), repr(tgt)), f"({e!r}).subs({tgt!r}, w) -> {r!r}")


def trunc(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def monomial(src, ctx):
    """Products/powers of atoms: partial matching against a reference model on exponent vectors."""
    s = src
    names = s.perm(ATOMS)[:s.int(1, 4)]
    ats = [SYMS[n] for n in names]
    ex = {a: s.choice([1, 2, 3, -1, 4, -2, 5, -4, 6]) for a in ats}
    S = [a for a in ats if s.bool(0.65)]
    te = {a: s.choice([1, 2, -1, 3, -2]) for a in S}
    primes = [2, 3]
    pe = {p: s.choice([0, 0, 1, 2, 3, -1, -2]) for p in primes}
    pt = {p: s.choice([0, 0, 0, 1, 2, -1]) for p in primes}
    if any(pt.values()) and len(S) < 1 or len(S) < 1:
        raise Reject("no target")

    def num(d):
        r = sym.integer(1)
        for p, k in d.items():
            r = r * sym.pow(p, k)
        return r

    # the replacement is usually a fresh symbol, sometimes a factor that is already there
    rep = s.choice([W, W] + [a for a in ats if a not in S] + [a ** 2 for a in ats if a not in S])
    e = sym.multiplication([num(pe)] + [a ** ex[a] for a in ats])
    tgt = sym.multiplication([num(pt)] + [a ** te[a] for a in S])
    if tgt.type_name == "Power" or len(S) == 1 and not any(pt.values()):
        if tgt.type_name != "Power":
            raise Reject("single variable")
        # power target inside a product: each power is matched on its own
        a = S[0]
        k = trunc(ex[a], te[a])
        want = e if k == 0 else e * rep ** k / a ** (te[a] * k)
        if ex[a] == 1:
            want = e        # a bare variable is not a power
    else:
        ks = [trunc(ex[a], te[a]) for a in S]
        for p in primes:
            if pt[p]:
                if pe[p] == 0:
                    ks.append(0)
                else:
                    ks.append(trunc(pe[p], pt[p]))
        k = min(ks, key=abs)
        mags = [abs(v) for v in ks]
        if len({v for v in ks if abs(v) == min(mags)}) > 1:
            raise Reject("mixed signs")
        if e.type_name != "Multiplication":
            want = e
        else:
            want = e * rep ** k / tgt ** k if k else e
    r = e.subs(tgt, rep)
    if not r.is_identical_to(want):
        raise Violation("partial product substitution differs from the model", expr=e, target=tgt, replacement=rep,
                        result=r, model=want, k=k)
    f = sym.cos(e) + e * 7
    if f.type_name == "Addition" and k:
        rf = sym.cos(e).subs(tgt, rep)
        if not rf.is_identical_to(sym.cos(want)):
            raise Violation("substitution inside a function argument differs", expr=sym.cos(e),
                            target=tgt, replacement=rep, result=rf, model=sym.cos(want))
    if k:
        ctx.mark((repr(e), repr(tgt)), f"({e!r}).subs({tgt!r}, {rep!r}) -> {r!r}")


def expo(src, ctx):
    """Symbolic exponents: x**(c*y + d) with target x**(b*y)."""
    s = src
    b = SYMS[s.choice(["x", "u", "p", "q"])]
    y, z = SYMS["y"], SYMS["z"]
    R = sym.rational
    c, d = R(s.sint(12), s.int(1, 4)), R(s.sint(4), s.int(1, 2))
    tb = R(s.choice([1, 2, -1, 3, -2, 1]), s.int(1, 2))
    rest = s.choice([sym.integer(0), z, sym.cos(z), sym.integer(1), sym.integer(2) * z])
    sy = s.choice([y, y * z, sym.sin(y)])
    e = sym.pow(b, c * sy + d + rest)
    tgt = sym.pow(b, tb * sy)
    w = s.choice([W, W2])
    if tgt.type_name != "Power" or e.type_name not in ("Power", "Multiplication"):
        raise Reject("not a power")
    r = lib(lambda: e.subs(tgt, w))
    env0 = {"x": mpf(s.int(1, 40)) / 16, "u": mpf(s.int(1, 40)) / 13, "p": mpf(s.int(1, 30)) / 7,
            "q": mpf(s.int(1, 30)) / 9, "y": mpf(s.sint(30)) / 16, "z": mpf(s.sint(30)) / 11}
    try:
        tv = WfEval(env0)(tgt)
        ref = WfEval(env0)(e)
        env0["W0"] = env0["W1"] = tv
        got = WfEval(env0)(r)
    except (Undef, Unstable, Reject):
        raise Reject("unusable point")
    if abs(got - ref) > mpf(10) ** -20 * (1 + abs(ref)):
        raise Violation("substituting a power changed the value", expr=e, target=tgt, result=r,
                        expected=ref, got=got, env=env0)
    n = c / tb
    whole = n.type_name == "IntegerConstant" and repr(n) != "0"
    if whole and occurs(r, sy) and not (rest.is_identical_to(sy)) and not occurs(rest, sy) \
            and e.type_name == "Power":
        raise Violation("an integer multiple of the exponent was not replaced", expr=e, target=tgt,
                        result=r)
    if occurs(r, w):
        ctx.mark((repr(e), repr(tgt)), f"({e!r}).subs({tgt!r}, w) -> {r!r}")


def flt(src, ctx):
    """Float coefficients: matched exactly or left alone, never dropped."""
    s = src
    names = s.perm(["x", "y", "u", "p"])[:s.int(2, 3)]
    ats = [SYMS[n] for n in names]
    F = [0.5, 1.5, 2.0, -2.5, 3.0, 0.1, 1.0, -1.0]

    def coeff():
        return s.weighted([(3, sym.float_constant(s.choice(F))), (1, sym.integer(s.choice([2, 3, -1])))])
    if s.bool():
        e = sym.multiplication([coeff()] + [a ** s.choice([1, 2, 3, -1]) for a in ats])
        k = s.int(1, len(ats))
        tgt = sym.multiplication([s.choice([coeff(), e.args[0], e.args[0]])] +
                                 [a ** s.choice([1, 1, 2, -1]) for a in ats[:k]])
        if tgt.type_name != "Multiplication":
            raise Reject("target")
    else:
        e = sym.addition([coeff()] + [a * coeff() for a in ats])
        k = s.int(1, len(ats))
        args = list(e.args)
        tgt = sym.addition(s.perm(args)[:k] + ([coeff()] if s.bool() else []))
        if tgt.type_name != "Addition":
            raise Reject("target")
    r = e.subs(tgt, W)
    env = {n: mpf(s.int(1, 60)) / 16 * (-1 if s.bool() else 1) for n in names}
    if "p" in env:
        env["p"] = abs(env["p"])
    num = Num(noise=mpf(10) ** -10)
    try:
        tv, ref = WfEval(env, num)(tgt), WfEval(env, num)(e)
        env["W0"] = tv
        got = WfEval(env, num)(r)
    except (Undef, Unstable, Reject):
        raise Reject("unusable point")
    if abs(got - ref) > mpf(10) ** -12 * (1 + num.maxabs):
        raise Violation("float coefficient lost by substitution", expr=e, target=tgt, result=r,
                        expected=ref, got=got)
    if occurs(r, W):
        ctx.mark((repr(e), repr(tgt)), f"({e!r}).subs({tgt!r}, w) -> {r!r}")


def booleans(src, ctx):
    """Boolean targets and replacements; boolean inputs."""
    s = src
    x, y = ("sym", "x"), ("sym", "y")
    leaf = lambda: s.choice([x, y, ("sym", "p"), ("mul", x, y), ("fn", "cos", x), ("add", x, ("int", 2))])
    cond = ("cmp", s.choice(["<", "<=", "=="]), leaf(), leaf())
    g = Gen(s, syms=("x", "y", "p"), cond=0.2, fun_names=["cos", "exp", "abs", "atan"],
            heavy_pow=False)
    A, B, C = g.expr(2), g.expr(2), g.expr(1)
    rep = s.choice([("bool", True), ("bool", False),
                    ("cmp", s.choice(["<", "<=", "=="]), leaf(), leaf())])
    mk = lambda c: ("add", ("where", c, A, B), ("mul", C, ("iv", c)))
    t1, t2 = mk(cond), mk(rep)
    e, bt, br = lib(lambda: Builder(sym, SYMS)(t1)), lib(lambda: Builder(sym, SYMS)(cond)), \
        lib(lambda: Builder(sym, SYMS)(rep))
    if bt.type_name == "BooleanConstant":
        try:
            e.subs(bt, br)
        except ERRS:
            ctx.label("constant target refused")
            return
        raise Violation("a boolean literal was accepted as a target", expr=e, target=bt)
    if any(n.is_identical_to(bt) for t in (A, B, C)
           for n in nodes(lib(lambda: Builder(sym, SYMS)(t))) if isinstance(n, sym.BooleanExpr)):
        raise Reject("condition occurs elsewhere")
    r = subst(e, [(bt, br)], t2, s)
    if occurs(r, bt) and not br.is_identical_to(bt):
        raise Violation("replaced condition still occurs", expr=e, target=bt, repl=br, result=r)
    c = p01_compare(t2, r, s, ctx, False, inner=t1)
    # a boolean input: substituting a variable inside a comparison
    v = s.choice(["x", "y"])
    rt = s.choice([("int", s.sint(5)), ("sym", "z"), ("add", ("sym", "z"), ("int", 1))])
    rb = Builder(sym, SYMS)(rt)
    b2 = lib(lambda: bt.subs(SYMS[v], rb))
    want = sub_tree(cond, v, rt)
    for _ in range(2):
        env = draw_point(s, ["x", "y", "z", "p"])
        try:
            a, b = Ref(env)(want), WfEval(env)(b2)
        except (Undef, Unstable, Reject):
            continue
        if a != b:
            raise Violation("substitution in a comparison changed its meaning", expr=bt, target=v,
                            repl=rb, result=b2, env=env, expected=a)
    if c:
        ctx.mark(show(t1) + show(rep), f"({e!r}).subs({bt!r}, {br!r}) -> {r!r}")


def matrices(src, ctx):
    """Matrix and compound substitution acts entry by entry."""
    s = src
    g = Gen(s, syms=("x", "y", "z"), cond=0.1, heavy_pow=False, fun_names=["cos", "sin", "abs", "exp"])
    n, m = s.int(1, 3), s.int(1, 3)
    ts = [g.expr(2) for _ in range(n * m)]
    es = [lib(lambda: Builder(sym, SYMS)(t)) for t in ts]
    M = sym.matrix([es[i * m:(i + 1) * m] for i in range(n)])
    pairs = []
    for _ in range(s.int(1, 3)):
        k = s.draw(2)
        if k == 0:
            tgt = SYMS[s.choice(["x", "y"])]
        elif k == 1:
            c = sorted({a for e in es for a in nodes(e)
                        if isinstance(a, sym.Expr) and a.type_name not in NUMERIC}, key=repr)
            if not c:
                raise Reject("nothing to replace")
            tgt = s.choice(c)
        else:
            tgt = sym.lt(SYMS["x"], SYMS["y"])
        if isinstance(tgt, sym.Expr):
            r = s.choice([SYMS["p"], sym.integer(s.int(2, 5)), SYMS["z"] + 1, SYMS["y"], SYMS["x"]])
        else:
            r = s.choice([sym.true, sym.false, sym.lt(SYMS["z"], 1)])
        pairs.append((tgt, r))
    try:
        one = [e.subs(pairs) for e in es]
        got = M.subs(*pairs[0]) if len(pairs) == 1 and s.bool() else M.subs(pairs)
    except ERRS:
        raise Reject("library error")
    if got.shape != (n, m):
        raise Violation("substitution changed the shape", matrix=M, result=got)
    for k, v in enumerate(got.to_flat_list()):
        if not v.is_identical_to(one[k]):
            raise Violation("matrix substitution differs from its entries", matrix=M, pairs=pairs,
                            entry=k, got=v, want=one[k])
    if any(not a.is_identical_to(b) for a, b in zip(es, one)):
        ctx.mark((repr(M), repr(pairs)), f"{es!r}.subs({pairs!r}) -> {one!r}")


def literals(src, ctx):
    """Numeric literals are refused as targets."""
    s = src
    g = Gen(s, syms=("x", "y"), cond=0.1)
    e = lib(lambda: Builder(sym, SYMS)(g.expr(2)))
    tgt = s.choice([sym.integer(s.sint(5)), sym.rational(s.int(1, 9), 11), sym.float_constant(
        s.sint(9) / 4 + 0.0), sym.true, sym.false])
    rep = sym.true if isinstance(tgt, sym.BooleanExpr) else SYMS["z"]
    try:
        r = e.subs(tgt, rep)
    except ERRS:
        ctx.mark((repr(e), repr(tgt)), f"({e!r}).subs({tgt!r}, ..) refused")
        return
    raise Violation("numeric literal accepted as a substitution target", expr=e, target=tgt, result=r)


KNOWN = {}


def streams():
    return [Stream("variables", variables, 50000, 1200000), Stream("ordered", ordered, 30000, 700000),
            Stream("subexpr", subexpr, 50000, 1200000), Stream("linear", linear, 10000, 200000),
            Stream("monomial", monomial, 20000, 300000), Stream("expo", expo, 10000, 200000),
            Stream("flt", flt, 10000, 200000), Stream("booleans", booleans, 8000, 200000),
            Stream("matrices", matrices, 6000, 100000), Stream("literals", literals, 1000, 10000)]
