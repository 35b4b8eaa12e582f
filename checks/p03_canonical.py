"""P03: canonical form, identity, hashing, ordering, commutation."""
import wfexpr
from pbt import Reject, Violation, Stream
from wfexpr import Gen, Builder, make_symbols, show, split_top, has_float
from wrenfold import sym
from wrenfold.enumerations import NumberSet

RULE = ("permute: >= 3 non-constant operands combined in two different orders/groupings; pairs: a pool "
        "holding at least one identical pair built separately and at least 10 distinct pairs; rebuild: "
        "an expression of >= 5 nodes rebuilt from its own parts.")
ASSUMPTIONS = ["reordering laws are checked over exact constants only (float addition is not associative)"]
SYMS = make_symbols(sym, NumberSet)
PRIMES = {p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** .5) + 1))}
FNAMES = wfexpr.FUN1


def guard(f):
    try:
        return f()
    except wfexpr.wf_errors() as e:
        raise Reject("library error: " + type(e).__name__)


def ident(a, b, what, **kw):
    if not a.is_identical_to(b) or not b.is_identical_to(a) or not (a == b):
        raise Violation(what, first=a, second=b, **kw)
    if hash(a) != hash(b):
        raise Violation("identical expressions have different hashes", first=a, second=b, **kw)
    if guard(lambda: repr(a) != repr(b)):
        raise Violation("identical expressions print differently", first=a, second=b, **kw)
    if isinstance(a, sym.Expr) and (sym.compare(a, b) != 0 or sym.compare(b, a) != 0):
        raise Violation("identical expressions do not compare as equal", first=a, second=b, **kw)


def loose(e, memo):
    """Forms whose canonical form legitimately depends on how they were assembled: fractional powers
    of products, powers, exponentials, negative or rational numbers (their pieces are split
    and merged by separate rules), and a bare number times a bare sum (distributed at once)."""
    if e in memo:
        return False
    memo.add(e)
    t = e.type_name
    if t == "Power":
        b, x = e.args
        if x.type_name != "IntegerConstant" and (
                b.type_name in ("Multiplication", "Power", "RationalConstant", "FloatConstant")
                or b.type_name == "IntegerConstant" and int(repr(b)) not in PRIMES
                or repr(b).startswith("exp(")):
            return True
    return any(loose(a, memo) for a in e.args)


def factors(x):
    return list(x.args) if x.type_name == "Multiplication" else [x]


def mixes_coeff_and_sum(xs):
    num = sm = False
    for x in xs:
        for f in factors(x):
            b = f.args[0] if f.type_name == "Power" else f
            num |= b.type_name in ("IntegerConstant", "RationalConstant", "FloatConstant",
                                   "ImaginaryUnit", "SymbolicConstant")
            sm |= b.type_name == "Addition"
    return num and sm


def combine(s, op, xs):
    """Combine xs with a random permutation and grouping."""
    xs = s.perm(xs)
    if op == "mul" and mixes_coeff_and_sum(xs):
        return sym.multiplication(xs)
    while len(xs) > 1:
        if s.bool(0.3):
            k = s.int(2, len(xs))
            i = s.draw(len(xs) - k)
            part = xs[i:i + k]
            r = (sym.addition if op == "add" else sym.multiplication)(part)
            xs[i:i + k] = [r]
        else:
            i = s.draw(len(xs) - 2)
            a, b = xs[i], xs[i + 1]
            if s.bool():
                a, b = b, a
            xs[i:i + 2] = [a + b if op == "add" else a * b]
    return xs[0]


class LooseBuilder(Builder):
    """Remembers whether any intermediate result is of a `loose` form."""
    loose = False

    def b(self, t):
        r = super().b(t)
        if isinstance(r, sym.Expr) and not self.loose:
            self.loose = loose(r, set())
            if t[0] == "pow" and not self.loose and r.type_name != "IntegerConstant":
                x = self(t[1])
                self.loose = self(t[2]).type_name != "IntegerConstant" and (
                    x.type_name in ("Multiplication", "Power", "RationalConstant", "FloatConstant")
                    or x.type_name == "IntegerConstant" and int(repr(x)) not in PRIMES
                    or repr(x).startswith("exp("))
        return r


def radicals(src, ctx):
    """Products of fractional powers of positive integers and symbols: exactly canonical."""
    s = src
    xs = []
    for _ in range(s.int(2, 6)):
        k = s.weighted([(5, 0), (2, 1), (2, 2)])
        if k == 0:
            q = s.choice([2, 3, 4, 6])
            xs.append(sym.pow(s.choice([2, 3, 5, 7, 11] + ([6, 12, 4, 18, 10] if q == 2 else [])),
                              sym.rational(s.int(1, 7), q)))
        elif k == 1:
            xs.append(sym.rational(*s.choice([(2, 1), (3, 1), (6, 1), (-2, 1), (12, 1), (5, 1)])))
        else:
            xs.append(sym.pow(SYMS[s.choice(["x", "p"])], sym.rational(s.sint(5), s.int(1, 3))))
    op = s.choice(["mul", "mul", "add"])
    first = guard(lambda: combine(s, op, xs))
    for _ in range(2):
        ident(first, guard(lambda: combine(s, op, xs)),
              "result depends on operand order or grouping", operands=xs)
    ctx.mark(repr((op, xs)), f"{op} {xs} -> {first}")


def permute(src, ctx):
    s = src
    g = Gen(s, ("x", "y", "p", "u", "n"), share=0.5, cond=0.1, abstract=s.bool(0.3), I=s.bool(0.2),
            heavy_pow=False)
    b = LooseBuilder(sym, SYMS, True)
    op = s.choice(["add", "mul"])
    ts = [g.expr(s.int(0, 2)) for _ in range(s.int(2, 6))]
    # like terms: c*t for a shared t, or t**k
    for _ in range(s.int(0, 3)):
        t = s.choice(ts)
        ts.append(("mul", g.number(), t) if op == "add" else ("pow", t, ("int", s.choice([2, -1, 3, -2]))))
    xs = [b(t) for t in ts]
    if any(bad(x) or has_float(x) for x in xs):
        raise Reject("infinite or float operand")
    txt = f"{op}: " + ", ".join(show(t) for t in ts)
    first = guard(lambda: combine(s, op, xs))
    for _ in range(2):
        other = guard(lambda: combine(s, op, xs))
        if has_float(first) or has_float(other):
            raise Reject("folded to a float")
        if not first.is_identical_to(other) and b.loose:
            ctx.label("loose form differs")
            raise Reject("order of fractional powers of compound bases")
        ident(first, other, "result depends on operand order or grouping", operands=txt)
    if len([x for x in xs if "Constant" not in x.type_name]) >= 3:
        ctx.mark(txt, f"{txt} -> {first}")


def bad(e, memo=None):
    return guard(lambda: any(k in repr(e) for k in ("zoo", "nan")))


def mutate(s, t, g):
    """A near copy of t: same shape with one change."""
    kids = [i for i, a in enumerate(t) if isinstance(a, tuple)
            and not (t[0] in ("subst", "deriv"))]
    if t[0] == "cmp":
        i = s.choice([2, 3])
        return t[:i] + (mutate(s, t[i], g),) + t[i + 1:]
    if not kids or s.bool(0.3):
        return g.expr(1)
    i = s.choice(kids)
    return t[:i] + (mutate(s, t[i], g),) + t[i + 1:]


def pairs(src, ctx):
    s = src
    g = Gen(s, tuple(wfexpr.SETS), floats=0.1, share=0.4, cond=0.25, abstract=True, I=True, wrap=True)
    ts = [g.expr(s.int(0, 3)) for _ in range(s.int(3, 5))]
    for _ in range(s.int(1, 4)):
        ts.append(mutate(s, s.choice(ts), g))
    ts.append(s.choice(ts))
    xs = [Builder(sym, make_symbols(sym, NumberSet) if s.bool(0.3) else SYMS, True)(t) for t in ts]
    n = len(xs)
    cmp = {}
    distinct = 0
    for i in range(n):
        for j in range(n):
            a, b = xs[i], xs[j]
            c = cmp[i, j] = sym.compare(a, b)
            eq = a.is_identical_to(b)
            if c not in (-1, 0, 1) or (c == 0) != eq:
                raise Violation("ordering disagrees with identity", a=a, b=b, compare=c, identical=eq)
            if eq:
                ident(a, b, "identity is not symmetric")
            elif i < j:
                distinct += 1
            if ts[i] is ts[j] or ts[i] == ts[j] and "nan" not in repr(a):
                if not eq:
                    raise Violation("the same construction gives different expressions",
                                    tree=show(ts[i]), a=a, b=b)
            if not eq and a.type_name == b.type_name and guard(lambda: repr(a) == repr(b)) and \
                    not same_text_ok(a):
                ctx.label("same text, different expression")
    for i in range(n):
        for j in range(n):
            if cmp[i, j] != -cmp[j, i]:
                raise Violation("ordering is not antisymmetric", a=xs[i], b=xs[j],
                                ab=cmp[i, j], ba=cmp[j, i])
            for k in range(n):
                if cmp[i, j] <= 0 and cmp[j, k] <= 0 and cmp[i, k] > 0:
                    raise Violation("ordering is not transitive", a=xs[i], b=xs[j], c=xs[k])
                if xs[i] == xs[j] and xs[j] == xs[k] and not (xs[i] == xs[k]):
                    raise Violation("identity is not transitive", a=xs[i], b=xs[j], c=xs[k])
    # argument order in the canonical form follows nothing but the operands themselves
    for x in xs:
        if x.type_name in ("Addition", "Multiplication") and not bad(x):
            y = (sym.addition if x.type_name == "Addition" else sym.multiplication)(list(x.args))
            if [repr(q) for q in x.args] != [repr(q) for q in y.args] and not has_float(x):
                raise Violation("argument order is not canonical", expr=x, rebuilt=y)
    # matrices and booleans over the same pool
    m1, m2 = sym.matrix([[x] for x in xs]), sym.matrix([[x] for x in xs])
    ident(m1, m2, "matrices of identical entries differ")
    k = s.draw(n - 1)
    ys = list(xs)
    ys[k] = xs[s.draw(n - 1)]
    m3 = sym.matrix([[x] for x in ys])
    if (m3 == m1) != (ys[k] == xs[k]):
        raise Violation("matrix identity disagrees with entry identity", a=m1, b=m3)
    if n % 2 == 0:
        m4 = m1.reshape(2, n // 2)
        if m4 == m1:
            raise Violation("matrices of different shape are identical", a=m1, b=m4)
    if sym.row_vector(*xs) == m1:
        raise Violation("row and column vectors are identical", a=m1)
    if distinct >= 10:
        ctx.mark([show(t) for t in ts], "; ".join(show(t) for t in ts))


def same_text_ok(e):
    return has_float(e)


def rebuild(s, e, deep, memo):
    if deep and e in memo:
        return memo[e]
    t = e.type_name
    a = list(e.args)
    if not a:
        return e
    if deep:
        a = [rebuild(s, x, deep, memo) for x in a]
    if t == "Addition":
        r = sym.addition(s.perm(a)) if s.bool() else combine(s, "add", a)
    elif t == "Multiplication":
        r = sym.multiplication(s.perm(a)) if s.bool() else combine(s, "mul", a)
    elif t == "Power":
        r = sym.pow(*a)
    elif t == "BuiltInFunctionInvocation":
        r = getattr(sym, repr(e).split("(", 1)[0])(*a)
    elif t == "Conditional":
        r = sym.where(*a)
    elif t == "Relational":
        op = split_top(repr(e))
        r = {"<": sym.lt, "<=": sym.le, "==": sym.eq}[op](*a)
        if op != "==" and s.bool():
            r = {"<": sym.gt, "<=": sym.ge}[op](a[1], a[0])
        elif op == "==" and s.bool():
            r = sym.eq(a[1], a[0])
    elif t == "IversonBracket":
        r = sym.iverson(*a)
    elif t == "Unevaluated":
        r = sym.unevaluated(*a)
    elif t == "StopDerivative":
        r = sym.stop_derivative(*a)
    elif t == "SymbolicFunctionInvocation":
        r = sym.Function(repr(e).split("(", 1)[0])(*a)
    elif t == "Substitution":
        r = sym.substitution(*a)
    else:
        r = e
    memo[e] = r
    return r


def count(e, memo):
    if e in memo:
        return 0
    memo.add(e)
    return 1 + sum(count(a, memo) for a in e.args)


def rebuild_stream(src, ctx):
    s = src
    g = Gen(s, ("x", "y", "p", "u", "n"), share=0.3, cond=0.25, abstract=s.bool(0.4), I=s.bool(0.2),
            wrap=True)
    t = g.expr(s.int(1, 4))
    e = Builder(sym, SYMS, True)(t)
    if bad(e):
        raise Reject("infinite")
    deep = s.bool(0.6)
    r = guard(lambda: rebuild(s, e, deep, {}))
    if not e.is_identical_to(r) and loose(e, set()):
        raise Reject("fractional powers of compound bases")
    ident(e, r, "rebuilding an expression from its own parts changes it", tree=show(t))
    if count(e, set()) >= 5:
        ctx.mark(repr(e), f"{show(t)} -> {e}")


def streams():
    return [Stream("permute", permute, 200000, 3000000),
            Stream("radicals", radicals, 60000, 1000000), Stream("pairs", pairs, 60000, 800000),
            Stream("rebuild", rebuild_stream, 150000, 2000000)]


KNOWN = {}
