"""P06: distribute and collect."""
from fractions import Fraction as F
from mpmath import mpf, mp
import wfexpr
import p01_value as p01
from p05_substitution import nodes, p01_compare, finite, lib, ERRS, Quiet
from pbt import Reject, Violation, Stream
from wfexpr import Gen, Builder, make_symbols, show, size, syms_in, FUN1
from wrenfold import sym
from wrenfold.enumerations import NumberSet

RULE = ("expand: the expansion of the polynomial has >= 3 terms and the input was not already "
        "expanded; collect: some power of a collected variable gathers >= 2 terms; general: the "
        "operation changed the expression and the value was compared at >= 1 point.")
ASSUMPTIONS = ["the polynomial form law is judged up to the library's own canonical ordering, which "
               "P03 judges"]
SYMS = make_symbols(sym, NumberSet)
X = {n: SYMS[n] for n in ("x", "y", "z", "p", "u")}


# ------------------------------------------------------------------ polynomial model
# polynomial: {monomial: Fraction}; monomial: frozenset of (atom index, exponent)
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = dict(m)
            for v, e in n:
                k[v] = k.get(v, 0) + e
            k = frozenset((v, e) for v, e in k.items() if e != 0)
            r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v != 0}


def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v != 0}


def num(c):
    return sym.rational(c.numerator, c.denominator)


def mono(m, atoms):
    return sym.multiplication([atoms[v] ** e for v, e in sorted(m)]) if m else sym.integer(1)


def to_expr(p, atoms):
    ts = [num(F(c)) * mono(m, atoms) for m, c in p.items()]
    return sym.addition(ts) if ts else sym.integer(0)


def gen_atoms(s):
    n = s.int(2, 4)
    base = [X[k] for k in s.perm(["x", "y", "z", "p"])[:n]]
    return [s.weighted([(6, b), (1, sym.cos(b)), (1, sym.cosh(b)), (1, sym.abs(b + 1)),
                        ]) for b in base]


COEFF = [1, 2, -1, 3, F(1, 2), -2, F(-3, 4), 5]


def gen_poly(s, natoms, d, neg=False):
    """-> tree: ('a', i) | ('c', q) | ('+', ...) | ('*', ...) | ('^', t, n)"""
    k = s.weighted([(3, "leaf"), (4, "+"), (4, "*"), (3, "^")]) if d > 0 else "leaf"
    if k == "leaf":
        if s.bool(0.25):
            return ("c", s.choice(COEFF))
        a = ("a", s.draw(natoms - 1))
        if neg and s.bool(0.2):
            return ("^", a, s.choice([-1, -2, 2, 3]))
        return a
    if k == "^":
        return ("^", gen_poly(s, natoms, d - 1, neg and False), s.choice([2, 3, 2, 4, 5]))
    return (k,) + tuple(gen_poly(s, natoms, d - 1, neg) for _ in range(s.int(2, 3)))


class Big(Exception):
    pass


def p_model(t):
    if t[0] == "a":
        return {frozenset([(t[1], 1)]): F(1)}
    if t[0] == "c":
        return {frozenset(): F(t[1])}
    if t[0] == "+":
        r = {}
        for a in t[1:]:
            r = padd(r, p_model(a))
        return r
    if t[0] == "*":
        r = {frozenset(): F(1)}
        for a in t[1:]:
            r = pmul(r, p_model(a))
            if len(r) > 400:
                raise Reject("too many terms")
        return r
    b = p_model(t[1])
    if t[2] < 0:
        (m, c), = b.items()
        return {frozenset((v, e * t[2]) for v, e in m): F(1) / c ** -t[2]}
    r = {frozenset(): F(1)}
    for _ in range(t[2]):
        r = pmul(r, b)
        if len(r) > 400:
            raise Reject("too many terms")
    return r


def p_build(t, atoms):
    if t[0] == "a":
        return atoms[t[1]]
    if t[0] == "c":
        return num(F(t[1]))
    if t[0] == "^":
        return p_build(t[1], atoms) ** t[2]
    xs = [p_build(a, atoms) for a in t[1:]]
    return sym.addition(xs) if t[0] == "+" else sym.multiplication(xs)


def p_show(t):
    if t[0] in "ac":
        return f"{t[0]}{t[1]}"
    if t[0] == "^":
        return f"({p_show(t[1])})^{t[2]}"
    return "(" + t[0].join(p_show(a) for a in t[1:]) + ")"


def fits(p):
    if any(abs(c.numerator) > 2 ** 60 or c.denominator > 2 ** 40 for c in map(F, p.values())):
        raise Reject("coefficients too large")


def expand(src, ctx):
    """A polynomial's expansion is exactly the sum of its monomials."""
    s = src
    atoms = gen_atoms(s)
    t = gen_poly(s, len(atoms), s.int(1, 3), s.bool(0.3))
    p = p_model(t)
    fits(p)
    e = lib(lambda: p_build(t, atoms))
    want = lib(lambda: to_expr(p, atoms))
    got = lib(lambda: e.distribute())
    if not got.is_identical_to(want):
        raise Violation("distribute did not produce the expanded polynomial", poly=p_show(t),
                        atoms=atoms, expr=e, result=got, model=want)
    k = s.draw(3)
    if k == 1:
        w = sym.exp(e) * X["u"]
        if not w.distribute().is_identical_to(sym.exp(want) * X["u"]):
            raise Violation("distribute does not act inside a function argument", expr=w,
                            result=w.distribute())
    elif k == 2 and want.type_name == "Addition":
        # negative powers: the denominator is expanded
        n = s.int(1, 2)
        w = lib(lambda: sym.pow(e, -n))
        den = p
        for _ in range(n - 1):
            den = pmul(den, p)
        if len(den) > 60:
            return
        fits(den)
        dw = lib(lambda: w.distribute())
        ww = lib(lambda: sym.pow(to_expr(den, atoms), -1))
        if e.type_name == "Addition" and not dw.is_identical_to(ww):
            raise Violation("distribute of a negative power", expr=w, result=dw, model=ww)
    if not got.distribute().is_identical_to(got):
        raise Violation("distributing twice differs from once", expr=got, result=got.distribute())
    if len(p) >= 3 and not e.is_identical_to(got):
        ctx.mark(repr(e), f"({e!r}).distribute() -> {got!r}")


def c_model(terms, cvars, atoms):
    """terms: {monomial: coeff expression Fraction}; nested collection order as documented."""
    if not cvars:
        return to_expr(terms, atoms)
    v = cvars[0]
    groups = {}
    for m, c in terms.items():
        d = dict(m)
        e = d.pop(v, 0)
        groups.setdefault(e, {})[frozenset(d.items())] = c
    out = []
    for e, g in groups.items():
        co = c_model(g, cvars[1:], atoms)
        out.append(co * (atoms[v] ** e) if e != 0 else co)
    return sym.addition(out)


def collect(src, ctx):
    """Collecting an expanded polynomial gathers every power of every variable, in order."""
    s = src
    atoms = gen_atoms(s)
    n = len(atoms)
    p = {}
    for _ in range(s.int(2, 9)):
        m = {}
        for v in range(n):
            e = s.weighted([(5, 0), (4, 1), (3, 2), (1, 3), (1, -1), (1, F(1, 2)), (1, -2)])
            if e:
                m[v] = e
        p[frozenset(m.items())] = F(s.choice(COEFF))
    if any(isinstance(e, F) for m in p for _, e in m):
        # fractional powers: keep them to plain variables so canonical forms are unambiguous
        if any(a.type_name != "Variable" for a in atoms):
            raise Reject("fractional power of a compound atom")
    at = [a for a in atoms]

    class P:
        def __init__(self, a):
            self.a = a

        def __pow__(self, e):
            return sym.pow(self.a, num(F(e)))
    wrapped = [P(a) for a in at]
    e = to_expr(p, wrapped)
    cv = s.perm(range(n))[:s.int(1, min(3, n))]
    want = c_model(p, cv, wrapped)
    got = e.collect([atoms[v] for v in cv]) if len(cv) > 1 or s.bool() else e.collect(atoms[cv[0]])
    if not got.is_identical_to(want):
        raise Violation("collect differs from the model", expr=e, terms=[atoms[v] for v in cv],
                        result=got, model=want)
    # idempotent, and acts inside other nodes and matrices
    again = got.collect([atoms[v] for v in cv])
    if not again.is_identical_to(got):
        raise Violation("collecting twice differs from once", expr=got, result=again)
    f = sym.exp(e).collect([atoms[v] for v in cv])
    if not f.is_identical_to(sym.exp(want)):
        raise Violation("collect does not act inside a function argument", expr=e, result=f)
    if all(isinstance(x, int) for m in p for _, x in m):
        back = got.distribute()
        if not back.is_identical_to(e):
            raise Violation("distribute does not undo collect", expr=e, collected=got, back=back)
    groups = {}
    for m in p:
        k = dict(m).get(cv[0], 0)
        if k:
            groups[k] = groups.get(k, 0) + 1
    if any(c >= 2 for c in groups.values()):
        ctx.mark((repr(e), repr(cv)), f"({e!r}).collect({[atoms[v] for v in cv]!r}) -> {got!r}")


def has_expandable(e):
    """A product with a sum as a factor, or a power >= 2 of a sum, anywhere in e."""
    for n in nodes(e):
        if n.type_name == "Multiplication":
            for f in n.args:
                if f.type_name == "Addition":
                    return n
        if n.type_name == "Power" and n.args[0].type_name == "Addition" and \
                n.args[1].type_name == "IntegerConstant" and int(repr(n.args[1])) > 1:
            return n
    return None


def nterms(e, worst):
    """Upper bound on the number of terms of the expansion."""
    t = e.type_name
    k = [nterms(a, worst) for a in e.args]
    r = 1
    if t == "Addition":
        r = sum(k)
    elif t == "Multiplication":
        for a in k:
            r *= a
    elif t == "Power" and k[0] > 1:
        x = e.args[1]
        n = {"IntegerConstant": lambda: abs(int(repr(x))),
             "RationalConstant": lambda: abs(int(repr(x).split("/")[0])) // 2 + 1}.get(
                 x.type_name, lambda: 1)()
        r = k[0] ** min(n, 40)
    worst[0] = max(worst[0], r)
    return r


def duplicates(e, v):
    """An addition in which two terms carry the same power of v."""
    for n in nodes(e):
        if n.type_name != "Addition":
            continue
        seen = {}
        for t in n.args:
            for f in (t.args if t.type_name == "Multiplication" else [t]):
                b, x = f.args if f.type_name == "Power" else (f, sym.integer(1))
                if b.is_identical_to(v):
                    if x in seen:
                        return n
                    seen[x] = t
    return None


def general(src, ctx):
    """Any expression: the value is kept, and the form is reached."""
    s = src
    g = Gen(s, syms=("x", "y", "p", "u"), cond=0.1, share=0.4, heavy_pow=s.bool(0.3),
            fun_names=["cos", "sin", "exp", "abs", "atan", "sqrt", "tanh"])
    t = g.expr(s.int(2, 4))
    e = lib(lambda: Builder(sym, SYMS)(t))
    finite(e)
    worst = [0]
    nterms(e, worst)
    if worst[0] > 3000:
        raise Reject("too many terms")
    if s.bool():
        op = "distribute"
        r = lib(lambda: e.distribute())
        bad = has_expandable(r)
        if bad is not None:
            raise Violation("a product of sums is left after distribute", expr=e, result=r, left=bad)
    else:
        op = "collect"
        vs = [SYMS[n] for n in s.perm(["x", "y", "p", "u"])[:s.int(1, 3)]]
        if s.bool(0.3):
            c = [n for n in nodes(e) if isinstance(n, sym.Expr)
                 and n.type_name == "BuiltInFunctionInvocation"]
            if c:
                vs.insert(s.draw(len(vs)), s.choice(sorted(c, key=repr)))
        r = lib(lambda: e.collect(vs))
        # coefficients that are sums merge with the new coefficient and are not collected again
        nested = any(n.type_name == "Multiplication" and
                     any(f.type_name == "Addition" for f in n.args) for n in nodes(e))
        bad = None if nested else duplicates(r, vs[0])
        if bad is not None:
            raise Violation("two terms with the same power are left after collect", expr=e,
                            terms=vs, result=r, left=bad)
    c = p01_compare(t, r, s, ctx, False, inner=t, original=e, operation=op)
    if c and not r.is_identical_to(e):
        ctx.mark((op, repr(e)), f"{op}({e!r}) -> {r!r}")
        ctx.label(op)


def matrices(src, ctx):
    s = src
    g = Gen(s, syms=("x", "y", "z"), cond=0.1, heavy_pow=False, fun_names=["cos", "exp"])
    n, m = s.int(1, 3), s.int(1, 3)
    es = [lib(lambda: Builder(sym, SYMS)(g.expr(3))) for _ in range(n * m)]
    M = sym.matrix([es[i * m:(i + 1) * m] for i in range(n)])
    vs = [SYMS[k] for k in s.perm(["x", "y", "z"])[:s.int(1, 2)]]
    for name, f in (("distribute", lambda e: e.distribute()), ("collect", lambda e: e.collect(vs))):
        r = lib(lambda: f(M))
        if r.shape != M.shape:
            raise Violation(name + " changed the shape", matrix=M, result=r)
        for a, b in zip(r.to_flat_list(), es):
            if not a.is_identical_to(lib(lambda: f(b))):
                raise Violation(f"matrix {name} differs from its entries", entry=b, got=a)
    if any(not f.distribute().is_identical_to(f) for f in es):
        ctx.mark(repr(M), repr(es))


def literals(src, ctx):
    s = src
    e = X["x"] * 3 + X["y"]
    v = s.choice([sym.integer(s.sint(4)), sym.rational(s.int(1, 5), 7), sym.float_constant(s.sint(9) / 2 + 0.0)])
    vs = s.perm([v] + [X["x"], X["y"]][:s.draw(2)])
    try:
        r = e.collect(vs)
    except ERRS:
        ctx.mark(repr(vs), f"collect({vs!r}) refused")
        return
    raise Violation("collect accepted a numeric literal", terms=vs, result=r)


KNOWN = {}


def streams():
    return [Stream("expand", expand, 40000, 800000), Stream("collect", collect, 40000, 800000),
            Stream("general", general, 50000, 1200000), Stream("matrices", matrices, 3000, 60000),
            Stream("literals", literals, 200, 2000)]
