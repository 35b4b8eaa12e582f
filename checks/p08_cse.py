"""P08: common-subexpression elimination."""
import wfexpr
import p01_value as p01
from p05_substitution import nodes, finite, lib, ERRS
from pbt import Reject, Violation, Stream
from mpmath import mpf
from wfexpr import (Gen, Builder, Num, WfEval, make_symbols, show, draw_point, Undef, Unstable,
                    NotValue, has_float, SETS)
from wrenfold import sym
from wrenfold.enumerations import NumberSet

RULE = ("scalar/matrix: >= 2 replacements were extracted, one of which refers to an earlier one; "
        "abstract: >= 1 replacement extracted from an expression holding symbolic functions, "
        "derivatives or substitutions; usage: the call form was exercised with >= 1 replacement.")
ASSUMPTIONS = ["the caller's variables do not occur in the input (the default names are documented "
               "as v0, v1, ...)",
               "an occurrence is a reference from a distinct parent expression (or matrix entry), "
               "as documented; the root itself has no parent"]
SYMS = make_symbols(sym, NumberSet)
LEAF = {"Variable", "UniqueVariable", "FunctionArgumentVariable", "IntegerConstant",
        "RationalConstant", "FloatConstant", "SymbolicConstant", "ImaginaryUnit", "ComplexInfinity",
        "Undefined", "BooleanConstant"}


def reference_counts(roots, is_matrix):
    """(number of references from distinct parents) for every scalar below the root."""
    counts, seen = {}, set()

    def child(c):
        if isinstance(c, sym.Expr):
            counts[c] = counts.get(c, 0) + 1
        key = (isinstance(c, sym.Expr), c)
        if key not in seen:
            seen.add(key)
            for a in c.args:
                child(a)

    if is_matrix:
        for r in roots:
            child(r)
    else:
        seen.add((True, roots[0]))
        for a in roots[0].args:
            child(a)
    return counts


def fractional(e):
    return any(n.type_name == "Power" and n.args[1].type_name != "IntegerConstant"
               for n in nodes(e))


def check(e, mat, s, ctx, mk, names, k, call, value=True):
    roots = list(e.to_flat_list()) if mat else [e]
    for r in roots:
        finite(r)
    try:
        out, reps = call()
    except ERRS as ex:
        if "overflow" in str(ex):
            raise Reject("overflow")
        raise Violation("eliminate_subexpressions raised", expr=e, error=str(ex)[:300])
    if mat and out.shape != e.shape:
        raise Violation("shape changed", expr=e, out=out)
    outs = list(out.to_flat_list()) if mat else [out]
    vs = [v for v, _ in reps]
    # the variables are the ones asked for, in order, each once
    for i, v in enumerate(vs):
        if not v.is_identical_to(mk(i)):
            raise Violation("replacement variable is not the one requested", expr=e, index=i, got=v,
                            want=mk(i))
    vset = {v: i for i, v in enumerate(vs)}
    # each value refers only to earlier variables
    chained = False
    for i, (v, val) in enumerate(reps):
        if not isinstance(val, sym.Expr):
            raise Violation("replacement value is not a scalar", expr=e, value=val)
        for nd in nodes(val):
            if isinstance(nd, sym.Expr) and nd in vset:
                if vset[nd] >= i:
                    raise Violation("a replacement refers to itself or a later one", expr=e, reps=reps)
                chained = True
        if val.type_name in LEAF:
            # a leaf replacement can only appear when rebuilding with variables simplifies it
            ctx.label("leaf-value")
    # substituting back (last first) gives the input
    back = [(v, val) for v, val in reversed(reps)]
    try:
        full = {}
        for i, (v, val) in enumerate(reps):
            full[v] = val.subs(list(reversed(reps[:i]))) if i else val
        res = [o.subs(back) if back else o for o in outs]
    except ERRS as ex:
        raise Violation("substituting the replacements back raised", expr=e, reps=reps,
                        error=str(ex)[:200])
    # Fractional powers of compound bases are only merged in some groupings (see P03), so a rebuilt
    # expression may take another form there; the value comparison below still applies.
    soft = any(fractional(r) for r in roots)
    for a, b in zip(roots, res):
        if not soft and not a.is_identical_to(b):
            raise Violation("substituting the replacements back does not give the input", expr=a,
                            out=out, reps=reps, back=b)
    # exactly the subexpressions with enough occurrences
    cnt = reference_counts(roots, mat)
    want = {x for x, c in cnt.items() if c >= k and x.type_name not in LEAF}
    got = list(full.values())
    if len(got) != len(want):
        raise Violation("number of extracted expressions differs from the number that occur often "
                        "enough", expr=e, min_occurrences=k, reps=reps, want=want)
    if soft:
        ctx.label("fractional powers: value only")
        got, full = list(want), {}
    for v, g in full.items():
        if g not in want:
            raise Violation("extracted expression does not occur often enough", expr=e, value=g,
                            occurrences=cnt.get(g, 0), min_occurrences=k, reps=reps)
    if len(set(got)) != len(got):
        raise Violation("the same expression was extracted twice", expr=e, reps=reps)
    for w in want:
        if w not in set(got):
            raise Violation("a repeated expression was not extracted", expr=e, missing=w,
                            occurrences=cnt[w], min_occurrences=k, out=out, reps=reps)
    # values at a point, computing the replacements in order
    if value:
        env = draw_point(s, names)
        fl = any(has_float(r) for r in roots)
        num = Num(noise=mpf(10) ** -9) if fl else Num()
        try:
            a = [WfEval(env, num)(r) for r in roots]
            env2 = dict(env)
            for v, val in reps:
                env2[v] = WfEval(env2, num)(val)
            b = [WfEval(env2, num)(o) for o in outs]
        except (Undef, Unstable, NotValue, Reject):
            ctx.label("point skipped")
            return reps, chained
        tol = (mpf(10) ** -9 if fl else mpf(10) ** -24) * (1 + num.maxabs ** 2)
        for x, y in zip(a, b):
            if abs(x - y) > tol:
                raise Violation("evaluating the replacements in order changes the value", expr=e,
                                out=out, reps=reps, want=x, got=y)
        ctx.label("point compared")
    return reps, chained


def maker(s):
    pre = s.choice(["v", "t_", "aa", "Q"])
    kind = s.draw(3)
    if kind == 0:
        return None, lambda i: sym.symbol(f"v{i}")
    if kind == 3:
        base = sym.make_symbols(*[f"w{j}" for j in range(200)])
        perm = s.perm(list(range(30))) + list(range(30, 200))
        f = lambda i: base[perm[i]]
        return f, f
    NS = s.choice([NumberSet.Unknown, NumberSet.Complex])
    f = lambda i: sym.symbol(f"{pre}{i}", NS)
    return f, f


def thresholds(s):
    return s.weighted([(6, 2), (3, 3), (2, 4), (1, 1), (1, 0), (1, 5)])


def tree(s, abstract=False):
    g = Gen(s, syms=("x", "y", "p", "u"), cond=0.2, share=0.5, floats=0.05, abstract=abstract,
            consts=0.05)
    ts = [g.expr(s.int(1, 4)) for _ in range(s.int(1, 4))]
    return ts


def scalar(src, ctx):
    s = src
    ts = tree(s)
    t = ("add",) + tuple(ts) if len(ts) > 1 and s.bool(0.6) else \
        ("mul",) + tuple(ts) if len(ts) > 1 else ts[0]
    e = lib(lambda: Builder(sym, SYMS)(t))
    k = thresholds(s)
    f, mk = maker(s)
    form = s.draw(2)
    call = [lambda: sym.eliminate_subexpressions(e, f, k),
            lambda: sym.eliminate_subexpressions(e, make_variable=f, min_occurrences=k),
            lambda: sym.eliminate_subexpressions(expr=e, make_variable=f, min_occurrences=k)][form]
    reps, ch = check(e, False, s, ctx, mk, sorted(wfexpr.syms_in(t)), k, call)
    if len(reps) >= 2 and ch:
        ctx.mark((repr(e), k), f"k={k}: {e!r} -> {reps!r}")


def matrix(src, ctx):
    s = src
    ts = tree(s)
    n, m = s.int(1, 3), s.int(1, 3)
    b = Builder(sym, SYMS)
    es = lib(lambda: [b(s.choice(ts)) if s.bool(0.6) else b(("fn", "cos", s.choice(ts)))
                      for _ in range(n * m)])
    M = sym.matrix([es[i * m:(i + 1) * m] for i in range(n)])
    k = thresholds(s)
    f, mk = maker(s)
    call = [lambda: sym.eliminate_subexpressions(M, f, k),
            lambda: sym.eliminate_subexpressions(M, make_variable=f, min_occurrences=k)][s.draw(1)]
    names = sorted({x for t in ts for x in wfexpr.syms_in(t)})
    reps, ch = check(M, True, s, ctx, mk, names, k, call)
    if len(reps) >= 2 and ch:
        ctx.mark((repr(M), k), f"k={k}: {M!r} -> {reps!r}")


def abstract(src, ctx):
    s = src
    ts = tree(s, True)
    t = ("add",) + tuple(ts) if len(ts) > 1 and s.bool(0.6) else \
        ("mul",) + tuple(ts) if len(ts) > 1 else ts[0]
    e = lib(lambda: Builder(sym, SYMS)(t))
    if any(nd.type_name in ("Derivative", "Substitution") for nd in nodes(e)):
        # bound variables: only the form is judged
        ctx.label("bound variables")
        raise Reject("bound variables")
    k = thresholds(s)
    f, mk = maker(s)
    reps, ch = check(e, False, s, ctx, mk, [], k, lambda: sym.eliminate_subexpressions(e, f, k),
                     value=False)
    if reps:
        ctx.mark((repr(e), k), f"k={k}: {e!r} -> {reps!r}")


def usage(src, ctx):
    """Documented call forms and defaults."""
    s = src
    ts = tree(s)
    t = ("add", ts[0], ("fn", "cos", ts[0]), ("mul", ("sym", "z"), ts[0]))
    e = lib(lambda: Builder(sym, SYMS)(t))
    mat = s.bool()
    if mat:
        e = sym.vector(e, sym.sin(e))
    want = sym.eliminate_subexpressions(e, None, 2)
    for c in (lambda: sym.eliminate_subexpressions(e),
              lambda: sym.eliminate_subexpressions(e, None),
              lambda: sym.eliminate_subexpressions(e, min_occurrences=2),
              lambda: sym.eliminate_subexpressions(e, make_variable=lambda i: sym.symbol(f"v{i}"))):
        try:
            got = c()
        except Exception as ex:
            raise Violation("documented call form rejected", expr=e, error=repr(ex)[:300])
        if not (got[0].is_identical_to(want[0]) and len(got[1]) == len(want[1])
                and all(a.is_identical_to(c) and b.is_identical_to(d)
                        for (a, b), (c, d) in zip(got[1], want[1]))):
            raise Violation("call forms disagree", expr=e, got=got, want=want)
    if want[1]:
        ctx.mark(repr(e), f"{e!r} -> {want!r}")


KNOWN = {}


def streams():
    return [Stream("scalar", scalar, 40000, 1000000), Stream("matrix", matrix, 20000, 500000),
            Stream("abstract", abstract, 10000, 300000), Stream("usage", usage, 3000, 50000)]
