"""P01: building an expression never changes its value."""
from mpmath import mpf, mp
import pbt
from pbt import Reject, Violation, Stream
from wfexpr import *
from wrenfold import sym
from wrenfold.enumerations import NumberSet
SYMS = make_symbols(sym, NumberSet)

RULE = ("A case is a random expression tree plus assignments of exact values drawn from each "
        "symbol's declared number set; non-trivial = the tree has >= 4 nodes, every subexpression "
        "is defined at >= 1 assignment, and wrenfold's expression was evaluated and compared there.")
ASSUMPTIONS = ["principal-branch semantics; points on branch cuts, poles and ties that cannot be "
               "decided at 160-bit precision are skipped"]


# ---- known findings: pinned by the repository's own tests, so recorded instead of repaired -------
def _reals_only(t):
    return all(SETS[n] in ("real", "positive", "nonneg") for n in syms_in(t)) \
        and "I" not in {a for a in str(t).replace("'", " ").split()}


def known_explains(t, env):
    """Id of the known finding that accounts for a mismatch of tree t at this point, or None.

    Only consulted after a mismatch, and only true where a wrongly claimed number set of a nested
    node can have been used by an enclosing power/abs/sign/exp."""
    def val(x):
        try:
            return Ref(env)(x)
        except (Undef, Unstable, Reject):
            return None

    def walk(x, inside):
        op = x[0]
        is_pow = op == "pow" or (op == "fn" and x[1] == "sqrt")
        if inside and op == "fn" and x[1] == "log":
            v, a = val(x), val(x[2])
            if v is not None and a is not None and isreal(a) and a > 0 and v <= 0 \
                    and _reals_only(x[2]):
                return "log-claimed-positive"
        if is_pow:
            b = val(x[1] if op == "pow" else x[2])
            ex = val(x[2]) if op == "pow" else mpf(1) / 2
            if inside and b is not None and ex is not None:
                if isreal(b) and b < 0 and isreal(ex) and ex != int(ex) \
                        and _reals_only(x[1] if op == "pow" else x[2]):
                    return "pow-of-real-claimed-real"
                if isreal(b) and b >= 0 and not isreal(ex):
                    return "nonreal-inner-exponent"
        for i, a in enumerate(x):
            if isinstance(a, tuple):
                ins = inside or (op == "pow" and i == 1) or \
                    (op == "fn" and x[1] in ("abs", "sign", "floor", "exp", "sqrt"))
                r = walk(a, ins)
                if r:
                    return r
        return None

    return walk(t, False)


def _k_log():
    p = SYMS["p"]
    return sym.sqrt(sym.log(p) ** 2).is_identical_to(sym.log(p))


def _k_pow():
    x = SYMS["x"]
    r = x + x ** sym.rational(5, 3)
    return sym.sqrt(x * r * r).type_name == "Multiplication"     # split as if r*r >= 0


def _k_inner():
    p, u = SYMS["p"], SYMS["u"]
    return (((p ** u) ** 2) ** sym.rational(1, 2)).is_identical_to(p ** u)


KNOWN = {"log-claimed-positive": _k_log, "pow-of-real-claimed-real": _k_pow,
         "nonreal-inner-exponent": _k_inner}


def compare(t, e, src, ctx, npts, floats):
    names = sorted(syms_in(t))
    used = 0
    floats = floats or has_float(e)     # numeric functions of I are folded in double precision
    for _ in range(npts):
        env = draw_point(src, names)
        num = Num(noise=mpf(10) ** -9) if floats else Num()
        try:
            ref = Ref(env, num)(t)
            if floats:
                delta = mpf(10) ** -12
                devs = [abs(Ref(env, Num(noise=mpf(10) ** -9), perturb=delta, salt=d)(t) - ref)
                        for d in (1, 2, 3)]
                tol = 20 * max(devs) + num.maxabs * mpf(10) ** -12
                if tol > mpf(10) ** -4 * (1 + abs(ref)):
                    ctx.label("ill-conditioned")
                    continue
            else:
                tol = mpf(10) ** -24 * (1 + num.maxabs ** 2)
        except Undef:
            ctx.label("point:undefined")
            continue
        except Unstable:
            ctx.label("point:unstable")
            continue
        except Reject as r:
            ctx.label("point:" + str(r))
            continue
        try:
            got = WfEval(env, Num(noise=mpf(10) ** -9) if floats else None)(e)
        except Unstable:
            ctx.label("point:result-unstable")
            continue
        except Reject as r:
            ctx.label("point:result-" + str(r))
            continue
        except (Undef, NotValue, ZeroDivisionError) as ex:
            k = known_explains(t, env)
            if k:
                ctx.label("known-finding:" + k)
                continue
            raise Violation("value lost: expression has no value where the input has one",
                            tree=show(t), wrenfold=e, env=env, expected=ref, problem=repr(ex))
        if not close(ref, got, tol):
            k = known_explains(t, env)
            if k:
                ctx.label("known-finding:" + k)
                continue
            raise Violation("value changed by construction/simplification", tree=show(t),
                            wrenfold=e, env=env, expected=ref, got=got, tol=tol)
        used += 1
    if used and size(t) >= 4:
        ctx.mark(show(t), show(t) + "  ->  " + repr(e))
    ctx.label("compared" if used else "no-usable-point")
    return used


def build(t, src, ctx):
    """Build t; an exception is legitimate only where the tree has no real/finite value at all."""
    try:
        return Builder(sym, SYMS)(t)
    except Reject:
        raise
    except Exception as ex:
        names = sorted(syms_in(t))
        for _ in range(4):
            env = draw_point(src, names)
            try:
                v = Ref(env)(t)
            except (Undef, Unstable, Reject):
                continue
            raise Violation(f"construction raised {type(ex).__name__} although the value exists",
                            tree=show(t), error=str(ex)[:300], env=env, expected=v)
        raise Reject("construction raised on a tree without a value")


def case(src, ctx, **opts):
    npts = opts.pop("npts", 2)
    g = Gen(src, **opts)
    t = g.expr(src.int(2, 4))
    e = build(t, src, ctx)
    compare(t, e, src, ctx, npts, bool(opts.get("floats")))


def real(src, ctx):
    case(src, ctx, syms=("x", "y", "p", "n"))


def positive(src, ctx):
    case(src, ctx, syms=("p", "q", "n"), cond=0.05)


def algebra(src, ctx):
    case(src, ctx, syms=("x", "p", "u"), cond=0, funcs=False, share=0.45)


def cplx(src, ctx):
    case(src, ctx, syms=("u", "w", "x"), I=True, cond=0, fun_names=[
        f for f in FUN1 if f not in ("floor", "sign")])


def floats(src, ctx):
    case(src, ctx, syms=("x", "p"), floats=0.5)


def streams():
    return [Stream("real", real, 80000, 2000000), Stream("algebra", algebra, 80000, 2000000),
            Stream("positive", positive, 40000, 1000000),
            Stream("complex", cplx, 50000, 1500000), Stream("floats", floats, 40000, 1000000)]
