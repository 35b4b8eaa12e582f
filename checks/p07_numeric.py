"""P07: numeric evaluation and conversion from/to Python numbers and NumPy arrays."""
import math, warnings
from fractions import Fraction
from decimal import Decimal
import numpy as np
from mpmath import mpf, mpc, mp
import wfexpr
import p01_value as p01
from p05_substitution import nodes, lib, ERRS
from pbt import Reject, Violation, Stream
from wfexpr import (Gen, Builder, Num, Ref, make_symbols, show, size, syms_in, kinds, Undef, Unstable,
                    isreal, FUN1)
from wrenfold import sym
from wrenfold.enumerations import NumberSet

RULE = ("constants/points: an expression of >= 4 nodes evaluated to a number that was compared with the "
        "160-bit value; arrays: >= 2 distinct entries converted in and back out; scalars: a number "
        "outside [-1, 1] or special (-0.0, subnormal, extreme) went through.")
ASSUMPTIONS = ["complex powers and functions that the library keeps symbolic raise TypeError; a real "
               "computation must produce a number",
               "tolerance: 1e-12 relative to the largest intermediate, widened by a measured condition"]
SYMS = make_symbols(sym, NumberSet)
EPS = mpf(2) ** -52


class Seen(Num):
    """Notes complex intermediates and values outside double range."""
    cplx = False

    def chk(self, v):
        v = super().chk(v)
        if not isreal(v):
            self.cplx = True
        return v


def reference(t, env):
    num = Seen(noise=mpf(10) ** -9)
    ref = Ref(env, num)(t)
    devs = [abs(Ref(env, Num(noise=mpf(10) ** -9), perturb=mpf(10) ** -12, salt=d)(t) - ref)
            for d in (1, 2, 3)]
    tol = 20 * max(devs) + (1 + abs(ref) + num.maxabs) * mpf(10) ** -13
    if tol > mpf(10) ** -4 * (1 + abs(ref)):
        raise Reject("ill-conditioned")
    return ref, tol, num.cplx


def number(v):
    if isinstance(v, (bool, str)) or not isinstance(v, (int, float, complex, np.generic)):
        raise Violation("eval returned something that is not a number", value=v, type=type(v))
    v = complex(v)
    return mpc(v.real, v.imag) if v.imag != 0 else mpf(v.real)


def constants(src, ctx):
    """Constant expressions evaluated through matrices (every literal becomes a double)."""
    s = src
    cplx = s.bool(0.3)
    k = s.int(1, 4)
    ts, es, refs = [], [], []
    for _ in range(k):
        g = Gen(s, syms=("x",), floats=s.choice([0.0, 0.3]), cond=0.15, I=cplx, consts=0.3)
        t = g.expr(s.int(1, 3))
        # constants only: replace the symbol by pi or a number
        t = subst_const(t, s.choice([("const", "pi"), ("const", "E"), ("rat", 7, 3), ("int", 2),
                                     ("fn", "sqrt", ("int", 2))]))
        ts.append(t)
        es.append(lib(lambda: Builder(sym, SYMS)(t)))
        try:
            refs.append(reference(t, {}))
        except (Undef, Unstable, Reject):
            raise Reject("no reference value")
    cols = s.choice([c for c in (1, 2, 3, 4) if k % c == 0])
    M = sym.matrix([es[i:i + cols] for i in range(0, k, cols)])
    try:
        got = M.eval()
    except ERRS as ex:
        if any(c for _, _, c in refs) or cplx or "symbolic components" not in str(ex):
            raise Reject("kept symbolic")
        if any(p01.known_explains(t, {}) for t in ts):
            raise Reject("known finding of P01")
        raise Violation("a real constant could not be evaluated", exprs=es, trees=[show(t) for t in ts],
                        error=str(ex)[:200])
    if got.shape != M.shape:
        raise Violation("eval changed the shape", matrix=M, got=got)
    for t, e, (ref, tol, _), v in zip(ts, es, refs, got.reshape(-1)):
        v = number(v)
        if not (mp.isfinite(mp.re(v)) and mp.isfinite(mp.im(v))) or abs(v - ref) > tol:
            if p01.known_explains(t, {}):
                raise Reject("known finding of P01")
            raise Violation("evaluated value differs", tree=show(t), expr=e, got=v, expected=ref, tol=tol)
    if sum(size(t) for t in ts) >= 4:
        ctx.mark(repr(es), f"eval({es!r}) = {got.tolist()!r}")
        if any(c for _, _, c in refs):
            ctx.label("complex")


def subst_const(t, c):
    if t[0] == "sym":
        return c
    return tuple(subst_const(a, c) if isinstance(a, tuple) else a for a in t)


def points(src, ctx):
    """Scalar eval after substituting numbers for every symbol; TypeError while symbols remain."""
    s = src
    g = Gen(s, syms=("x", "y", "p"), cond=0.15, consts=0.0, floats=s.choice([0.0, 0.3]))
    t = g.expr(s.int(2, 4))
    names = sorted(syms_in(t))
    if not names:
        raise Reject("no symbols")
    e = lib(lambda: Builder(sym, SYMS)(t))
    vals, env = {}, {}
    for n in names:
        v = s.int(1, 63) / s.choice([16, 8, 10, 3])
        if n != "p" and s.bool():
            v = -v
        vals[n], env[n] = v, mpf(v)
    try:
        ref, tol, cplx = reference(t, env)
    except (Undef, Unstable):
        raise Reject("no reference value")
    # a variable left symbolic: no number
    left = {x for x in nodes(e) if x.type_name == "Variable"}
    if len(left) >= 1:
        try:
            e.eval()
        except ERRS:
            pass
        else:
            raise Violation("an expression with symbols evaluated to a number", expr=e)
    r = e
    try:
        if s.bool():
            r = e.subs([(SYMS[n], sym.float_constant(vals[n])) for n in names])
        else:
            for n in s.perm(names):
                r = r.subs(SYMS[n], vals[n])
    except ERRS:
        raise Reject("library error")
    exact = {x.type_name for x in nodes(r)}
    mat = lambda: sym.matrix([[r]]).eval()[0, 0]
    try:
        try:
            v = r.eval() if s.bool() else mat()
        except ERRS:
            # known finding: scalar eval leaves exact rationals, radicals, cos(1), pi... alone;
            # matrix eval turns them into numbers
            if not exact & {"RationalConstant", "SymbolicConstant", "Power",
                            "BuiltInFunctionInvocation", "Conditional", "IversonBracket"}:
                raise
            v = mat()
            ctx.label("known finding: scalar eval of exact constants")
    except ERRS as ex:
        if cplx or p01.known_explains(t, env):
            raise Reject("kept symbolic")
        raise Violation("a real computation could not be evaluated", expr=e, values=vals, result=r,
                        error=str(ex)[:200])
    v = number(v)
    if not (mp.isfinite(mp.re(v)) and mp.isfinite(mp.im(v))) or abs(v - ref) > tol:
        if p01.known_explains(t, env):
            raise Reject("known finding of P01")
        raise Violation("evaluated value differs", tree=show(t), expr=e, values=vals, got=v,
                        expected=ref, tol=tol, result=r)
    if size(t) >= 4:
        ctx.mark((repr(e), str(vals)), f"({e!r}) at {vals} = {v}")


INTS = [0, 1, -1, 2 ** 31, -2 ** 31 - 1, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 62 + 12345, 255, 65536]
FLTS = [0.0, -0.0, 1.0, 0.1, -2.5, 1e300, -1e-300, 5e-324, 2.0 ** 53, 1 / 3, 1e22, 123456789.125,
        1.7976931348623157e308, -4.0, 3.0]


def same(a, b):
    """Equal as numbers, and the same double when floating."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b and isinstance(a, int) == isinstance(b, int)


def scalars(src, ctx):
    """Python and NumPy scalars -> expression -> number."""
    s = src
    k = s.draw(4)
    if k == 0:
        v = s.choice(INTS) if s.bool() else s.sint(2 ** 62)
        w, want = v, v
    elif k == 1:
        v = s.choice(FLTS) if s.bool() else s.sint(2 ** 50) * 2.0 ** s.int(-60, 30)
        w, want = v, float(v)
    elif k == 2:
        dt = s.choice([np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64])
        i = np.iinfo(dt)
        v = s.choice([i.min, i.max if dt is not np.uint64 else 2 ** 63 - 1, 0, 1, s.int(0, 100)])
        w, want = dt(v), int(v)
    elif k == 3:
        dt = s.choice([np.float16, np.float32, np.float64])
        w = dt(s.choice([0.0, 0.1, -2.5, 1 / 3, 3.0, 6.1e-5, 1000.5]))
        want = float(w)
        if s.bool(0.2):
            w = s.choice([Fraction(5, 2), Fraction(-7, 4), Decimal("0.75"), np.array(w)])
            want = float(w)
    else:
        w = s.choice([True, False])
        want = int(w)
    how = s.draw(4)
    x = SYMS["x"]
    ok = lambda e: e.eval()
    if how == 0:
        got = ok(x.subs(x, w))
    elif how == 1:
        got = sym.vector(w, 2)[0].eval()
    elif how == 2:
        got = ok(sym.addition([x, w]).subs(x, sym.integer(0)))
    elif how == 3:
        got = ok(sym.multiplication([x, w]).subs(x, sym.integer(1)))
    else:
        got = ok(sym.max(w, w))
    if how in (2, 3) and want == 0:
        want = got if got == 0 else want    # 0.0*x is an exact zero, 0 + -0.0 is 0.0
    if not same(got, want):
        raise Violation("a number changed on its way through an expression", value=w, how=how, got=got,
                        want=want)
    # complex a + b*I
    if k in (0, 1):
        re, im = s.choice([1.5, -0.25, 3.0, 7.0, 0.5]), s.choice([2.0, -1.25, 0.5, -3.0])
        if s.bool():
            re = int(re) or 1
        if s.bool():
            im = int(im) or 2
        z = (sym.I * im + re).eval()
        if z != complex(re, im):
            raise Violation("complex number changed", want=complex(re, im), got=z)
    if want not in (0, 1, -1):
        ctx.mark((repr(w), how), f"{w!r} -> {got!r}")


DTYPES = [np.int64, np.int32, np.int8, np.uint8, np.uint16, np.int16, np.uint32, np.float64, np.float32,
          np.float16, np.bool_]


def arrays(src, ctx):
    """NumPy arrays of any real dtype, byte order, memory layout -> matrix -> NumPy."""
    s = src
    dt = np.dtype(s.choice(DTYPES))
    n, m = s.int(1, 5), s.int(1, 5)
    if dt.kind == "f":
        pool = [0.0, 1.5, -2.25, 0.1, 1 / 3, 100.0, -7.0, 3e4, 2.0]
    elif dt.kind == "b":
        pool = [True, False]
    else:
        i = np.iinfo(dt)
        pool = [0, 1, 2, 3, i.min, i.max, 17, 100, i.max - 1]
    big = np.array([s.choice(pool) for _ in range(2 * n * 2 * m)], dtype=dt).reshape(2 * n, 2 * m)
    lay = s.draw(8)
    if lay == 0:
        a = np.ascontiguousarray(big[:n, :m])
    elif lay == 1:
        a = np.asfortranarray(big[:n, :m])
    elif lay == 2:
        a = big[::2, ::2]
    elif lay == 3:
        a = big[n - 1::-1, m - 1::-1] if n > 0 else big[:n, :m]
    elif lay == 4:
        a = big[:m, :n].T
    elif lay == 5:
        a = big[1:n + 1, -m:]
    elif lay == 6:
        a = np.broadcast_to(big[:1, :m], (n, m))
    elif lay == 7:
        a = np.array(big[:n, :m], dtype=object)
    else:
        a = big[:n, :m].astype(dt.newbyteorder())
    if dt.kind == "f" and lay == 7:
        a = np.array([[float(v) for v in r] for r in big[:n, :m]], dtype=object)
    a.flags.writeable = lay not in (0, 6) and a.flags.writeable
    want = np.array([[int(v) if dt.kind in "iub" else float(v) for v in r] for r in a], dtype=object)
    one = s.bool(0.2)
    if one:
        a1 = a[:, 0] if s.bool() else a.reshape(-1)
        mat = sym.matrix(a1)
        want = np.array([int(v) if dt.kind in "iub" else float(v) for v in a1], dtype=object)[:, None]
    elif s.bool(0.2):
        mat = sym.matrix([list(r) for r in a] if s.bool() else [tuple(r) for r in a])
    elif s.bool(0.2):
        mat = sym.vstack([sym.row_vector(*r) for r in a])
    else:
        mat = sym.matrix(a)
    if mat.shape != want.shape:
        raise Violation("array -> matrix changed the shape", array=a, layout=lay, got=mat)
    for i in range(want.shape[0]):
        for j in range(want.shape[1]):
            e = mat[i, j]
            if not same(e.eval(), want[i, j]):
                raise Violation("array -> matrix changed an entry", dtype=dt, layout=lay, at=(i, j),
                                array=repr(a), got=e, want=want[i, j])
    out = np.array(mat) if s.bool() else np.asarray(mat)
    if out.shape != want.shape or not all(same(x, y) or (isinstance(y, int) and x == y) for x, y in zip(
            out.reshape(-1).tolist(), want.reshape(-1).tolist())):
        raise Violation("matrix -> array changed entries", matrix=mat, got=out, want=want)
    if dt.kind in "iub" and out.dtype.kind != "i" or dt.kind == "f" and out.dtype != np.float64:
        raise Violation("matrix -> array dtype", matrix=mat, dtype=out.dtype, source=dt)
    ev = mat.eval()
    if ev.shape != want.shape or not np.array_equal(ev.astype(float), want.astype(float)):
        raise Violation("matrix eval differs", matrix=mat, got=ev, want=want)
    if len({str(v) for v in want.reshape(-1)}) >= 2:
        ctx.mark((repr(mat), lay, dt.str), f"{dt} layout {lay}: {mat!r}")
        ctx.label(f"layout{lay}")


def mixed(src, ctx):
    """Matrices mixing integers, floats, complex numbers and symbols -> NumPy."""
    s = src
    n, m = s.int(1, 4), s.int(1, 4)
    vals, es = [], []
    for _ in range(n * m):
        k = s.weighted([(4, "i"), (4, "f"), (1, "c"), (1, "s"), (1, "I")])
        if k == "i":
            v = s.choice(INTS[:6])
            e = sym.integer(v)
        elif k == "f":
            v = s.choice(FLTS)
            e = sym.float_constant(v)
        elif k == "c":
            a, b = s.choice([1.5, -2.0, 3.25]), s.choice([0.5, -4.5, 2.0])
            v, e = complex(a, b), sym.float_constant(a) + sym.I * b
        elif k == "I":
            b = s.choice([2, -3, 5])
            v, e = complex(0, b), sym.I * b
        else:
            v, e = None, s.choice([SYMS["x"], SYMS["x"] + 1.5, sym.zoo, sym.nan])
        vals.append(v)
        es.append(e)
    M = sym.matrix([es[i * m:(i + 1) * m] for i in range(n)])
    try:
        out = np.array(M)
    except ERRS:
        if None in vals:
            ctx.mark(repr(es), f"np.array({es!r}) refused")
            return
        raise Violation("a numeric matrix could not be converted", matrix=M)
    if None in vals:
        raise Violation("a matrix with symbols was converted to numbers", matrix=M, got=out)
    want = np.array(vals, dtype=complex if any(isinstance(v, complex) for v in vals) else
                    float if any(isinstance(v, float) for v in vals) else np.int64).reshape(n, m)
    if out.shape != (n, m) or out.dtype != want.dtype or not np.array_equal(out, want):
        raise Violation("matrix -> array differs", matrix=M, got=out, want=want)
    ctx.mark(repr(es), repr(out.tolist()))


def _k_eval():
    try:
        sym.rational(1, 3).eval()
    except ERRS:
        return True
    return False


KNOWN = {"scalar-eval-exact-constants": _k_eval}


def streams():
    return [Stream("constants", constants, 60000, 1200000), Stream("points", points, 40000, 900000),
            Stream("scalars", scalars, 10000, 200000), Stream("arrays", arrays, 15000, 300000),
            Stream("mixed", mixed, 5000, 100000)]
