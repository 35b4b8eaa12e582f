"""P11: quaternions and rotations against an independent high-precision model."""
from fractions import Fraction as F
import math
import numpy as np
from mpmath import mpf, mp
from p05_substitution import finite, lib, ERRS
from pbt import Reject, Violation, Stream
from wfexpr import WfEval, Num, Undef, Unstable, NotValue
from pywrenfold import exceptions
from wrenfold import sym, geometry
from wrenfold.enumerations import NumberSet
from wrenfold.geometry import Quaternion

RULE = ("every stream: the operation produced expressions holding >= 1 symbol or >= 2 non-zero "
        "constant components, and all of its entries were compared at the drawn point; small: the "
        "angle lies within a factor 4 of epsilon, or is zero, or epsilon is 0/None.")
ASSUMPTIONS = ["conversions and derivatives are claimed for unit quaternions (documented), sampled by "
               "exact rational parametrisation; epsilon=None at zero angle is documented as singular",
               "below epsilon the documented first-order approximation applies: its error is bounded "
               "by the first neglected power of the angle",
               "points within 1e-3 of the singular angles (pi for the inverse Jacobian, 2*pi) are "
               "not sampled"]
ERR = ERRS + (exceptions.DimensionError, TypeError, ValueError)
SETS = [NumberSet.Real, NumberSet.Unknown]
PREC = 420


def q2m(x):
    return mpf(x.numerator) / x.denominator if isinstance(x, F) else mpf(x)


# ------------------------------------------------------------------ reference model (mpf)
def qmul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return [aw * bw - ax * bx - ay * by - az * bz, aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw]


def conj(a):
    return [a[0], -a[1], -a[2], -a[3]]


def rotm(q):
    """Columns are the images of the basis vectors."""
    cols = [qmul(qmul(q, [0] + [int(i == j) for i in range(3)]), conj(q))[1:] for j in range(3)]
    return [[cols[j][i] for j in range(3)] for i in range(3)]


def qexp(v):
    n = mp.sqrt(sum(x * x for x in v))
    if n == 0:
        return [mpf(1), mpf(0), mpf(0), mpf(0)]
    s = mp.sin(n / 2) / n
    return [mp.cos(n / 2)] + [x * s for x in v]


def qlog(q):
    """Rotation vector with angle in [0, pi]; w == 0 counts as positive."""
    w, v = q[0], q[1:]
    n = mp.sqrt(sum(x * x for x in v))
    if n == 0:
        return [mpf(0)] * 3
    sg = -1 if w < 0 else 1
    a = 2 * mp.atan2(n, abs(w))
    return [sg * a * x / n for x in v]


def skew(v):
    return [[mpf(0), -v[2], v[1]], [v[2], mpf(0), -v[0]], [-v[1], v[0], mpf(0)]]


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))]
            for i in range(len(a))]


def left_jac(v):
    """sum_k skew(v)^k / (k+1)!"""
    k = skew(v)
    eye = [[mpf(int(i == j)) for j in range(3)] for i in range(3)]
    r, p, f = [row[:] for row in eye], eye, mpf(1)
    for n in range(1, 200):
        p = matmul(p, k)
        f = f * (n + 1)
        r = [[r[i][j] + p[i][j] / f for j in range(3)] for i in range(3)]
        if max(abs(x) for row in p for x in row) / f < mpf(2) ** -PREC:
            break
    return r


# ------------------------------------------------------------------ inputs
class In:
    """Numbers presented to the library as constants or as symbols with that value."""

    def __init__(self, s, psym=0.7):
        self.s, self.env, self.n, self.psym, self.k, self.big = \
            s, {}, 0, psym, 0, False

    def num(self, v):
        """v: Fraction -> (expr, mpf)."""
        s = self.s
        self.k += 1
        if max(abs(v.numerator), v.denominator) >= 2 ** 31:
            self.big = True          # constants of this size overflow (reported) when combined
        if self.big or s.bool(self.psym):
            name = sym.symbol(f"s{self.n}", s.choice(SETS))
            self.n += 1
            self.env[name] = q2m(v)
            if s.bool(0.15):       # an expression with the wanted value
                c = F(s.sint(3))
                self.env[name] = q2m(v - c)
                return name + sym.rational(c.numerator, c.denominator), q2m(v)
            return name, q2m(v)
        return sym.rational(v.numerator, v.denominator), q2m(v)


def frac(s, m=12):
    return F(s.sint(m), s.int(1, 6))


def unit_vec(s):
    """Exact rational unit 3-vector (stereographic), axes included."""
    if s.bool(0.3):
        v = [F(0)] * 3
        v[s.draw(2)] = F(s.choice([1, -1]))
        return v
    a, b = frac(s), frac(s)
    d = 1 + a * a + b * b
    v = [2 * a / d, 2 * b / d, (a * a + b * b - 1) / d]
    return s.perm(v)


def unit_quat(s):
    k = s.draw(9)
    if k == 0:
        q = [F(1), F(0), F(0), F(0)]
    elif k == 1:
        q = [F(0)] + unit_vec(s)                    # half turns
    elif k == 2:
        t = F(1, s.choice([10, 100, 1000]))     # near identity
        d = 1 + t * t
        q = [(1 - t * t) / d] + [2 * t / d * x for x in unit_vec(s)]
    elif k == 3:
        t = frac(s)
        d = 1 + t * t
        q = [(1 - t * t) / d] + [2 * t / d * x for x in unit_vec(s)]
    else:
        a, b, c = frac(s), frac(s), frac(s)
        d = 1 + a * a + b * b + c * c
        q = [(a * a + b * b + c * c - 1) / d, 2 * a / d, 2 * b / d, 2 * c / d]
        q = s.perm(q)
    if s.bool(0.4):
        q = [-x for x in q]
    return q


def quat(s, inp, q):
    es = [inp.num(x) for x in q]
    e = [a for a, _ in es]
    k = s.draw(5)
    if k <= 1:
        Q = Quaternion(*e)
    elif k == 2:
        Q = Quaternion.from_wxyz(sym.vector(*e))
    elif k == 3:
        Q = Quaternion.from_xyzw(sym.vector(e[1], e[2], e[3], e[0]))
    elif k == 4:
        Q = Quaternion.from_xyzw([e[1], e[2], e[3], e[0]])
    else:
        Q = Quaternion.from_wxyz(e if s.bool() else tuple(e))
    return Q, [b for _, b in es]


def evals(es, inp):
    num = Num(noise=mpf(10) ** -90, huge=mpf(10) ** 90)
    w = WfEval(inp.env, num)
    try:
        return [w(e) for e in es]
    except (Undef, Unstable, NotValue, Reject) as ex:
        raise Reject("point: " + str(ex)[:30])


def comps(Q):
    return [Q.w, Q.x, Q.y, Q.z]


def cmp(got, want, what, tol=None, **kw):
    tol = mpf(10) ** -60 if tol is None else tol
    if len(got) != len(want):
        raise Violation(what + ": size", got=got, want=want, **kw)
    for i, (a, b) in enumerate(zip(got, want)):
        if abs(a - b) > tol * max(1, abs(b)):
            raise Violation(what, component=i, got=mp.nstr(a, 25), want=mp.nstr(b, 25),
                            tolerance=mp.nstr(tol, 5), **kw)


def flat(m):
    return [x for r in m for x in r]


def mats(M, shape, what):
    if M.shape != shape:
        raise Violation(what + ": shape", got=M.shape, want=shape)
    return M.to_flat_list()


def high(fn):
    def g(src, ctx):
        with mp.workprec(PREC):
            try:
                return fn(src, ctx)
            except ERRS as ex:
                if "overflow" in str(ex):
                    raise Reject("reported integer overflow")
                raise
    g.__name__ = fn.__name__
    return g


def mark(ctx, inp, what, *objs):
    ctx.label(what)
    if inp.n >= 1 or inp.k >= 2:
        ctx.mark((what, repr(objs), repr(sorted((repr(a), str(b)) for a, b in inp.env.items()))),
                 f"{what} {objs!r}"[:400])


@high
def algebra(src, ctx):
    s = src
    inp = In(s)
    unit = s.bool(0.5)
    gen = (lambda: unit_quat(s)) if unit else (lambda: [frac(s) for _ in range(4)])
    Q, q = quat(s, inp, gen())
    op = s.choice(["mul", "conj", "inv", "norm", "normalized", "R", "rotate", "vec", "subs", "hom",
                   "identity", "name"])
    if op == "mul":
        P, p = quat(s, inp, gen())
        cmp(evals(comps(Q * P), inp), qmul(q, p), "quaternion product", a=Q, b=P, env=inp.env)
        mark(ctx, inp, op, Q, P)
    elif op == "conj":
        cmp(evals(comps(Q.conjugate()), inp), conj(q), "conjugate", a=Q)
        cmp(evals(comps(Q * Q.conjugate()), inp), [sum(x * x for x in q), 0, 0, 0], "q * conj(q)", a=Q)
        mark(ctx, inp, op, Q)
    elif op == "inv":
        n2 = sum(x * x for x in q)
        if n2 == 0:
            raise Reject("zero quaternion")
        I = Q.inverse()
        cmp(evals(comps(I), inp), [x / n2 for x in conj(q)], "inverse", a=Q, env=inp.env)
        cmp(evals(comps(Q * I), inp), [1, 0, 0, 0], "q * inverse(q)", a=Q, env=inp.env)
        mark(ctx, inp, op, Q)
    elif op == "norm":
        n2 = sum(x * x for x in q)
        cmp(evals([Q.squared_norm(), Q.norm()], inp), [n2, mp.sqrt(n2)], "norm", a=Q, env=inp.env)
        mark(ctx, inp, op, Q)
    elif op == "normalized":
        n = mp.sqrt(sum(x * x for x in q))
        if n == 0:
            raise Reject("zero quaternion")
        cmp(evals(comps(Q.normalized()), inp), [x / n for x in q], "normalized", a=Q, env=inp.env)
        mark(ctx, inp, op, Q)
    elif op == "R":
        if not unit:
            raise Reject("not unit")
        cmp(evals(mats(Q.to_rotation_matrix(), (3, 3), op), inp), flat(rotm(q)), "rotation matrix",
            a=Q, env=inp.env)
        mark(ctx, inp, op, Q)
    elif op == "rotate":
        v = [inp.num(frac(s)) for _ in range(3)]
        got = evals(mats(Q.rotate(sym.vector(*[a for a, _ in v])), (3, 1), op), inp)
        want = qmul(qmul(q, [mpf(0)] + [b for _, b in v]), conj(q))[1:]
        cmp(got, want, "rotate", a=Q, v=v, env=inp.env)
        mark(ctx, inp, op, Q, v)
    elif op == "vec":
        if [repr(x) for x in Q.to_list()] != [repr(x) for x in comps(Q)]:
            raise Violation("to_list order", a=Q)
        cmp(evals(mats(Q.to_vector_wxyz(), (4, 1), op), inp), q, "to_vector_wxyz", a=Q)
        cmp(evals(mats(Q.to_vector_xyzw(), (4, 1), op), inp), q[1:] + q[:1], "to_vector_xyzw", a=Q)
        cmp(evals(comps(Q), inp), q, "components", a=Q)
        mark(ctx, inp, op, Q)
    elif op == "subs":
        if not inp.env:
            raise Reject("no symbols")
        name = s.choice(sorted(inp.env, key=repr))
        nv = frac(s)
        R = Q.subs(name, sym.rational(nv.numerator, nv.denominator))
        w = [c.subs(name, sym.rational(nv.numerator, nv.denominator)) for c in comps(Q)]
        if not all(a.is_identical_to(b) for a, b in zip(comps(R), w)):
            raise Violation("Quaternion.subs differs from its components", a=Q, got=R, want=w)
        mark(ctx, inp, op, Q, name)
    elif op == "hom":
        if not unit:
            raise Reject("not unit")
        P, p = quat(s, inp, unit_quat(s))
        a = evals(mats((Q * P).to_rotation_matrix(), (3, 3), op), inp)
        b = evals(mats(Q.to_rotation_matrix() * P.to_rotation_matrix(), (3, 3), op), inp)
        cmp(a, b, "R(a*b) differs from R(a)*R(b)", a=Q, b=P, env=inp.env)
        cmp(a, flat(matmul(rotm(q), rotm(p))), "R(a*b)", a=Q, b=P, env=inp.env)
        mark(ctx, inp, op, Q, P)
    elif op == "identity":
        cmp(evals(comps(Quaternion() * Q), inp), q, "identity * q", a=Q)
        cmp(evals(comps(Q * Quaternion()), inp), q, "q * identity", a=Q)
        mark(ctx, inp, op, Q)
    else:
        n = s.choice(["a", "foo", "q_1"])
        w = [f"{n}_{c}" for c in "wxyz"]
        if [repr(c) for c in comps(Quaternion.with_name(n))] != w:
            raise Violation("with_name", got=Quaternion.with_name(n))
        mark(ctx, inp, op, Q)


@high
def angles(src, ctx):
    """from_angle_axis, from_{x,y,z}_angle, to_angle_axis, axis/angle round trip."""
    s = src
    inp = In(s)
    op = s.choice(["faa", "faam", "xyz", "taa", "round"])
    if op == "taa":
        Q, q = quat(s, inp, unit_quat(s))
        eps = s.choice([None, 0, F(1, 10 ** 6), F(1, 2), "default"])
        args = {} if eps == "default" else {"epsilon": None if eps is None else
                                            sym.rational(F(eps).numerator, F(eps).denominator)}
        ang, axis = Q.to_angle_axis(**args)
        n = mp.sqrt(sum(x * x for x in q[1:]))
        if n == 0 and eps is None and not ang.is_identical_to(sym.integer(0)):
            raise Reject("documented singularity")
        got = evals([ang] + mats(axis, (3, 1), op), inp)
        e = 0 if eps in (None, "default") else q2m(F(eps))
        if n == 0 or (eps is not None and n <= e):
            cmp(got[:1], [mpf(0)], "angle of a rotation below epsilon", q=Q, eps=eps, env=inp.env)
        else:
            v = qlog(q)
            a = mp.sqrt(sum(x * x for x in v))
            cmp(got[:1], [a], "to_angle_axis: angle", q=Q, eps=eps, env=inp.env)
            cmp(got[1:], [x / a for x in v], "to_angle_axis: axis", q=Q, eps=eps, env=inp.env)
        mark(ctx, inp, op, Q, eps)
        return
    a = frac(s, 20)
    ea, va = inp.num(a)
    if op == "xyz":
        k = s.draw(2)
        ax = [mpf(int(i == k)) for i in range(3)]
        Q = [Quaternion.from_x_angle, Quaternion.from_y_angle, Quaternion.from_z_angle][k](ea)
    else:
        u = unit_vec(s)
        es = [inp.num(x) for x in u]
        ax = [b for _, b in es]
        es = [x for x, _ in es]
        Q = Quaternion.from_angle_axis(ea, *es) if op != "faam" else \
            Quaternion.from_angle_axis(ea, sym.vector(*es))
    sn = mp.sin(va / 2)
    want = [mp.cos(va / 2)] + [x * sn for x in ax]
    cmp(evals(comps(Q), inp), want, "from_angle_axis", angle=ea, q=Q, env=inp.env)
    if op == "round" or s.bool(0.3):
        # the axis/angle recovered denotes the same rotation
        if a == 0:
            raise Reject("zero angle")
        ang, axis = Q.to_angle_axis()
        g = evals([ang] + mats(axis, (3, 1), op), inp)
        sn = mp.sin(g[0] / 2)
        back = [mp.cos(g[0] / 2)] + [x * sn for x in g[1:]]
        cmp(flat(rotm(back)), flat(rotm(want)), "axis-angle round trip changes the rotation", q=Q,
            angle=ea, env=inp.env)
        if not (0 <= g[0] <= mp.pi + mpf(10) ** -60):
            raise Violation("recovered angle outside [0, pi]", q=Q, angle=g[0])
    mark(ctx, inp, op, Q)


@high
def rotvec(src, ctx):
    """Rotation vectors, in both directions, at ordinary angles."""
    s = src
    inp = In(s)
    if s.bool():
        v = [frac(s) for _ in range(3)] if s.bool(0.8) else [frac(s) * x for x in unit_vec(s)]
        if not any(v):
            raise Reject("zero")
        es = [inp.num(x) for x in v]
        eps = s.choice([None, 0, F(1, 10 ** 6), F(1, 10 ** 3)])
        ex = None if eps is None else sym.rational(F(eps).numerator, F(eps).denominator)
        if s.bool():
            Q = Quaternion.from_rotation_vector(*[a for a, _ in es], epsilon=ex)
        else:
            Q = Quaternion.from_rotation_vector(sym.vector(*[a for a, _ in es]), epsilon=ex)
        want = qexp([b for _, b in es])
        got = evals(comps(Q), inp)
        cmp(got, want, "from_rotation_vector", v=es, eps=eps, q=Q, env=inp.env)
        if mp.sqrt(sum(x * x for x in want[1:])) < 4 * q2m(F(eps or 0)):
            raise Reject("full turn: below epsilon")
        w = Q.to_rotation_vector(epsilon=ex, use_atan2=s.bool(0.7))
        gw = evals(mats(w, (3, 1), "to_rotation_vector"), inp)
        cmp(flat(rotm(qexp(gw))), flat(rotm(want)), "rotation vector round trip changes the rotation",
            tol=mpf(10) ** -40, v=es, eps=eps, q=Q, env=inp.env)
        mark(ctx, inp, "from", Q)
    else:
        Q, q = quat(s, inp, unit_quat(s))
        n = mp.sqrt(sum(x * x for x in q[1:]))
        eps = s.choice([None, 0, F(1, 10 ** 7), "default"])
        args = {} if eps == "default" else {"epsilon": None if eps is None else
                                            sym.rational(F(eps).numerator, F(eps).denominator)}
        if n == 0 and eps is None:
            raise Reject("documented singularity")
        at2 = s.bool(0.6)
        got = evals(mats(Q.to_rotation_vector(use_atan2=at2, **args), (3, 1), "rv"), inp)
        want = qlog(q)
        cmp(got, want, "to_rotation_vector", tol=mpf(10) ** -40, q=Q, eps=eps, use_atan2=at2,
            env=inp.env)
        mark(ctx, inp, "to", Q, at2)


@high
def rotmat(src, ctx):
    """from_rotation_matrix recovers the quaternion up to sign, for every branch and half turns."""
    s = src
    inp = In(s, 0.6)
    q = unit_quat(s)
    R = rotm(q)
    es = [[inp.num(F(x)) for x in row] for row in R]
    M = sym.matrix([[a for a, _ in row] for row in es])
    Q = Quaternion.from_rotation_matrix(M)
    got = evals(comps(Q), inp)
    q = [q2m(x) for x in q]
    big = max(range(4), key=lambda i: abs(q[i]))
    sg = 1 if (got[big] > 0) == (q[big] > 0) else -1
    cmp(got, [sg * x for x in q], "from_rotation_matrix", tol=mpf(10) ** -50, R=M, q=Q, env=inp.env)
    ctx.label("branch %d" % big)
    mark(ctx, inp, "R->q", M)


@high
def tangent(src, ctx):
    """Derivatives of retraction and local coordinates at any unit quaternion."""
    s = src
    inp = In(s)
    Q, q = quat(s, inp, unit_quat(s))
    E = [[mpf(int(i == j)) for i in range(3)] for j in range(3)]
    if s.bool():
        got = evals(mats(Q.right_retract_derivative(), (4, 3), "retract"), inp)
        cols = [qmul(q, [mpf(0)] + [x / 2 for x in e]) for e in E]
        want = [cols[j][i] for i in range(4) for j in range(3)]
        cmp(got, want, "right_retract_derivative", q=Q, env=inp.env)
        mark(ctx, inp, "retract", Q)
    else:
        got = evals(mats(Q.right_local_coordinates_derivative(), (3, 4), "local"), inp)
        cols = []
        for j in range(4):
            d = qmul(conj(q), [mpf(int(i == j)) for i in range(4)])
            cols.append([2 * x for x in d[1:]])
        want = [cols[j][i] for i in range(3) for j in range(4)]
        cmp(got, want, "right_local_coordinates_derivative", q=Q, env=inp.env)
        mark(ctx, inp, "local", Q)


@high
def so3jac(src, ctx):
    s = src
    inp = In(s)
    v = [frac(s, 14) for _ in range(3)]
    if not any(v):
        raise Reject("zero")
    es = [inp.num(x) for x in v]
    vv = [b for _, b in es]
    n = mp.sqrt(sum(x * x for x in vv))
    eps = s.choice([None, 0, F(1, 10 ** 5), F(1, 100)])
    ex = None if eps is None else sym.rational(F(eps).numerator, F(eps).denominator)
    V = sym.vector(*[a for a, _ in es])
    J = left_jac(vv)
    if s.bool():
        got = evals(mats(geometry.left_jacobian_of_so3(V, epsilon=ex), (3, 3), "J"), inp)
        cmp(got, flat(J), "left_jacobian_of_so3", tol=mpf(10) ** -40, v=V, eps=eps, env=inp.env)
        mark(ctx, inp, "J", V, eps)
    else:
        if abs(mp.sin(n)) < 1e-3:
            raise Reject("singular angle")
        got = evals(mats(geometry.inverse_left_jacobian_of_so3(V, epsilon=ex), (3, 3), "Jinv"), inp)
        G = [got[0:3], got[3:6], got[6:9]]
        cmp(flat(matmul(G, J)), [mpf(int(i == j)) for i in range(3) for j in range(3)],
            "inverse_left_jacobian_of_so3 is not the inverse", tol=mpf(10) ** -35, v=V, eps=eps,
            env=inp.env)
        mark(ctx, inp, "Jinv", V, eps)


@high
def small(src, ctx):
    """At and around zero angle, on both sides of epsilon."""
    s = src
    inp = In(s)
    eps = s.choice([F(0), F(1, 10 ** 3), F(1, 10 ** 5), F(1, 100), F(1, 10 ** 7)])
    u = unit_vec(s)
    scale = s.choice([F(0), F(1, 2), F(99, 100), F(1), F(101, 100), F(2), F(3)])
    n = scale * eps
    v = [n * x for x in u]
    ex = sym.rational(eps.numerator, eps.denominator)
    if s.bool(0.3):
        ex = sym.symbol("eps", NumberSet.RealPositive)
        inp.env[ex] = q2m(eps)
    if s.bool(0.3):
        ex = sym.float_constant(float(eps)) if not inp.env else ex
    op = s.choice(["exp", "log", "logacos", "J", "Jinv", "aa"])
    nn = q2m(n)
    # error allowed: first neglected power below epsilon, rounding above it
    slack = mpf(2) ** -40 if "Float" in ex.type_name else 0
    below = n <= eps or slack and abs(n - eps) < eps * F(1, 10 ** 6)
    if op in ("exp", "J", "Jinv"):
        es = [inp.num(x) for x in v]
        V = sym.vector(*[a for a, _ in es])
        vv = [b for _, b in es]
        if op == "exp":
            Q = Quaternion.from_rotation_vector(V, epsilon=ex)
            tol = nn ** 3 if below else mpf(10) ** -40
            cmp(evals(comps(Q), inp), qexp(vv), "from_rotation_vector near zero",
                tol=max(tol, mpf(10) ** -60), v=V, eps=ex, env=inp.env)
        elif op == "J":
            got = evals(mats(geometry.left_jacobian_of_so3(V, epsilon=ex), (3, 3), "J"), inp)
            tol = nn ** 3 / 10 if below else mpf(10) ** -30
            cmp(got, flat(left_jac(vv)), "left_jacobian_of_so3 near zero",
                tol=max(tol, mpf(10) ** -60), v=V, eps=ex, env=inp.env)
        else:
            got = evals(mats(geometry.inverse_left_jacobian_of_so3(V, epsilon=ex), (3, 3), "J"), inp)
            G = [got[0:3], got[3:6], got[6:9]]
            tol = nn ** 4 if below else mpf(10) ** -30
            cmp(flat(matmul(G, left_jac(vv))), [mpf(int(i == j)) for i in range(3) for j in range(3)],
                "inverse_left_jacobian_of_so3 near zero", tol=max(tol, mpf(10) ** -60), v=V, eps=ex,
                env=inp.env)
        ctx.mark((op, repr(V), repr(ex), str(inp.env)), f"{op} {V!r} eps={ex!r}")
        return
    # unit quaternion whose vector part has norm exactly 2t/(1+t^2), w > 0 or w < 0
    t = n / 2
    d = 1 + t * t
    sg = s.choice([1, -1])
    q = [sg * (1 - t * t) / d] + [sg * 2 * t / d * x for x in u]
    Q, qv = quat(s, inp, q)
    vn = mp.sqrt(sum(x * x for x in qv[1:]))
    want = qlog(qv)
    lim = q2m(eps)
    if abs(vn - lim) < mpf(10) ** -6 * lim:
        raise Reject("at the threshold")
    if op == "aa":
        ang, axis = Q.to_angle_axis(epsilon=ex)
        got = evals([ang] + mats(axis, (3, 1), op), inp)
        a = mpf(0) if vn <= lim else mp.sqrt(sum(x * x for x in want))
        cmp(got[:1], [a], "angle near identity", q=Q, eps=ex, tol=mpf(10) ** -40, env=inp.env)
    else:
        got = evals(mats(Q.to_rotation_vector(epsilon=ex, use_atan2=op == "log"), (3, 1), op), inp)
        tol = vn ** 3 if vn <= lim else mpf(10) ** -30
        cmp(got, want, "to_rotation_vector near identity", tol=max(tol, mpf(10) ** -60), q=Q, eps=ex,
            env=inp.env, use_atan2=op == "log")
    ctx.mark((op, repr(Q), repr(ex), str(inp.env)), f"{op} {Q!r} eps={ex!r}")


def errors(src, ctx):
    """Wrong shapes and component counts are refused; numeric evaluation keeps the order."""
    s = src
    r, c = s.int(1, 5), s.int(1, 5)
    m = sym.matrix_of_symbols("m", r, c)
    Q = Quaternion.with_name("q")
    calls = [("rotate", (3, 1), lambda: Q.rotate(m)),
             ("from_rotation_matrix", (3, 3), lambda: Quaternion.from_rotation_matrix(m)),
             ("from_rotation_vector", (3, 1), lambda: Quaternion.from_rotation_vector(m, epsilon=None)),
             ("from_angle_axis", (3, 1), lambda: Quaternion.from_angle_axis(sym.symbol("a"), m)),
             ("left_jacobian", (3, 1), lambda: geometry.left_jacobian_of_so3(m, epsilon=None)),
             ("inverse_left_jacobian", (3, 1),
              lambda: geometry.inverse_left_jacobian_of_so3(m, epsilon=0)),
             ("from_wxyz", (4, 1), lambda: Quaternion.from_wxyz(m)),
             ("from_xyzw", (4, 1), lambda: Quaternion.from_xyzw(m))]
    name, shape, f = s.choice(calls)
    try:
        f()
        ok = True
    except ERR:
        ok = False
    good = (r, c) == shape
    if ok != good and not (name.startswith("from_wx") or name.startswith("from_xy")):
        raise Violation(f"{name} with a {r}x{c} matrix: " + ("accepted" if ok else "refused"))
    if name in ("from_wxyz", "from_xyzw") and (ok != good) and r * c != 4:
        raise Violation(f"{name} with a {r}x{c} matrix: " + ("accepted" if ok else "refused"))
    vals = [s.sint(9) / 4 for _ in range(4)]
    ev = Quaternion(*vals).eval()
    if np.asarray(ev, dtype=float).ravel().tolist() != vals:
        raise Violation("Quaternion.eval order", got=ev, want=vals)
    n = s.int(0, 6)
    try:
        Quaternion.from_wxyz([sym.integer(i) for i in range(n)])
        ok = True
    except ERR:
        ok = False
    if ok != (n == 4):
        raise Violation(f"from_wxyz with {n} components")
    ctx.mark((name, r, c, n), f"{name} {r}x{c}")


KNOWN = {}


def streams():
    return [Stream("algebra", algebra, 20000, 500000), Stream("angles", angles, 15000, 300000),
            Stream("rotvec", rotvec, 12000, 300000), Stream("rotmat", rotmat, 8000, 200000),
            Stream("tangent", tangent, 8000, 200000), Stream("so3jac", so3jac, 6000, 150000),
            Stream("small", small, 15000, 300000), Stream("errors", errors, 2000, 20000)]
