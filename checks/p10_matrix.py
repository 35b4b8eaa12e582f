"""P10: matrix algebra, indexing, decompositions."""
from fractions import Fraction as F
import math, itertools, resource
import numpy as np
from p05_substitution import nodes, finite, lib, ERRS
from pbt import Reject, Violation, Stream
from mpmath import mpf
from wfexpr import (Gen, Builder, Num, WfEval, make_symbols, show, draw_point, Undef, Unstable,
                    NotValue, has_float, SETS)
from pywrenfold import exceptions
from wrenfold import sym
from wrenfold.enumerations import NumberSet

RULE = ("algebra/shapes: >= 2 rows and >= 2 columns somewhere, or a shape error was provoked; index: "
        "the index or slice selects a proper non-empty part, or is out of range; lu/det: size >= 2 "
        "with >= 1 zero entry or a dependent row; symbolic_det: >= 2 distinct symbols.")
ASSUMPTIONS = ["LU convention: A == P*L*U*Q (the one the repository's tests state), L unit lower "
               "triangular, U upper trapezoidal, P and Q permutations; more rows than columns is "
               "documented as unsupported and must raise",
               "scalar arithmetic itself is judged by P01-P03; entries here are compared with the "
               "same scalar operations",
               "norms and determinants of empty matrices (from empty slices) may raise"]
SYMS = make_symbols(sym, NumberSet)
ERR = ERRS + (exceptions.DimensionError, TypeError, ValueError)
NAMES = ["x", "y", "z", "p", "u"]


def entry(s):
    k = s.weighted([(4, "int"), (2, "rat"), (3, "sym"), (2, "expr"), (1, "zero")])
    if k == "int":
        return sym.integer(s.sint(9))
    if k == "rat":
        return sym.rational(s.sint(9), s.int(1, 5))
    if k == "sym":
        return SYMS[s.choice(NAMES)]
    if k == "expr":
        a, b = SYMS[s.choice(NAMES)], SYMS[s.choice(NAMES)]
        return s.choice([a + b, a * b, a ** 2, sym.cos(a), a - 1, 2 * a, 1 / a])
    return sym.integer(0)


class M:
    """Reference matrix: shape plus row-major entries."""

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d
        assert len(d) == r * c

    def at(self, i, j):
        return self.d[i * self.c + j]

    def build(self, s=None):
        if s is not None and self.c == 1 and s.bool(0.3):
            return sym.vector(*self.d)
        if s is not None and self.r == 1 and s.bool(0.3):
            return sym.row_vector(*self.d)
        if s is not None and s.bool(0.2):
            return sym.matrix([sym.row_vector(*self.d[i * self.c:(i + 1) * self.c])
                               for i in range(self.r)])
        if s is not None and s.bool(0.2):
            return sym.matrix(tuple(tuple(self.d[i * self.c:(i + 1) * self.c])
                                    for i in range(self.r)))
        if s is not None and s.bool(0.2):
            return sym.matrix((self.d[i * self.c:(i + 1) * self.c]) for i in range(self.r))
        return sym.matrix([self.d[i * self.c:(i + 1) * self.c] for i in range(self.r)])


def gen(s, r=None, c=None, hi=4):
    r = s.int(1, hi) if r is None else r
    c = s.int(1, hi) if c is None else c
    return M(r, c, [entry(s) for _ in range(r * c)])


def same(got, want, what, **kw):
    if not isinstance(got, sym.MatrixExpr):
        raise Violation(what + ": not a matrix", got=got, **kw)
    if got.shape != (want.r, want.c):
        raise Violation(what + ": shape", got=got.shape, want=(want.r, want.c), **kw)
    flat = got.to_flat_list()
    if len(flat) != len(want.d) or got.size != len(want.d):
        raise Violation(what + ": size", got=got.size, want=len(want.d), **kw)
    for k, (a, b) in enumerate(zip(flat, want.d)):
        if not a.is_identical_to(b):
            raise Violation(what + ": entry", index=(k // want.c, k % want.c), got=a, want=b,
                            result=got, **kw)


def refuse(call, what, **kw):
    try:
        r = call()
    except ERR:
        return
    raise Violation(what + " was accepted", got=r, **kw)


def mm(A, B):
    d = []
    for i in range(A.r):
        for j in range(B.c):
            d.append(sym.addition([A.at(i, k) * B.at(k, j) for k in range(A.c)]))
    return M(A.r, B.c, d)


def algebra(src, ctx):
    s = src
    A = gen(s)
    a = A.build(s)
    same(a, A, "construction")
    op = s.choice(["add", "sub", "matmul", "smul", "rsmul", "div", "neg", "T", "norm", "map", "reshape",
                   "vec", "lists", "pynum", "eq"])
    ctx.label(op)
    if op in ("add", "sub"):
        B = gen(s, A.r, A.c) if s.bool(0.7) else gen(s)
        b = B.build(s)
        f = (lambda x, y: x + y) if op == "add" else (lambda x, y: x - y)
        if (A.r, A.c) != (B.r, B.c):
            refuse(lambda: f(a, b), op + " of different shapes", a=a, b=b)
        else:
            same(f(a, b), M(A.r, A.c, [f(x, y) for x, y in zip(A.d, B.d)]), op, a=a, b=b)
    elif op == "matmul":
        B = gen(s, A.c) if s.bool(0.8) else gen(s)
        b = B.build(s)
        if A.c != B.r:
            refuse(lambda: a * b, "product of incompatible shapes", a=a, b=b)
        else:
            same(a * b, mm(A, B), "product", a=a, b=b)
    elif op in ("smul", "rsmul"):
        k = entry(s)
        same(a * k if op == "smul" else k * a, M(A.r, A.c, [x * k for x in A.d]), op, a=a, k=k)
    elif op == "pynum":
        k = s.choice([2, -3, 0, 0.5, -1.25, 7])
        same(a * k, M(A.r, A.c, [x * k for x in A.d]), "matrix*number", a=a, k=k)
        same(k * a, M(A.r, A.c, [k * x for x in A.d]), "number*matrix", a=a, k=k)
        if k:
            same(a / k, M(A.r, A.c, [x / k for x in A.d]), "matrix/number", a=a, k=k)
    elif op == "div":
        k = entry(s)
        if k.is_identical_to(sym.integer(0)):
            raise Reject("zero divisor")
        same(a / k, M(A.r, A.c, [x / k for x in A.d]), op, a=a, k=k)
    elif op == "neg":
        same(-a, M(A.r, A.c, [-x for x in A.d]), op, a=a)
    elif op == "T":
        t = M(A.c, A.r, [A.at(i, j) for j in range(A.c) for i in range(A.r)])
        same(a.T, t, "T", a=a)
        same(a.transpose(), t, "transpose", a=a)
    elif op == "norm":
        n = sym.addition([x ** 2 for x in A.d])
        if not a.squared_norm().is_identical_to(n):
            raise Violation("squared_norm", a=a, got=a.squared_norm(), want=n)
        if not a.norm().is_identical_to(sym.sqrt(n)):
            raise Violation("norm", a=a, got=a.norm(), want=sym.sqrt(n))
    elif op == "map":
        f = s.choice([sym.cos, lambda x: x * 2, lambda x: x, lambda x: sym.integer(3),
                      lambda x: x + SYMS["q"]])
        same(a.unary_map(f), M(A.r, A.c, [f(x) for x in A.d]), "unary_map", a=a)
    elif op == "reshape":
        r, c = s.int(1, 8), s.int(1, 8)
        if s.bool(0.7):
            n = A.r * A.c
            r = s.choice([k for k in range(1, n + 1) if n % k == 0])
            c = n // r
        forms = [lambda: a.reshape(r, c), lambda: a.reshape((r, c)),
                 lambda: a.reshape(rows=r, cols=c)]
        for f in forms:
            if r * c != A.r * A.c:
                refuse(f, "reshape to another size", a=a, shape=(r, c))
            else:
                same(f(), M(r, c, A.d), "reshape", a=a, shape=(r, c))
        n = s.int(1, 9)
        refuse(lambda: a.reshape(-r, -c), "negative reshape", a=a)
    elif op == "vec":
        same(sym.vec(a), M(A.r * A.c, 1, [A.at(i, j) for j in range(A.c) for i in range(A.r)]), "vec",
             a=a)
    elif op == "lists":
        l = a.to_list()
        if len(l) != A.r or any(len(x) != A.c for x in l):
            raise Violation("to_list shape", a=a, got=l)
        for i in range(A.r):
            for j in range(A.c):
                if not l[i][j].is_identical_to(A.at(i, j)):
                    raise Violation("to_list entry", a=a, got=l)
        if len(a) != A.r:
            raise Violation("len()", a=a)
        it = list(a)
        if len(it) != A.r:
            raise Violation("iteration length", a=a)
        for i, row in enumerate(it):
            if A.c == 1:
                if not row.is_identical_to(A.at(i, 0)):
                    raise Violation("iteration entry", a=a, got=row)
            else:
                same(row, M(1, A.c, A.d[i * A.c:(i + 1) * A.c]), "iteration row", a=a)
    else:
        B = M(A.r, A.c, list(A.d))
        if s.bool() and A.d:
            k = s.draw(len(A.d) - 1)
            B.d[k] = entry(s)
        b = B.build(s)
        want = all(x.is_identical_to(y) for x, y in zip(A.d, B.d))
        if a.is_identical_to(b) != want or (a == b) != want:
            raise Violation("matrix identity", a=a, b=b)
        if A.r != A.c and A.r > 1 and A.c > 1:
            if a.is_identical_to(a.reshape(A.c, A.r)):
                raise Violation("matrices of different shape are identical", a=a)
        if want and hash(a) != hash(b):
            raise Violation("hash", a=a, b=b)
    if A.r > 1 and A.c > 1:
        ctx.mark((op, repr(a), s.rec[-1] if s.rec else 0), f"{op} {a!r}")


def shapes(src, ctx):
    """hstack, vstack, diag, joins, eye, zeros, matrix_of_symbols."""
    s = src
    op = s.choice(["hstack", "vstack", "diag", "diagv", "join", "eye", "zeros", "symbols", "rows"])
    ctx.label(op)
    if op in ("hstack", "vstack", "diag", "join"):
        r, c = s.int(1, 3), s.int(1, 3)
        n = 2 if op == "join" else s.int(1, 4)
        ms = []
        for _ in range(n):
            odd = s.bool(0.1)
            rr = r if op == "hstack" and not odd else s.int(1, 3)
            cc = c if op in ("vstack", "join") and not odd else s.int(1, 3)
            ms.append(gen(s, rr, cc))
        bs = [m.build(s) for m in ms]
        if op == "hstack" or op == "join" and s.bool():
            f = (lambda: sym.hstack(bs)) if op == "hstack" else (lambda: bs[0].row_join(bs[1]))
            if len({m.r for m in ms}) > 1:
                refuse(f, "hstack of different row counts", ms=bs)
            else:
                same(f(), M(ms[0].r, sum(m.c for m in ms),
                            [x for i in range(ms[0].r) for m in ms
                             for x in m.d[i * m.c:(i + 1) * m.c]]), "hstack", ms=bs)
        elif op in ("vstack", "join"):
            f = (lambda: sym.vstack(bs)) if op == "vstack" else (lambda: bs[0].col_join(bs[1]))
            if len({m.c for m in ms}) > 1:
                refuse(f, "vstack of different column counts", ms=bs)
            else:
                same(f(), M(sum(m.r for m in ms), ms[0].c, [x for m in ms for x in m.d]), "vstack",
                     ms=bs)
        else:
            R, C = sum(m.r for m in ms), sum(m.c for m in ms)
            d = [sym.integer(0)] * (R * C)
            ro = co = 0
            for m in ms:
                for i in range(m.r):
                    for j in range(m.c):
                        d[(ro + i) * C + co + j] = m.at(i, j)
                ro += m.r
                co += m.c
            same(sym.diag(bs), M(R, C, d), "diag", ms=bs)
        ctx.mark((op, repr(bs)), f"{op} {bs!r}")
        return
    if op == "diagv":
        v = [entry(s) for _ in range(s.int(1, 5))]
        n = len(v)
        same(sym.diag(v), M(n, n, [v[i] if i == j else sym.integer(0) for i in range(n)
                                   for j in range(n)]), "diag of scalars", v=v)
        ctx.mark((op, repr(v)), f"diag {v!r}")
        return
    r, c = s.sint(5), s.sint(5)
    if op == "rows":
        rows = [[entry(s) for _ in range(s.int(1, 3))] for _ in range(s.int(1, 3))]
        ok = len({len(x) for x in rows}) == 1
        if ok:
            same(sym.matrix(rows), M(len(rows), len(rows[0]), [x for q in rows for x in q]), "matrix",
                 rows=rows)
        else:
            refuse(lambda: sym.matrix(rows), "ragged rows", rows=rows)
        ctx.mark((op, repr(rows)), f"matrix({rows!r})")
        return
    if op == "eye":
        two = s.bool()
        f = (lambda: sym.eye(r, c)) if two else (lambda: sym.eye(r))
        c2 = c if two else r
        want = lambda: M(r, c2, [sym.integer(int(i == j)) for i in range(r) for j in range(c2)])
    elif op == "zeros":
        c2, f = c, lambda: sym.zeros(r, c)
        want = lambda: M(r, c, [sym.integer(0)] * (r * c))
    else:
        c2, f = c, lambda: sym.matrix_of_symbols("ab", r, c)
        want = lambda: M(r, c, [sym.symbol(f"ab_{i}_{j}") for i in range(r) for j in range(c)])
    if r <= 0 or c2 <= 0:
        refuse(f, op + " with a non-positive size", size=(r, c2))
    else:
        same(f(), want(), op, size=(r, c2))
    ctx.mark((op, r, c2), f"{op} {r} {c2}")


def rslice(s, n):
    b = lambda: None if s.bool(0.35) else s.sint(n + 2) if s.bool(0.95) else \
        s.choice([2 ** 31, -2 ** 40, 2 ** 63 - 1])
    st = s.choice([None, 1, -1, 2, -2, 3, -3, n, -n - 1])
    return slice(b(), b(), st)


def rindex(s, n):
    return s.sint(n + 1) if s.bool(0.9) else s.choice(
        [2 ** 31 - 1, -2 ** 31, 2 ** 31, -2 ** 63, 2 ** 40, n, -n - 1, 2 ** 31 - 2, -2 ** 31 + 1])


def index(src, ctx):
    """Indexing and slicing against NumPy semantics on an object array of entry numbers."""
    s = src
    r, c = s.int(1, 5), s.int(1, 5)
    ents = [sym.symbol(f"e{i}") for i in range(r * c)]
    A = M(r, c, ents)
    a = A.build(s)
    ref = np.arange(r * c).reshape(r, c)
    for _ in range(s.int(1, 3)):    # nested slicing keeps working on the result
        kind = s.choice(["i", "ij", "s", "ss", "is", "sj"])
        n, m = ref.shape
        if kind == "i":
            key = rindex(s, n)
        elif kind == "ij":
            key = (rindex(s, n), rindex(s, m))
        elif kind == "s":
            key = rslice(s, n)
        elif kind == "ss":
            key = (rslice(s, n), rslice(s, m))
        elif kind == "is":
            key = (rindex(s, n), rslice(s, m))
        else:
            key = (rslice(s, n), rindex(s, m))
        try:
            want = ref[key]
        except (IndexError, ValueError):
            want = None
        if want is None:
            refuse(lambda: a[key], "out-of-range index", shape=(n, m), key=key, a=a)
            ctx.mark((n, m, repr(key)), f"{(n, m)} [{key}] refused")
            return
        try:
            got = a[key]
        except ERR as ex:
            raise Violation("valid index refused", shape=(n, m), key=key, error=str(ex)[:200])
        if kind == "ij" or (kind == "i" and m == 1):
            k = int(want if kind == "ij" else want[0])
            if not isinstance(got, sym.Expr) or not got.is_identical_to(ents[k]):
                raise Violation("index selects the wrong entry", shape=(n, m), key=key, a=a, got=got,
                                want=ents[k])
            ctx.mark((n, m, repr(key)), f"{(n, m)} [{key}] -> {got!r}")
            return
        w = want
        if kind in ("i", "is"):
            w = want.reshape(1, -1)
        elif kind == "sj":
            w = want.reshape(-1, 1)
        if got.shape != w.shape:
            raise Violation("slice has the wrong shape", shape=(n, m), key=key, a=a, got=got.shape,
                            want=w.shape)
        if got.is_empty != (w.size == 0):
            raise Violation("is_empty", shape=(n, m), key=key)
        for x, k in zip(got.to_flat_list(), w.flatten()):
            if not x.is_identical_to(ents[int(k)]):
                raise Violation("slice selects the wrong entries", shape=(n, m), key=key, a=a, got=got)
        if 0 < w.size < ref.size:
            ctx.mark((n, m, repr(key)), f"{(n, m)} [{key}] -> {w.shape}")
        a, ref = got, w


# ------------------------------------------------------------------ determinant and LU
def rational_matrix(s, r, c):
    k = s.draw(5)
    num = lambda: F(s.sint(4)) if s.bool(0.8) else F(s.sint(6), s.int(1, 4))
    d = [[num() if not s.bool(0.35 if k else 0.1) else F(0) for _ in range(c)] for _ in range(r)]
    if k == 1 and r > 1:       # dependent rows
        i, j = s.draw(r - 1), s.draw(r - 1)
        q = F(s.sint(3))
        d[i] = [q * x for x in d[j]]
    elif k == 2 and c > 1:     # dependent columns
        i, j = s.draw(c - 1), s.draw(c - 1)
        for row in d:
            row[i] = row[j] * 2
    elif k == 3 and r == c:    # permutation with scales
        p = s.perm(list(range(r)))
        d = [[F(s.choice([1, -1, 2])) if j == p[i] else F(0) for j in range(c)] for i in range(r)]
    elif k == 4:
        i = s.draw(r - 1)
        d[i] = [F(0)] * c
    elif k == 5:
        j = s.draw(c - 1)
        for row in d:
            row[j] = F(0)
    return d


def leibniz(d):
    n = len(d)
    if n == 1:
        return d[0][0]
    t = None
    for p in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
        v = d[0][p[0]]
        for i in range(1, n):
            v = v * d[i][p[i]]
        v = -v if inv % 2 else v
        t = v if t is None else t + v
    return t


def fdet(d):
    """Fraction determinant by elimination."""
    d = [list(r) for r in d]
    n, t = len(d), F(1)
    for i in range(n):
        p = next((k for k in range(i, n) if d[k][i] != 0), None)
        if p is None:
            return F(0)
        if p != i:
            d[i], d[p] = d[p], d[i]
            t = -t
        t *= d[i][i]
        for k in range(i + 1, n):
            f = d[k][i] / d[i][i]
            d[k] = [x - f * y for x, y in zip(d[k], d[i])]
    return t


def q(x):
    return sym.rational(x.numerator, x.denominator)


def tofrac(e):
    if e.type_name not in ("IntegerConstant", "RationalConstant"):
        raise Violation("entry is not an exact number", entry=e)
    return F(repr(e))


def det(src, ctx):
    s = src
    n = s.int(1, 6)
    d = rational_matrix(s, n, n)
    m = sym.matrix([[q(x) for x in row] for row in d])
    try:
        got = sym.det(m)
        got2 = m.det()
    except ERR as ex:
        if "overflow" in str(ex):
            raise Reject("overflow")
        raise Violation("det raised", m=m, error=str(ex)[:200])
    want = fdet(d)
    if tofrac(got) != want or not got.is_identical_to(got2):
        raise Violation("determinant", m=m, got=got, want=want)
    if n >= 2 and any(x == 0 for row in d for x in row):
        ctx.mark(repr(m), f"det {m!r} = {got!r}")
    c = s.int(1, 5)
    if c != n:
        bad = sym.matrix([[q(x) for x in row] for row in rational_matrix(s, n, c)])
        refuse(lambda: sym.det(bad), "determinant of a non-square matrix", m=bad)


def fmm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), F(0)) for j in range(len(B[0]))]
            for i in range(len(A))]


def lu(src, ctx):
    s = src
    r = s.int(1, 5)
    c = s.int(r, 6) if s.bool(0.9) else s.int(1, 5)
    d = rational_matrix(s, r, c)
    m = sym.matrix([[q(x) for x in row] for row in d])
    if r > c:
        refuse(lambda: sym.full_piv_lu(m), "LU of a tall matrix", m=m)
        ctx.mark(repr(m), "tall refused")
        return
    try:
        P, L, U, Q = sym.full_piv_lu(m)
    except ERR as ex:
        if "overflow" in str(ex):
            raise Reject("overflow")
        raise Violation("LU raised", m=m, error=str(ex)[:200])
    if (P.shape, L.shape, U.shape, Q.shape) != ((r, r), (r, r), (r, c), (c, c)):
        raise Violation("LU factor shapes", m=m, P=P, L=L, U=U, Q=Q)
    fp, fl, fu, fq = [[[tofrac(e) for e in row] for row in x.to_list()] for x in (P, L, U, Q)]
    for nm, x in (("P", fp), ("Q", fq)):
        k = len(x)
        if any(v not in (0, 1) for row in x for v in row) or any(sum(row) != 1 for row in x) or \
                any(sum(x[i][j] for i in range(k)) != 1 for j in range(k)):
            raise Violation(nm + " is not a permutation", m=m, P=P, Q=Q)
    for i in range(r):
        if fl[i][i] != 1 or any(fl[i][j] != 0 for j in range(i + 1, r)):
            raise Violation("L is not unit lower triangular", m=m, L=L)
        if any(fu[i][j] != 0 for j in range(min(i, c))):
            raise Violation("U is not upper triangular", m=m, U=U)
    if fmm(fmm(fp, fl), fmm(fu, fq)) != d:
        raise Violation("P*L*U*Q differs from the input", m=m, P=P, L=L, U=U, Q=Q)
    if r >= 2 and any(x == 0 for row in d for x in row):
        ctx.mark(repr(m), f"lu {m!r}")


def symbolic_det(src, ctx):
    """Determinant and LU of matrices of symbols, compared at exact points."""
    s = src
    n = s.int(1, 4)
    pool = [sym.symbol(f"a{i}") for i in range(6)]

    def ent():
        k = s.draw(5)
        if k == 0:
            return sym.integer(s.sint(2)), lambda env, v=s.sint(0): None
        return None

    cells = [[s.weighted([(3, ("c", s.sint(2))), (4, ("s", s.draw(5))), (1, ("p", s.draw(5), s.draw(5))),
                          (1, ("m", s.draw(5), s.draw(5)))]) for _ in range(n)] for _ in range(n)]

    def ex(c):
        if c[0] == "c":
            return sym.integer(c[1])
        if c[0] == "s":
            return pool[c[1]]
        return pool[c[1]] + pool[c[2]] if c[0] == "p" else pool[c[1]] * pool[c[2]]

    def va(c, env):
        if c[0] == "c":
            return F(c[1])
        if c[0] == "s":
            return env[c[1]]
        return env[c[1]] + env[c[2]] if c[0] == "p" else env[c[1]] * env[c[2]]

    m = sym.matrix([[ex(c) for c in row] for row in cells])
    dt = lib(lambda: sym.det(m))
    facts = lib(lambda: sym.full_piv_lu(m)) if s.bool(0.5) else None
    used = 0
    for _ in range(3):
        env = [F(s.sint(30), s.int(1, 7)) for _ in range(6)]
        prs = [(pool[i], q(env[i])) for i in range(6)]
        num = [[va(c, env) for c in row] for row in cells]
        try:
            g = dt.subs(prs)
        except ERRS:
            ctx.label("point raised")
            continue
        if g.type_name in ("ComplexInfinity", "Undefined"):
            ctx.label("pivot vanishes at the point")      # documented: pivots are chosen symbolically
            continue
        want = fdet(num)
        if tofrac(g) != want:
            raise Violation("determinant of a symbolic matrix", m=m, det=dt, point=env, got=g,
                            want=want)
        used += 1
        if facts:
            try:
                fs = [x.subs(prs) for x in facts]
                vals = [[[e for e in row] for row in x.to_list()] for x in fs]
                if any(e.type_name in ("ComplexInfinity", "Undefined") for x in vals for r_ in x
                       for e in r_):
                    continue
                fp, fl, fu, fq = [[[tofrac(e) for e in row] for row in x] for x in vals]
            except ERRS:
                continue
            if fmm(fmm(fp, fl), fmm(fu, fq)) != num:
                raise Violation("P*L*U*Q differs from a symbolic input", m=m, point=env, factors=facts)
    if used and len({c[1] for row in cells for c in row if c[0] != "c"}) >= 2:
        ctx.mark(repr(m), f"det {m!r} = {dt!r}")


def huge(src, ctx):
    """Sizes whose product does not fit must be refused, not wrapped."""
    s = src
    r, c = s.choice([2 ** 16, 2 ** 17, 2 ** 31 - 1, 2 ** 30, 65537]), s.choice(
        [2 ** 16, 2 ** 17, 2 ** 31 - 1, 2 ** 15, 2 ** 14 * 3])
    if r * c < 2 ** 32:
        raise Reject("moderate")
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, hard))
    try:
        f = s.choice([sym.zeros, sym.eye])
        try:
            m = f(r, c)
        except ERR + (MemoryError, ValueError, RuntimeError):
            ctx.mark((r, c, f.__name__), f"{f.__name__}({r}, {c}) refused")
            return
        raise Violation("oversized matrix accepted", shape=(r, c), got=m.shape, size=m.size)
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


KNOWN = {}


def streams():
    return [Stream("algebra", algebra, 40000, 1000000), Stream("shapes", shapes, 25000, 500000),
            Stream("index", index, 60000, 1500000), Stream("det", det, 15000, 300000),
            Stream("lu", lu, 15000, 300000), Stream("symbolic_det", symbolic_det, 4000, 100000),
            Stream("huge", huge, 100, 1000)]
