"""Independent expression model used as the oracle.

`Gen` draws expression trees (plain tuples) from a choice source; `build` turns a tree into a wrenfold
expression through the public API; `Ref` evaluates the *tree* (never wrenfold's output) in 200-bit
arithmetic; `WfEval` evaluates a wrenfold expression by walking its public structure
(type_name/args), again in 200-bit arithmetic.
"""
import re
import mpmath
from mpmath import mp, mpf, mpc
from pbt import Reject, Violation

PREC = 160
mp.prec = PREC

TINY = mpf(10) ** -22        # below this relative size a nonzero quantity is treated as noise
HUGE = mpf(10) ** 16

FUN1 = ["cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh",
        "atanh", "log", "exp", "sqrt", "abs", "sign", "floor"]


class Undef(Exception):
    """The value does not exist (pole, 0/0, ...) at this point."""


class Unstable(Exception):
    """Too close to a discontinuity/branch cut to be decided numerically."""


def isreal(v):
    return not isinstance(v, mpc)


def norm(v):
    if isinstance(v, mpc):
        if v.imag == 0:
            v = v.real
    elif not isinstance(v, mpf):
        v = mp.mpmathify(v)
        if isinstance(v, mpc):
            return norm(v)
    return v


class Num:
    """Principal-branch semantics of the operators and functions over mpf/mpc."""

    def __init__(self, noise=TINY, huge=HUGE):
        self.noise = noise
        self.huge = huge
        self.maxabs = mpf(0)

    def chk(self, v):
        v = norm(v)
        if not (mp.isfinite(v.real) and mp.isfinite(v.imag)):
            raise Undef("non-finite")
        a = abs(v)
        if a > self.huge:
            raise Reject("magnitude")
        if a != 0 and a < 1 / self.huge:
            # may be a cancelled zero
            raise Unstable("tiny")
        if a > self.maxabs:
            self.maxabs = a
        if isinstance(v, mpc):
            # imaginary/real parts that are pure rounding noise
            if abs(v.imag) < self.noise * a:
                raise Unstable("noise imag")
        return v

    def add(self, vals):
        m = max(abs(v) for v in vals)
        t = vals[0]
        for v in vals[1:]:
            t = t + v
        t = norm(t)
        if isinstance(t, mpc) and t.imag != 0 and abs(t.imag) < self.noise * m:
            raise Unstable("cancel")
        if t != 0 and abs(t) < self.noise * m:
            raise Unstable("cancel")
        return self.chk(t)

    def mul(self, vals):
        t = vals[0]
        for v in vals[1:]:
            t = t * v
        t = norm(t)
        return self.chk(t)

    def cut(self, z):
        """Reject points within noise of the negative real axis."""
        if isinstance(z, mpc) and z.real < 0 and abs(z.imag) < self.noise * abs(z):
            raise Unstable("branch cut")

    def pow(self, b, e):
        if isreal(e) and e == int(e) and abs(e) < 2 ** 20:
            n = int(e)
            if b == 0:
                if n <= 0:
                    raise Undef("0**nonpositive")
                return mpf(0)
            return self.chk(b ** n)
        if b == 0:
            if (isreal(e) and e > 0):
                return mpf(0)
            raise Undef("0**e")
        self.cut(b)
        if isreal(b) and isreal(e) and b > 0:
            return self.chk(mp.power(b, e))
        return self.chk(mp.exp(mp.mpc(e) * mp.log(mp.mpc(b))) if not isreal(e)
                        else mp.exp(e * mp.log(b)))

    def fn(self, name, a):
        x = a[0]
        if name == "atan2":
            if not (isreal(a[0]) and isreal(a[1])):
                raise Reject("complex atan2")
            if a[0] == 0 and a[1] == 0:
                raise Undef("atan2(0,0)")
            if a[1] < 0 and a[0] != 0 and abs(a[0]) < self.noise * abs(a[1]):
                raise Unstable("atan2 cut")
            return self.chk(mp.atan2(a[0], a[1]))
        if name == "abs":
            return self.chk(abs(x))
        if name in ("sign", "floor"):
            if not isreal(x):
                raise Reject("complex " + name)
            if name == "sign":
                if x != 0 and abs(x) < self.noise:
                    raise Unstable("sign")
                return mpf(0) if x == 0 else (mpf(1) if x > 0 else mpf(-1))
            f = mp.floor(x)
            nz = self.noise * max(1, abs(x) / 1000)
            if x != f and (x - f < nz or f + 1 - x < nz):
                raise Unstable("floor")
            return f
        if name == "sqrt":
            return self.pow(x, mpf(1) / 2)
        if name == "log":
            if x == 0:
                raise Undef("log 0")
            self.cut(x)
            return self.chk(mp.log(x))
        if name == "exp":
            if abs(x) > 40:
                raise Reject("magnitude")
            return self.chk(mp.exp(x))
        if name in ("cosh", "sinh", "tanh", "cos", "sin", "tan"):
            if abs(x) > 1e6 or abs(mp.re(x)) > 40 and name[-1] == "h" or abs(mp.im(x)) > 40:
                raise Reject("magnitude")
            if name == "tan" and abs(mp.cos(x)) < 1e-6 or name == "tanh" and abs(mp.cosh(x)) < 1e-6:
                raise Undef("tan pole")
            r = norm(getattr(mp, name)(x))
            if r != 0 and abs(r) < self.noise:
                if x != 0:
                    # e.g. sin(k*pi): exactly zero, computed with noise
                    raise Unstable("trig zero")
            return self.chk(r)
        if name in ("acos", "asin", "acosh", "atanh", "asinh", "atan"):
            # Stay away from the branch cuts, where conventions legitimately differ.
            re, im = mp.re(x), mp.im(x)
            near = lambda v: abs(v) < self.noise
            if name in ("acos", "asin", "atanh"):
                if near(im) and abs(re) > 1:
                    raise Reject("branch cut")
                if near(im) and abs(abs(re) - 1) < self.noise and not (isreal(x) and abs(x) == 1):
                    raise Unstable("branch point")
                if name == "atanh" and abs(x) == 1 and isreal(x):
                    raise Undef("atanh(1)")
            elif name == "acosh":
                if abs(x) != 1 and abs(abs(x) - 1) < self.noise:
                    raise Unstable("branch point")
                if near(im) and re < 1 and not (isreal(x) and -1 <= x <= 1):
                    raise Reject("branch cut")
            else:
                if near(re) and abs(im) >= 1 - self.noise:
                    raise Reject("branch cut")
            return self.chk(getattr(mp, name)(x))
        raise AssertionError(name)

    def cmp(self, op, a, b):
        if not (isreal(a) and isreal(b)):
            raise Reject("complex relational")
        d = a - b
        if d != 0 and abs(d) < self.noise * max(abs(a), abs(b), mpf(1)):
            raise Unstable("comparison")
        return {"<": d < 0, "<=": d <= 0, "==": d == 0, ">": d > 0, ">=": d >= 0}[op]


# ------------------------------------------------------------------ reference evaluation of trees
CONSTS = {"pi": lambda: +mp.pi, "E": lambda: +mp.e, "I": lambda: mpc(0, 1)}


class Ref:
    def __init__(self, env, num=None, perturb=None, funcs=None, strict=True, salt=0):
        """strict: evaluate both branches of a conditional (so their poles reject).
        perturb: relative size of a pseudo-random error applied to every float constant and every
        operation (each occurrence separately), to measure the conditioning of the expression."""
        self.env, self.num, self.perturb = env, num or Num(), perturb
        self.salt = salt
        self.memo = {}
        self.strict = strict
        self.nflt = 0

    def __call__(self, t):
        if self.perturb is not None:
            v = self.ev(t)
            if t[0] in ("flt", "add", "sub", "mul", "div", "pow", "fn") and v != 0:
                self.nflt += 1
                h = ((self.nflt * 2654435761 + self.salt * 40503 + 12345) >> 7) % 2048 / 1024 - 1
                v = v * (1 + self.perturb * mpf(h))
            return v
        k = id(t)
        r = self.memo.get(k)
        if r is None:
            r = (self.ev(t), t)
            self.memo[k] = r
        return r[0]

    def ev(self, t):
        op = t[0]
        n = self.num
        if op == "int":
            return mpf(t[1])
        if op == "rat":
            return mpf(t[1]) / t[2]
        if op == "flt":
            return mpf(t[1])
        if op == "sym":
            return self.env[t[1]]
        if op == "const":
            return CONSTS[t[1]]()
        if op == "add":
            return n.add([self(a) for a in t[1:]])
        if op == "sub":
            return n.add([self(t[1]), -self(t[2])])
        if op == "neg":
            return -self(t[1])
        if op == "mul":
            return n.mul([self(a) for a in t[1:]])
        if op == "div":
            a, b = self(t[1]), self(t[2])
            if b == 0:
                raise Undef("x/0")
            return n.chk(a / b)
        if op == "pow":
            return n.pow(self(t[1]), self(t[2]))
        if op == "fn":
            return n.fn(t[1], [self(a) for a in t[2:]])
        if op in ("min", "max"):
            a, b = self(t[1]), self(t[2])
            if not (isreal(a) and isreal(b)):
                raise Reject("complex min/max")
            n.cmp("<", a, b)
            return min(a, b) if op == "min" else max(a, b)
        if op == "where":
            c = self(t[1])
            if self.strict:
                x, y = self(t[2]), self(t[3])
                return x if c else y
            return self(t[2]) if c else self(t[3])
        if op == "cmp":
            return n.cmp(t[1], self(t[2]), self(t[3]))
        if op == "bool":
            return t[1]
        if op == "iv":
            return mpf(1) if self(t[1]) else mpf(0)
        if op == "uneval" or op == "stop":
            return self(t[1])
        raise AssertionError(op)


# ------------------------------------------------------------------ building wrenfold expressions
def wf_errors():
    import pywrenfold.exceptions as ex
    return (ex.ArithmeticError, ex.TypeError, ex.DomainError, ex.InvalidArgumentError)


class Builder:
    """lenient: a wrenfold error (e.g. comparing complex infinity) makes the case a rejected one."""

    def __init__(self, sym, symbols, lenient=False):
        self.errors = wf_errors() if lenient else ()
        self.sym, self.symbols = sym, symbols
        self.memo = {}

    def __call__(self, t):
        k = id(t)
        r = self.memo.get(k)
        if r is None:
            try:
                r = (self.b(t), t)
            except self.errors as e:
                raise Reject("library error: " + type(e).__name__)
            except Exception as e:
                if type(e).__name__ == "ArithmeticError" and "overflow" in str(e):
                    raise Reject("integer overflow reported")
                raise
            self.memo[k] = r
        return r[0]

    def b(self, t):
        S = self.sym
        op = t[0]
        if op == "int":
            return S.integer(t[1])
        if op == "rat":
            return S.rational(t[1], t[2])
        if op == "flt":
            return S.float_constant(t[1])
        if op == "sym":
            return self.symbols[t[1]]
        if op == "const":
            return {"pi": S.pi, "E": S.E, "I": S.I}[t[1]]
        a = [self(x) for x in t[1:] if isinstance(x, tuple)]
        if op == "add":
            if len(a) == 2:
                return a[0] + a[1]
            return S.addition(a)
        if op == "mul":
            if len(a) == 2:
                return a[0] * a[1]
            return S.multiplication(a)
        if op == "sub":
            return a[0] - a[1]
        if op == "neg":
            return -a[0]
        if op == "div":
            return a[0] / a[1]
        if op == "pow":
            return S.pow(a[0], a[1])
        if op == "fn":
            return getattr(S, t[1])(*a)
        if op == "min":
            return S.min(*a)
        if op == "max":
            return S.max(*a)
        if op == "where":
            return S.where(*a)
        if op == "cmp":
            return {"<": S.lt, "<=": S.le, "==": S.eq, ">": S.gt, ">=": S.ge}[t[1]](*a)
        if op == "bool":
            return S.true if t[1] else S.false
        if op == "iv":
            return S.iverson(a[0])
        if op == "uneval":
            return S.unevaluated(a[0])
        if op == "stop":
            return S.stop_derivative(a[0])
        if op == "ufun":
            return S.Function(t[1])(*a)
        if op == "subst":
            return S.substitution(a[0], self.symbols[t[2][1]], a[2])
        if op == "deriv":
            return S.derivative(a[0], self.symbols[t[2][1]], t[3])
        raise AssertionError(op)


def split_top(s):
    """Split 'a OP b' at the single top-level relational operator."""
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in "([":
            depth += 1
        elif c in ")]":
            depth -= 1
        elif depth == 0:
            for op in (" <= ", " == ", " < "):
                if s.startswith(op, i):
                    return op.strip()
        i += 1
    raise AssertionError("no relational operator in " + s)


def has_float(e, memo=None):
    memo = set() if memo is None else memo
    if e in memo:
        return False
    memo.add(e)
    if e.type_name == "FloatConstant":
        return True
    return any(has_float(a, memo) for a in e.args)


class NotValue(Exception):
    """The wrenfold expression contains zoo/nan or a node with no numeric value."""


_intre = re.compile(r"^-?\d+$")


def walk(expr):
    """Structural view of a node: (type_name, args)."""
    return expr.type_name, expr.args


class WfEval:
    """Evaluate a wrenfold expression from its public structure."""

    def __init__(self, env, num=None):
        self.env, self.num, self.memo = env, num or Num(), {}

    def __call__(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.ev(e)
            self.memo[e] = r
        return r

    def ev(self, e):
        n = self.num
        t = e.type_name
        if t == "IntegerConstant":
            return mpf(int(repr(e)))
        if t == "RationalConstant":
            p, q = repr(e).split("/")
            return mpf(int(p)) / int(q)
        if t == "FloatConstant":
            return mpf(e.eval())
        if t in ("Variable", "UniqueVariable", "FunctionArgumentVariable",
                 "CompoundExpressionElement"):
            try:
                return self.env[e] if e in self.env else self.env[repr(e)]
            except KeyError:
                raise Violation("unexpected variable in the result", variable=e)
        if t == "SymbolicConstant":
            return {"pi": mp.pi, "e": mp.e, "E": mp.e}[repr(e)] + 0
        if t == "ImaginaryUnit":
            return mpc(0, 1)
        if t in ("ComplexInfinity", "Undefined"):
            raise NotValue(t)
        if t == "BooleanConstant":
            return bool(e)
        if t == "Conditional":
            c, a, b = e.args
            return self(a) if self(c) else self(b)
        a = [self(x) for x in e.args]
        if t == "Addition":
            return n.add(a)
        if t == "Multiplication":
            return n.mul(a)
        if t == "Power":
            return n.pow(*a)
        if t == "BuiltInFunctionInvocation":
            return n.fn(repr(e).split("(", 1)[0], a)
        if t == "Relational":
            return n.cmp(split_top(repr(e)), *a)
        if t == "IversonBracket":
            return mpf(1) if a[0] else mpf(0)
        if t in ("Unevaluated", "StopDerivative"):
            return a[0]
        raise NotValue("no numeric value: " + t)


# ------------------------------------------------------------------ generation
SETS = {
    # name -> (number set keyword, kind of value)
    "x": "real", "y": "real", "z": "real",
    "p": "positive", "q": "positive", "n": "nonneg",
    "u": "unknown", "v": "unknown", "w": "complex",
}


def make_symbols(sym, NS, names=SETS):
    m = {"real": NS.Real, "positive": NS.RealPositive, "nonneg": NS.RealNonNegative,
         "unknown": NS.Unknown, "complex": NS.Complex}
    return {n: sym.symbol(n, m[k]) for n, k in names.items()}


SMALL_INTS = [0, 1, -1, 2, -2, 3, 4, -3, 5, 6, 8, 9, 12, 16, -4, 27, 10, 25, 36, 7, -8]
SMALL_RATS = [(1, 2), (-1, 2), (1, 3), (2, 3), (3, 2), (-1, 3), (1, 4), (-3, 2), (3, 4), (5, 3),
              (-2, 3), (4, 9), (8, 27), (1, 6), (-5, 2), (7, 4), (5, 6), (9, 4)]


class Gen:
    """Random expression trees.  Options choose which leaves/operators appear."""

    def __init__(self, src, syms=("x", "y", "p"), floats=0.0, cond=0.15, funcs=True, I=False,
                 consts=0.06, special=True, minmax=True, heavy_pow=True, fun_names=None,
                 share=0.3, iv=True, wrap=False, abstract=False):
        self.s, self.syms = src, list(syms)
        self.floats, self.cond, self.funcs, self.I, self.consts = floats, cond, funcs, I, consts
        self.minmax, self.heavy_pow = minmax, heavy_pow
        self.fun_names = fun_names or FUN1
        self.pool = []
        self.share = share
        self.iv = iv
        self.wrap = wrap
        self.abstract = abstract
        self.nodes = 0

    def number(self):
        s = self.s
        if self.floats and s.bool(self.floats):
            return ("flt", s.sint(24) / s.choice([2, 4, 1, 8, 3, 10]) + 0.0)
        k = s.weighted([(6, 0), (4, 1), (1, 2)])
        if k == 0:
            return ("int", s.choice(SMALL_INTS))
        if k == 1:
            return ("rat",) + s.choice(SMALL_RATS)
        return ("rat", s.sint(30), s.int(1, 30))

    def leaf(self):
        s = self.s
        if s.bool(0.3):
            return self.number()
        if self.I and s.bool(0.2):
            return ("const", "I")
        if self.consts and s.bool(self.consts):
            return ("const", s.choice(["pi", "E"]))
        return ("sym", s.choice(self.syms))

    def expr(self, d):
        s = self.s
        self.nodes += 1
        if self.pool and s.bool(self.share):
            return s.choice(self.pool)
        if d <= 0 or s.bool(0.12) or self.nodes > 60:
            return self.leaf()
        t = self._expr(d)
        self.pool.append(t)
        return t

    def _expr(self, d):
        s = self.s
        ops = [(5, "add"), (5, "mul"), (4, "pow"), (2, "sub"), (2, "div"), (1, "neg")]
        if self.funcs:
            ops.append((5, "fn"))
        if self.cond:
            ops.append((int(self.cond * 20) or 1, "cond"))
        if self.wrap:
            ops.append((1, "wrap"))
        if self.abstract:
            ops.append((3, "abstract"))
        op = s.weighted(ops)
        if op in ("add", "mul"):
            k = s.weighted([(5, 2), (3, 3), (1, 4), (1, 5)])
            args = [self.expr(d - 1) for _ in range(k)]
            return (op,) + tuple(args)
        if op == "sub" or op == "div":
            return (op, self.expr(d - 1), self.expr(d - 1))
        if op == "neg":
            return ("neg", self.expr(d - 1))
        if op == "pow":
            base = self.expr(d - 1)
            k = s.weighted([(6, 0), (3, 1), (1, 2)] if self.heavy_pow else [(1, 0)])
            if k == 0:
                ex = ("int", s.choice([2, -1, 3, -2, 0, 1, 4, -3])) if not s.bool(0.4) \
                    else ("rat",) + s.choice(SMALL_RATS)
            elif k == 1:
                ex = self.number()
            else:
                ex = self.expr(d - 1)
            return ("pow", base, ex)
        if op == "fn":
            name = s.choice(self.fun_names + (["atan2"] if "atan" in self.fun_names else []))
            if name == "atan2":
                return ("fn", "atan2", self.expr(d - 1), self.expr(d - 1))
            if self.consts and name in ("cos", "sin", "tan") and s.bool(0.2):
                a = ("mul", ("rat", s.sint(40), s.choice([1, 2, 3, 4, 6, 5])), ("const", "pi"))
                return ("fn", name, a)
            return ("fn", name, self.expr(d - 1))
        if op == "wrap":
            return ("uneval", self.expr(d - 1))
        if op == "abstract":
            k = s.weighted([(3, "ufun"), (1, "stop"), (1, "subst"), (1, "deriv")])
            if k == "stop":
                return ("stop", self.expr(d - 1))
            f = ("ufun", s.choice(["f", "g", "h"])) + tuple(
                self.expr(d - 1) for _ in range(s.int(1, 3)))
            if k == "ufun":
                return f
            v = ("sym", s.choice(self.syms))
            if k == "subst":
                return ("subst", self.expr(d - 1), v, self.expr(d - 1))
            return ("deriv", f, v, s.int(1, 3))
        k = s.weighted([(4, "where"), (2 if self.minmax else 0, "min"),
                        (2 if self.minmax else 0, "max"), (2 if self.iv else 0, "iv")])
        if k == "where":
            return ("where", self.boolean(d - 1), self.expr(d - 1), self.expr(d - 1))
        if k == "iv":
            return ("iv", self.boolean(d - 1))
        return (k, self.expr(d - 1), self.expr(d - 1))

    def boolean(self, d):
        s = self.s
        return ("cmp", s.choice(["<", "<=", "==", ">", ">="]), self.expr(d), self.expr(d))


def show(t):
    op = t[0]
    if op in ("int", "sym", "const", "flt", "bool"):
        return str(t[1])
    if op == "rat":
        return f"({t[1]}/{t[2]})"
    if op == "cmp":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if op == "fn":
        return f"{t[1]}({', '.join(show(a) for a in t[2:])})"
    m = {"add": " + ", "mul": "*", "sub": " - ", "div": "/", "pow": "**"}
    if op in m:
        return "(" + m[op].join(show(a) for a in t[1:]) + ")"
    if op == "neg":
        return f"(-{show(t[1])})"
    if op == "ufun":
        return f"{t[1]}({', '.join(show(a) for a in t[2:])})"
    if op == "deriv":
        return f"Derivative({show(t[1])}, {show(t[2])}, {t[3]})"
    return f"{op}({', '.join(show(a) for a in t[1:])})"


def depth(t):
    return 1 + max([depth(a) for a in t if isinstance(a, tuple)], default=0)


def size(t):
    return 1 + sum(size(a) for a in t if isinstance(a, tuple))


def kinds(t, out=None):
    out = set() if out is None else out
    out.add(t[0] if t[0] != "fn" else t[1])
    for a in t:
        if isinstance(a, tuple):
            kinds(a, out)
    return out


def syms_in(t, out=None):
    out = set() if out is None else out
    if t[0] == "sym":
        out.add(t[1])
    for a in t:
        if isinstance(a, tuple):
            syms_in(a, out)
    return out


def draw_point(src, names, kinds_=SETS):
    """Exact, generic values respecting each symbol's declared set."""
    env = {}
    for nme in names:
        k = kinds_[nme]
        mag = mpf(src.int(1, 97)) / src.choice([16, 7, 32, 11, 3])
        if k == "positive" or k == "nonneg":
            v = mag if not (k == "nonneg" and src.bool(0.1)) else mpf(0)
        elif k == "real":
            v = -mag if src.bool(0.5) else mag
        else:
            v = -mag if src.bool(0.5) else mag
            if src.bool(0.6):
                v = mpc(v, mpf(src.sint(50)) / 13)
        env[nme] = norm(v)
    return env


def close(a, b, tol):
    return abs(a - b) <= tol
