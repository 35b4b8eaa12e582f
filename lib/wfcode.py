"""Random function descriptions for the code-generation checks, the reference that says what they
compute, and an interpreter of the syntax trees wrenfold emits."""
import math, wfexpr
from fractions import Fraction
from mpmath import mp, mpf, mpc
from pbt import Reject, Violation
from wfexpr import (Gen, Num, WfEval, Builder, NotValue, Undef, Unstable, isreal, norm, wf_errors)
from wrenfold import sym, code_generation as cg, type_info as ti

FUNS = ["cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh",
        "atanh", "sqrt", "log", "exp", "abs", "sign", "floor"]


class Arg:
    def __init__(self, name, kind, rows=0, cols=0):
        self.name, self.kind, self.rows, self.cols = name, kind, rows, cols

    def elements(self):
        if self.kind == "m":
            return [f"{self.name}[{i}, {j}]" for i in range(self.rows) for j in range(self.cols)]
        return [self.name]

    def show(self):
        return f"{self.name}:{self.kind}" + (f"{self.rows}x{self.cols}" if self.kind == "m" else "")


class Out:
    """name None: the return value.  shape None: scalar."""

    def __init__(self, name, optional, shape, trees):
        self.name, self.optional, self.shape, self.trees = name, optional, shape, trees

    def show(self):
        nm = ("return" if self.name is None else self.name) + ("?" if self.optional else "")
        b = [wfexpr.show(t) for t in self.trees]
        return f"{nm} = " + (b[0] if self.shape is None else f"{self.shape[0]}x{self.shape[1]}[" +
                             ", ".join(b) + "]")


class Spec:
    def __init__(self, name, args, outs):
        self.name, self.args, self.outs = name, args, outs

    def show(self):
        return f"{self.name}({', '.join(a.show() for a in self.args)}) -> " + \
            "; ".join(o.show() for o in self.outs)

    def kinds(self):
        k = set()
        for o in self.outs:
            for t in o.trees:
                wfexpr.kinds(t, k)
        return k

    def size(self):
        return sum(wfexpr.size(t) for o in self.outs for t in o.trees)


class CodeGen(Gen):
    """Expression trees with the sharing patterns the optimizer looks for."""

    wide = False

    def _expr(self, d):
        s = self.s
        if self.wide and s.bool(0.15):
            # integers beyond 32 bits
            return ("fn", "floor", ("mul", ("int", s.int(1, 999) * 2 ** s.int(16, 29)), self.expr(d - 1)))
        k = s.draw(11)
        if k == 0:
            # sum of products over few factors: factorizable
            fs = [self.expr(d - 2) for _ in range(s.int(2, 4))]
            return ("add",) + tuple(("mul",) + tuple(s.choice(fs) for _ in range(s.int(2, 3)))
                                    for _ in range(s.int(2, 4)))
        if k == 1 and self.cond:
            # nested conditionals sharing a condition
            c = self.boolean(d - 2)
            a, b = self.expr(d - 2), self.expr(d - 2)
            w = ("where", c, a, b)
            self.pool.append(w)
            return s.choice([
                ("add", w, ("where", c, b, self.expr(d - 2))),
                ("where", self.boolean(d - 2), w, self.expr(d - 1)),
                ("where", c, ("where", self.boolean(d - 2), a, self.expr(d - 2)), b),
                ("mul", ("fn", "cos", a), w),
                ("where", ("cmp", "<", w, self.expr(d - 2)), a, w),
            ])
        if k == 2:
            b = self.expr(d - 1)
            return ("pow", b, s.choice([("int", s.int(-6, 20)), ("rat", s.sint(7), 2),
                                        ("int", s.int(2, 4)), ("rat", s.sint(5), 3)]))
        return super()._expr(d)


def gen_spec(s, name="fn", ints=True, bools=False, mats=True, funs=FUNS, cond=0.25, depth=4,
             max_outs=4, optional=True, max_dim=3, floats=0.1, ret=None, nodes=70, wide=False):
    args = []
    for i in range(s.int(1, 5)):
        ks = [(6, "f")] + ([(2, "i")] if ints else []) + ([(3, "m")] if mats else []) + \
            ([(1, "b")] if bools else [])
        k = s.weighted(ks)
        nm = s.choice("abcdexyzpq") + str(i)
        args.append(Arg(nm, k, s.int(1, max_dim), s.int(1, max_dim)) if k == "m" else Arg(nm, k))
    names = [e for a in args for e in a.elements()]
    g = CodeGen(s, syms=names, floats=floats, cond=cond, consts=0.05, fun_names=list(funs), share=0.35)
    g.wide = wide = wide and s.bool(0.25)
    outs = []
    n = s.int(1, max_outs)
    want_ret = s.bool(0.6) if ret is None else ret
    for i in range(n):
        shape = None
        if mats and s.bool(0.4):
            shape = (s.int(1, max_dim), s.int(1, max_dim))
        isret = want_ret and i == 0
        cnt = 1 if shape is None else shape[0] * shape[1]
        trees = []
        for _ in range(cnt):
            if cnt > 3 and s.bool(0.4):
                trees.append(g.leaf())
                continue
            g.nodes = max(0, g.nodes - 8)
            trees.append(g.expr(s.int(0, depth)))
        outs.append(Out(None if isret else f"out{i}", optional and not isret and s.bool(0.35), shape,
                        trees))
    spec = Spec(name, args, outs)
    spec.wide = wide
    return spec


def arg_type(a):
    if a.kind == "m":
        return ti.MatrixType(a.rows, a.cols)
    return ti.ScalarType({"f": ti.NumericType.Float, "i": ti.NumericType.Integer,
                          "b": ti.NumericType.Bool}[a.kind])


class Built:
    """desc; leaves: name -> argument expression; outputs: name -> flat list of expressions."""


def build(spec):
    """The function description through the explicit API."""
    b = Built()
    d = cg.FunctionDescription(spec.name)
    b.desc, b.leaves, b.outputs = d, {}, {}
    for a in spec.args:
        v = d.add_input_argument(a.name, arg_type(a))
        if a.kind == "m":
            for i in range(a.rows):
                for j in range(a.cols):
                    b.leaves[f"{a.name}[{i}, {j}]"] = v[i, j]
        else:
            b.leaves[a.name] = v
    bl = Builder(sym, b.leaves, lenient=True)
    for o in spec.outs:
        es = [bl(t) for t in o.trees]
        check_finite(es)
        b.outputs[o.name] = es
        if o.shape is None:
            v = es[0]
        else:
            r, c = o.shape
            v = sym.matrix([es[i * c:(i + 1) * c] for i in range(r)])
        if o.name is None:
            d.set_return_value(v)
        else:
            d.add_output_argument(o.name, o.optional, v)
    return b


def as_function(spec):
    """The same function as an annotated Python function (for generate_function and friends)."""
    from typing import Annotated
    from wrenfold import type_annotations as ta
    ns, ann = {}, {}
    for a in spec.args:
        ann[a.name] = {"f": ta.FloatScalar, "i": ta.IntScalar,
                       "m": Annotated[sym.MatrixExpr, ta.Shape(a.rows, a.cols)]}[a.kind]
    src = f"def {spec.name}({', '.join(a.name for a in spec.args)}):\n  return _body(locals())\n"

    def body(loc):
        leaves = {}
        for a in spec.args:
            v = loc[a.name]
            if a.kind == "m":
                for i in range(a.rows):
                    for j in range(a.cols):
                        leaves[f"{a.name}[{i}, {j}]"] = v[i, j]
            else:
                leaves[a.name] = v
        bl = Builder(sym, leaves, lenient=True)
        res = []
        for o in spec.outs:
            es = [bl(t) for t in o.trees]
            check_finite(es)
            v = es[0]
            if o.shape is not None:
                r, c = o.shape
                v = sym.matrix([es[i * c:(i + 1) * c] for i in range(r)])
            res.append(cg.ReturnValue(v) if o.name is None else
                       cg.OutputArg(v, o.name, is_optional=o.optional))
        return res

    ns["_body"] = body
    exec(src, ns)
    f = ns[spec.name]
    f.__annotations__.update(ann)
    return f


BADNODE = ("ComplexInfinity", "Undefined", "ImaginaryUnit")


def check_finite(es, seen=None):
    """Code is only generated for real, defined expressions."""
    seen = set() if seen is None else seen
    for e in es:
        if e in seen:
            continue
        seen.add(e)
        if e.type_name in BADNODE:
            raise Reject("complex or undefined constant")
        if e.type_name == "FloatConstant" and not math.isfinite(e.eval()):
            raise Reject("non-finite constant")
        if e.type_name == "RationalConstant":
            pass
        check_finite(e.args, seen)


# ---------------------------------------------------------------- inputs
def draw_inputs(s, spec):
    """Values exactly representable in binary32."""
    env = {}
    pos = s.bool(0.6)
    wide = getattr(spec, "wide", False)
    for a in spec.args:
        for nm in a.elements():
            if pos and a.kind in "fm" and not s.bool(0.1):
                v = mpf(s.int(1, 500)) / 128
            elif a.kind == "i":
                v = mpf(s.sint(7))
                if wide and s.bool(0.5):
                    v = mpf(s.sint(2 ** 23 - 1)) * 2 ** s.int(0, 14)
            elif a.kind == "b":
                v = mpf(s.int(0, 1))
            else:
                k = s.draw(9)
                if k == 0:
                    v = mpf(s.sint(4))
                elif k <= 2:
                    v = mpf(s.sint(15)) / 16       # in the domain of asin and friends
                else:
                    v = mpf(s.sint(500)) / 128
            env[nm] = v
    return env


# ---------------------------------------------------------------- reference
def exact(v, single=False):
    """A dyadic number with bits to spare in the binary format."""
    m, f = (2 ** 10, 2 ** 6) if single else (2 ** 20, 2 ** 20)
    return isreal(v) and abs(v) < m and v * f == int(v * f)


class RealEval(WfEval):
    """Real evaluation with only the selected branch of each conditional, optionally disturbing
    every inexact operation."""

    INT_LIMIT = 2 ** 62

    def __init__(self, env, num=None, perturb=None, salt=0, funcs=None):
        super().__init__(env, num)
        self.perturb, self.salt, self.count, self.funcs = perturb, salt, 0, funcs
        self.single = perturb is not None and perturb > 1e-9

    def __call__(self, e):
        if not hasattr(e, "subs"):
            return super().__call__(e)
        r = self.memo.get(e)
        if r is not None:
            return r
        r = self.ev(e)
        if not isinstance(r, bool):
            if not isreal(r):
                raise Undef("complex")
            if abs(r) > self.num.huge and self.num.huge < 10 ** 20:
                raise Undef("magnitude")
            if abs(r) >= self.INT_LIMIT and r == int(r):
                raise Undef("integer range")
            if self.perturb is not None:
                self.count += 1
                t = e.type_name
                if t in ("Addition", "Multiplication", "Power", "BuiltInFunctionInvocation",
                         "RationalConstant", "FloatConstant", "SymbolicConstant"):
                    fl = t == "BuiltInFunctionInvocation" and repr(e).split("(", 1)[0] in \
                        ("abs", "sign", "floor")
                    if not fl and not (exact(r, self.single) and
                                       all(exact(self(a), self.single) for a in e.args)):
                        h = ((self.count * 2654435761 + self.salt * 40503 + 12345) >> 7) % 2048
                        r = r * (1 + self.perturb * (mpf(h) / 1024 - 1))
        self.memo[e] = r
        return r


class CodeNum(Num):
    """Rejects points whose value depends on the sign of a zero."""

    def fn(self, name, a):
        if name == "atan2" and a[0] == 0 and a[1] <= 0:
            raise Unstable("atan2 of zero")
        return super().fn(name, a)


class Reference:
    """Expected values and tolerances of the flat outputs at a point (Reject when ill-conditioned)."""

    def __init__(self, outputs, env, eps=mpf(10) ** -13, noise=mpf(10) ** -9, worst=mpf(10) ** -4,
                 mk=RealEval, huge=mpf(10) ** 12):
        self.values, self.tols = [], []
        big = huge
        try:
            num = CodeNum(noise=noise, huge=big)
            ev = mk(env, num)
            vals = [ev(e) for e in outputs]
            devs = [mpf(0)] * len(vals)
            for salt in (1, 2, 3):
                ev = mk(env, CodeNum(noise=noise, huge=big), perturb=eps, salt=salt)
                devs = [max(d, abs(ev(e) - v)) for d, e, v in zip(devs, outputs, vals)]
        except (Undef, Unstable, NotValue) as ex:
            raise Reject("point: " + str(ex)[:20])
        for v, d in zip(vals, devs):
            if not isreal(v):
                raise Reject("point: complex")
            tol = 20 * d + 2 * eps * (1 + abs(v))
            if tol > worst * (1 + abs(v)):
                raise Reject("point: ill-conditioned")
            self.values.append(v)
            self.tols.append(tol)


# ---------------------------------------------------------------- interpreting the syntax tree
class Poison(Exception):
    """The value of an operation outside its domain (computed but perhaps never used)."""


BAD = object()


def clsname(n):
    return type(n).__name__


class IeeeNum(Num):
    """Overflow and division by zero give infinity, as the generated code would."""

    def chk(self, v):
        v = norm(v)
        if mp.isnan(v.real) or mp.isnan(v.imag):
            raise Undef("nan")
        return v

    def pow(self, b, e):
        if isreal(e) and isreal(b):
            if b == 0 and e < 0:
                return mp.inf
            if mp.isinf(b):
                return mpf(0) if e < 0 else (mp.inf if b > 0 or e % 2 == 0 else -mp.inf)
            if mp.isinf(e):
                raise Undef("infinite exponent")
        return super().pow(b, e)

    def fn(self, name, a):
        if any(mp.isinf(v) for v in a):
            x = a[0]
            if name == "abs":
                return mp.inf
            if name == "sign":
                return mpf(1) if x > 0 else mpf(-1)
            if name in ("atan", "tanh", "atan2"):
                return self.chk({"atan": mp.atan, "tanh": mp.tanh, "atan2": mp.atan2}[name](*a))
            if name in ("exp", "log", "sqrt") and (x > 0 or name == "exp"):
                return mpf(0) if x < 0 else mp.inf
            raise Undef("function of infinity")
        if name == "log" and a[0] == 0:
            return -mp.inf
        return super().fn(name, a)


class Interp:
    """Runs a FunctionDefinition on mpmath numbers.  Values are (type, value) with type i/f/b/s/m."""

    def __init__(self, fd, inputs, present, num=None, extern=None):
        """inputs: name -> list/number/struct; present: names of the optional outputs supplied."""
        self.fd, self.inputs, self.present = fd, inputs, set(present)
        self.num = num or IeeeNum(noise=mpf(10) ** -30)
        self.vars = {}
        self.declared = {}
        self.out = {}
        self.ret = None
        self.extern = extern or {}

    def fail(self, msg, **kw):
        raise Violation(msg, **kw)

    def run(self):
        self.block(self.fd.body, top=True)
        return self

    def block(self, span, top=False):
        mine = []
        for i, n in enumerate(span):
            if self.ret is not None:
                self.fail("statement after the return", node=repr(n))
            self.stmt(n, mine, top)
        for v in mine:              # leaves scope
            self.vars.pop(v, None)
            self.declared.pop(v)

    def stmt(self, n, mine, top):
        k = clsname(n)
        if k == "Comment":
            return
        if k == "Declaration":
            if n.name in self.declared:
                self.fail("temporary declared twice", name=n.name)
            self.declared[n.name] = n.type
            mine.append(n.name)
            if n.value is not None:
                self.vars[n.name] = self.store(n.type, self.ev(n.value), n)
        elif k == "AssignTemporary":
            if n.left not in self.declared:
                self.fail("assignment to an undeclared temporary", name=n.left)
            if n.left in self.vars:
                self.fail("temporary assigned twice", name=n.left)
            self.vars[n.left] = self.store(self.declared[n.left], self.ev(n.right), n)
        elif k == "Branch":
            t, c = self.ev(n.condition)
            if t != "b":
                self.fail("branch condition is not boolean", node=repr(n))
            if c is BAD:        # a comparison with NaN is false
                c = False
            self.block(n.if_branch if c else n.else_branch)
        elif k == "OptionalOutputBranch":
            if not n.argument.is_optional:
                self.fail("optional branch on a required output", node=repr(n))
            if n.argument.name in self.present:
                self.block(n.statements)
        elif k in ("AssignOutputScalar", "AssignOutputMatrix", "AssignOutputStruct"):
            nm = n.arg.name
            if nm in self.out:
                self.fail("output assigned twice", name=nm)
            if n.arg.is_optional and nm not in self.present:
                self.fail("absent optional output assigned", name=nm)
            self.out[nm] = self.ev(n.value)
        elif k == "ReturnObject":
            if not top:
                self.fail("return inside a branch", node=repr(n))
            self.ret = self.ev(n.value)
        else:
            self.fail("unexpected statement", node=repr(n))

    def store(self, ty, v, n):
        if clsname(ty) == "ScalarType":
            want = {"Float": "f", "Integer": "i", "Bool": "b"}[ty.numeric_type.name]
            if v[0] != want:
                self.fail("temporary declared with a type other than its value's", node=repr(n),
                          value_type=v[0])
        return v

    # -- expressions
    def ev(self, n):
        k = clsname(n)
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.fail("unexpected expression", node=repr(n))
        return m(n)

    def e_Parenthetical(self, n):
        return self.ev(n.contents)

    def e_VariableRef(self, n):
        if n.name not in self.vars:
            self.fail("temporary used before it is defined", name=n.name)
        return self.vars[n.name]

    def e_GetArgument(self, n):
        a = n.argument
        if a.name not in self.inputs:
            self.fail("reads an argument that is not an input", name=a.name)
        return self.inputs[a.name]

    def e_GetMatrixElement(self, n):
        t, m = self.ev(n.arg)
        if t != "m":
            self.fail("element access on something that is not a matrix", node=repr(n))
        rows, cols, vals = m
        if not (0 <= n.row < rows and 0 <= n.col < cols):
            self.fail("matrix element out of bounds", node=repr(n))
        return ("f", vals[n.row * cols + n.col])

    def e_GetField(self, n):
        t, v = self.ev(n.arg)
        if t != "s" or n.field_name not in v:
            self.fail("field access on something without that field", node=repr(n))
        return v[n.field_name]

    def e_IntegerLiteral(self, n):
        return ("i", mpf(n.value))

    def e_FloatLiteral(self, n):
        return ("f", mpf(n.value))

    def e_BooleanLiteral(self, n):
        return ("b", n.value)

    def e_SpecialConstant(self, n):
        return ("f", {"Euler": mp.e, "Pi": mp.pi}[n.value.name] + 0)

    def op(self, f):
        try:
            v = f()
            return v if isreal(v) and not mp.isnan(v) else BAD
        except (Undef, Reject, Unstable, ZeroDivisionError, ValueError):
            return BAD

    def arith(self, n, args, f):
        ts = {t for t, _ in args}
        if not ts <= {"i", "f"} or len(ts) != 1:
            self.fail("operands of different or non-numeric types", node=repr(n), types=sorted(ts))
        vs = [v for _, v in args]
        return (ts.pop(), BAD if any(v is BAD for v in vs) else self.op(lambda: f(vs)))

    def e_Add(self, n):
        args = [self.ev(a) for a in n.args]
        if len(args) < 2:
            self.fail("addition of fewer than two operands", node=repr(n))
        return self.arith(n, args, sum)

    def e_Multiply(self, n):
        args = [self.ev(a) for a in n.args]
        if len(args) < 2:
            self.fail("multiplication of fewer than two operands", node=repr(n))
        return self.arith(n, args, lambda v: mp.fprod(v))

    def e_Negate(self, n):
        return self.arith(n, [self.ev(n.arg)], lambda v: -v[0])

    def e_Divide(self, n):
        def f(v):
            if v[1] == 0:
                if v[0] == 0:
                    raise Undef("0/0")
                return mp.inf * v[0]
            return v[0] / v[1]
        r = self.arith(n, [self.ev(n.left), self.ev(n.right)], f)
        if r[0] == "i" and r[1] is not BAD:
            return ("i", mpf(int(r[1])))
        return r

    def e_Compare(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if a[0] != b[0]:
            self.fail("comparison of different types", node=repr(n), types=[a[0], b[0]])
        if a[1] is BAD or b[1] is BAD:
            return ("b", BAD)
        return ("b", {"LessThan": a[1] < b[1], "LessThanOrEqual": a[1] <= b[1],
                      "Equal": a[1] == b[1]}[n.operation.name])

    def e_Cast(self, n):
        t, v = self.ev(n.arg)
        dst = {"Float": "f", "Integer": "i", "Bool": "b"}[n.destination_type.name]
        if v is BAD:
            return (dst, BAD)
        if t == "b":
            v = mpf(1) if v else mpf(0)
        if dst == "i":
            if mp.isinf(v):
                return (dst, BAD)
            v = mpf(int(v))
        if dst == "b":
            v = v != 0
        return (dst, v)

    def e_Ternary(self, n):
        c, a, b = self.ev(n.condition), self.ev(n.left), self.ev(n.right)
        if c[0] != "b":
            self.fail("ternary condition is not boolean", node=repr(n))
        if a[0] != b[0]:
            self.fail("ternary operands of different types", node=repr(n), types=[a[0], b[0]])
        return (a[0], BAD) if c[1] is BAD else (a if c[1] else b)

    def e_CallStdFunction(self, n):
        f = n.function.name
        a = [self.ev(x) for x in n.args]
        want = 2 if f in ("Atan2", "Powi", "Powf") else 1
        if len(a) != want:
            self.fail("wrong number of operands", node=repr(n))
        if any(t not in "if" for t, _ in a):
            self.fail("non-numeric operand", node=repr(n))
        ty = "f"
        if f in ("Signum", "Floor"):
            ty = "i"
        elif f == "Abs":
            ty = a[0][0]
        if f == "Powi" and a[1][0] != "i":
            self.fail("integer power with a non-integer exponent", node=repr(n))
        vs = [v for _, v in a]
        if any(v is BAD for v in vs):
            return (ty, BAD)
        nm = {"Signum": "sign", "Powi": "pow", "Powf": "pow"}.get(f, f.lower())
        if nm == "pow":
            return (ty, self.op(lambda: self.num.pow(*vs)))
        return (ty, self.op(lambda: self.num.fn(nm, vs)))

    def e_CallExternalFunction(self, n):
        f = n.function
        if f.name not in self.extern:
            self.fail("call of an unknown function", name=f.name)
        return self.extern[f.name](f, [self.ev(a) for a in n.args])

    def e_ConstructMatrix(self, n):
        vals = [self.ev(a) for a in n.args]
        if len(vals) != n.type.rows * n.type.cols:
            self.fail("matrix constructed from the wrong number of elements", node=repr(n))
        if any(t != "f" for t, _ in vals):
            self.fail("matrix element is not floating point", node=repr(n))
        return ("m", (n.type.rows, n.type.cols, [v for _, v in vals]))

    def e_ConstructCustomType(self, n):
        return ("s", {f.name: self.ev(n.get_field_value(f.name)) for f in n.type.fields})


def interp_inputs(spec, env):
    r = {}
    for a in spec.args:
        if a.kind == "m":
            r[a.name] = ("m", (a.rows, a.cols, [env[e] for e in a.elements()]))
        elif a.kind == "b":
            r[a.name] = ("b", bool(env[a.name]))
        else:
            r[a.name] = (a.kind, env[a.name])
    return r


def static_check(fd):
    """Every temporary is declared once, assigned on every path before any use (whatever branch is
    taken), and every required output is assigned on every path."""
    outs = {a.name for a in fd.signature.arguments if not a.is_input}
    opts = {a.name for a in fd.signature.arguments if a.is_optional}

    def uses(n, known):
        k = clsname(n)
        if k == "VariableRef" and n.name not in known:
            raise Violation("temporary may be used before it is defined", name=n.name)
        if k == "ConstructCustomType":
            for f in n.type.fields:
                uses(n.get_field_value(f.name), known)
            return
        for at in {"Parenthetical": ["contents"], "GetMatrixElement": ["arg"], "GetField": ["arg"],
                   "Negate": ["arg"], "Cast": ["arg"], "Compare": ["left", "right"],
                   "Divide": ["left", "right"], "Ternary": ["condition", "left", "right"]}.get(k, []):
            uses(getattr(n, at), known)
        if k in ("Add", "Multiply", "CallStdFunction", "CallExternalFunction", "ConstructMatrix"):
            for a in n.args:
                uses(a, known)

    seen_names = set()

    def block(span, known, done):
        """known: definitely assigned; done: outputs definitely assigned. Returns the pair after."""
        local, decl = set(known), set()
        for n in span:
            k = clsname(n)
            if k == "Declaration":
                decl.add(n.name)
                if n.value is not None:
                    uses(n.value, local)
                    local.add(n.name)
            elif k == "AssignTemporary":
                uses(n.right, local)
                local.add(n.left)
            elif k == "Branch":
                uses(n.condition, local)
                a, da = block(n.if_branch, local, done)
                b, db = block(n.else_branch, local, done)
                local, done = a & b, da & db
            elif k == "OptionalOutputBranch":
                a, da = block(n.statements, local, done)
                if n.argument.name not in da:
                    raise Violation("optional output not assigned inside its branch",
                                    name=n.argument.name)
                local = local & a
                done = done | {n.argument.name}
            elif k.startswith("AssignOutput"):
                uses(n.value, local)
                done = done | {n.arg.name}
            elif k == "ReturnObject":
                uses(n.value, local)
        return local - decl, done

    _, done = block(fd.body, set(), set())
    if done != outs:
        raise Violation("outputs not assigned on every path", missing=sorted(outs - done))


# ------------------------------------------------------------------------- constants in emitted code
def gen_literals(s, int_limit=2 ** 63 - 1, f32=False, subnormal=True):
    """A function of constants whose doubles are known exactly -> (spec, env, want).

    Each output element is a literal, or x0 times a literal with x0 = 1, so the expected double is the
    constant itself (floats, small integers) or its correctly rounded quotient (rationals)."""
    import struct
    r, c = s.int(1, 3), s.int(1, 3)
    trees, vals, tols = [], [], []
    ulp = mpf(2) ** (-23 if f32 else -52)
    for _ in range(r * c):
        k = s.weighted([(6, "flt"), (3, "int"), (2, "rat"), (1, "const")])
        tol = mpf(0)
        if k == "flt":
            v = s.choice([
                s.sint(999) / 10, s.sint(10 ** 6) / 1000, (0.1 + s.int(0, 99)) * 0.1 + 0.2,
                struct.unpack("d", struct.pack("Q", (s.int(900, 1150) << 52) | s.int(0, 2 ** 52 - 1)))[0],
                struct.unpack("d", struct.pack("Q", s.int(1, 2046) << 52 | s.int(0, 2 ** 52 - 1)))[0],
                1.0 / s.int(3, 99), float(s.int(1, 9)) * 10.0 ** s.int(-30, 30), 1.0 + 2.0 ** -s.int(1, 52),
                float(2 ** 53 + s.sint(9)), 5e-324 * s.int(1, 9), 1.7976931348623157e308])
            if f32 and not 1e-30 < abs(v) < 1e30:
                v = 0.1
            if not subnormal and abs(v) < 1e-300:
                v = 0.3
            if s.bool(0.3):
                v = -v
            t, x = ("flt", v), mpf(v)
        elif k == "int":
            n = s.choice([s.sint(99), s.sint(10 ** 6), s.sint(2 ** 31 - 1), s.sint(2 ** 53),
                          s.sint(2 ** 62), 2 ** 63 - 1 - s.int(0, 4)])
            if abs(n) > int_limit:
                n = s.sint(10 ** 4)
            t, x = ("int", n), mpf(float(n))
        elif k == "rat":
            p, q = s.sint(s.choice([99, 10 ** 6, 10 ** 15])), s.int(1, s.choice([99, 10 ** 6, 10 ** 15]))
            if abs(p) > int_limit or q > int_limit:
                p, q = p % 1000, q % 1000 + 1
            t, x, tol = ("rat", p, q), mpf(p) / q, ulp
        else:
            t = ("const", s.choice(["pi", "E"]))
            x, tol = wfexpr.CONSTS[t[1]](), ulp
        if s.bool(0.35):
            t = ("mul", ("sym", "x0"), t)
        if f32:
            tol = ulp
        trees.append(t)
        vals.append(x)
        tols.append(tol * abs(x) * mpf(1.5))
    spec = Spec("fn", [Arg("x0", "f")], [Out("out", False, (r, c), trees)])
    return spec, {"x0": mpf(1)}, {"out": (vals, tols, (r, c))}
