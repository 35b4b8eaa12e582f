"""P21: any use of the API succeeds or raises, and leaves everything else intact."""
import fractions, math, os, subprocess, sys
import numpy as np
from pbt import Reject, Violation, Stream
from wrenfold import (sym, geometry, code_generation as cg, type_info as ti, type_annotations as ta, external_functions as ef,
                      custom_types as ct, sympy_conversion, exceptions, enumerations)
from wrenfold.enumerations import NumberSet

RULE = ("a history of >= 6 calls of which >= 1 raised and >= 1 succeeded, after which all values created before still print, "
        "hash and compare as they did.")
ASSUMPTIONS = ["expressions up to about 400 nodes, nested up to about 40 levels", "matrices up to 8 x 8",
               "operations whose result is exponentially large are not requested"]


class Junk:
    def __repr__(self):
        return "junk"


class BadIter:
    def __iter__(self):
        raise RuntimeError("bad iterator")


class BadIndex:
    def __index__(self):
        raise RuntimeError("bad index")

    def __float__(self):
        raise RuntimeError("bad float")


def raising(*a, **k):
    raise KeyError("callback")


def annotated(x: ta.FloatScalar, m: ta.Vector2):
    return [cg.ReturnValue(x * m), cg.OutputArg(x, "o", is_optional=True)]


def wrong_output(x: ta.FloatScalar):
    return [cg.OutputArg(x, "o"), cg.OutputArg(x, "o"), cg.ReturnValue(x), cg.ReturnValue(x)]


def unannotated(x):
    return x


JUNK = [None, True, False, "", "x", "x y", "\x00", "é", "0", "a" * 300, b"x", [], (), {}, set(), [None], [[]], [1, [2]], {"x": 1},
        object(), Junk(), BadIter(), BadIndex(), int, str, Ellipsis, NotImplemented, slice(None), slice(0, 0), slice(5, 1, -1),
        slice(None, None, 2), slice("a"), 1j, float("nan"), float("inf"), -float("inf"), 1e308, -0.0, 5e-324, 2.5, fractions.Fraction(1, 3),
        np.float64(2.0), np.int64(3), np.float32(1.5), np.bool_(True), np.zeros((2, 2)), np.zeros((0, 3)), np.array(["a"]), raising,
        annotated, wrong_output, unannotated, lambda *a: None, lambda *a: a[0] if a else 1, NumberSet.Real,
        cg.OutputKey, ta.FloatScalar, ta.Vector3, ta.Opaque]
BIG = [2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 2 ** 64, 10 ** 30, 2 ** 62, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 10 ** 18, 2 ** 53 + 1]
SMALL = [0, 1, 2, 3, -1, -2, 4, 5, 6, -3]

# functions that allocate as much as they are asked to, or whose cost is the number given
SIZED = {"ediff", "zeros", "eye", "matrix_of_symbols", "unique_symbols", "MatrixType", "reshape", "Shape", "diff", "derivative", "distribute",
         "create_compound_expression_elements", "OptimizationParams", "repeat"}
# name -> kinds of arguments that are accepted
E, B, M, I, S, V, Q, L, N, A = "expr", "bool", "matrix", "int", "str", "var", "quat", "list", "num", "any"
TABLE = {}


def op(name, *kinds):
    def w(f):
        TABLE[name] = (f, kinds)
        return f
    return w


for n in ("abs acos acosh asin asinh atan atanh cos cosh exp floor log sign sin sinh sqrt tan tanh stop_derivative "
          "unevaluated get_variables").split():
    if hasattr(sym, n):
        TABLE["sym." + n] = (getattr(sym, n), (E,))
for n in ("atan2", "max", "min", "pow"):
    TABLE["sym." + n] = (getattr(sym, n), (E, E))
for n in ("eq", "ge", "gt", "le", "lt"):
    TABLE["sym." + n] = (getattr(sym, n), (E, E))
TABLE.update({
    "sym.where": (sym.where, (B, E, E)), "sym.where.m": (sym.where, (B, M, M)), "sym.iverson": (sym.iverson, (B,)),
    "sym.addition": (sym.addition, (L,)), "sym.multiplication": (sym.multiplication, (L,)), "sym.det": (sym.det, (M,)),
    "sym.diag": (sym.diag, (L,)), "sym.hstack": (sym.hstack, ("mlist",)), "sym.vstack": (sym.vstack, ("mlist",)),
    "sym.integer": (sym.integer, (I,)), "sym.float_constant": (sym.float_constant, (N,)), "sym.rational": (sym.rational, (I, I)),
    "sym.matrix": (sym.matrix, ("rows",)), "sym.vector": (sym.vector, (E, E, E)), "sym.row_vector": (sym.row_vector, (E, E)),
    "sym.vec": (sym.vec, (M,)), "sym.zeros": (sym.zeros, (I, I)), "sym.eye": (sym.eye, (I,)),
    "sym.matrix_of_symbols": (sym.matrix_of_symbols, (S, I, I)), "sym.symbol": (sym.symbol, (S,)),
    "sym.symbols": (sym.symbols, (S,)), "sym.unique_symbols": (sym.unique_symbols, (I,)), "sym.Function": (sym.Function, (S,)),
    "call function": (lambda f, *a: f(*a), ("fun", E, E)), "sym.derivative": (sym.derivative, (E, V, I)),
    "sym.substitution": (sym.substitution, (E, V, E)), "sym.subs": (sym.subs, (E, E, E)), "sym.jacobian": (sym.jacobian, (L, "vlist")),
    "sym.full_piv_lu": (sym.full_piv_lu, (M,)), "sym.eliminate_subexpressions": (sym.eliminate_subexpressions, (E,)),
    "add": (lambda a, b: a + b, (E, E)), "sub": (lambda a, b: a - b, (E, E)), "mul": (lambda a, b: a * b, (E, E)),
    "div": (lambda a, b: a / b, (E, E)), "power": (lambda a, b: a ** b, (E, E)), "neg": (lambda a: -a, (E,)),
    "abs": (abs, (E,)), "bool": (bool, (A,)), "float": (float, (E,)), "int": (int, (E,)), "eqop": (lambda a, b: a == b, (A, A)),
    "lt": (lambda a, b: a < b, (E, E)), "hash": (hash, (A,)), "matmul": (lambda a, b: a * b, (M, M)), "len": (len, (A,)),
    "madd": (lambda a, b: a + b, (M, M)), "msub": (lambda a, b: a - b, (M, M)), "scale": (lambda a, b: a * b, (M, E)),
    "index": (lambda m, i, j: m[i, j], (M, "ix", "ix")), "row": (lambda m, i: m[i], (M, "ix")), "iter": (list, (A,)),
    "mdiff": (lambda m, v: m.diff(v), (M, V)), "mjac": (lambda m, v: m.jacobian(v), (M, "vlist")),
    "ediff": (lambda e, v, n: e.diff(v, n), (E, V, I)), "reshape": (lambda m, i, j: m.reshape(i, j), (M, I, I)),
    "collect": (lambda e, v: e.collect(v), (E, V)), "collects": (lambda e, v: e.collect(v), (E, "vlist")),
    "subs1": (lambda e, a, b: e.subs(a, b), (E, E, E)), "subsl": (lambda e, p: e.subs(p), (E, "pairs")),
    "msubs": (lambda e, a, b: e.subs(a, b), (M, E, E)), "unary_map": (lambda m, f: m.unary_map(f), (M, "callable")),
    "eval": (lambda e: e.eval(), (A,)), "tree": (lambda e: e.expression_tree_str(), (A,)), "args": (lambda e: e.args, (A,)),
    "row_join": (lambda a, b: a.row_join(b), (M, M)), "col_join": (lambda a, b: a.col_join(b), (M, M)),
    "distribute": (lambda e: e.distribute(), (E,)), "mdistribute": (lambda e: e.distribute(), (M,)),
    "norm": (lambda m: m.norm(), (M,)), "squared_norm": (lambda m: m.squared_norm(), (M,)), "T": (lambda m: m.T, (M,)),
    "Quaternion": (geometry.Quaternion, (E, E, E, E)), "qmul": (lambda a, b: a * b, (Q, Q)),
    "from_rotation_vector": (geometry.Quaternion.from_rotation_vector, (M, E)), "from_angle_axis": (geometry.Quaternion.from_angle_axis, (E, M)),
    "from_rotation_matrix": (geometry.Quaternion.from_rotation_matrix, (M,)), "rotate": (lambda q, m: q.rotate(m), (Q, M)),
    "to_rotation_vector": (lambda q, e: q.to_rotation_vector(e), (Q, E)), "jso3": (geometry.left_jacobian_of_so3, (M, E)),
    "inverse": (lambda q: q.inverse(), (Q,)), "normalized": (lambda q: q.normalized(), (Q,)), "qsubs": (lambda q, a, b: q.subs(a, b), (Q, E, E)),
    "FunctionDescription": (cg.FunctionDescription, (S,)), "add_in": (lambda d, n, t: d.add_input_argument(n, t), ("desc", S, "type")),
    "add_out": (lambda d, n, o, e: d.add_output_argument(n, bool(o), e), ("desc", S, I, "value")),
    "set_ret": (lambda d, e: d.set_return_value(e), ("desc", "value")), "outs": (lambda d: d.output_expressions(), ("desc",)),
    "transpile": (lambda d: cg.transpile(d), ("desc",)), "transpile2": (cg.transpile, ("desc", "params", I)),
    "generate": (lambda g, d: g.generate(d), ("gen", "ast")), "transpile3": (lambda d: cg.transpile(d), ("desc",)),
    "generate_function": (lambda f, g: cg.generate_function(f, g), ("callable", "gen")),
    "create_function_description": (cg.create_function_description, ("callable",)),
    "cse_function_description": (cg.cse_function_description, ("desc",)),
    "MatrixType": (ti.MatrixType, (I, I)), "ScalarType": (ti.ScalarType, (A,)),
    "CustomType": (ti.CustomType, (S, "fields", A)), "external": (ef.declare_external_function, (S, "arglist", "ann")),
    "params": (lambda a, b: setattr(cg.OptimizationParams(), "factorization_passes", a), (I, A)),
    "custom": (sym.create_custom_type_construction, ("type", L)), "compound": (sym.create_compound_expression_elements, (A, I)),
    "map_into": (ct.map_expressions_into_custom_type, (L, "type")), "format": (lambda g, a: g.format(a), ("gen", "node")),
    "to_sympy": (lambda e: sympy_conversion.to_sympy(e, evaluate=False), (E,)),
})

WILD = []
for mod in (sym, geometry, ti, cg, ef, ct, exceptions, enumerations):
    for n in dir(mod):
        f = getattr(mod, n)
        if callable(f) and not n.startswith("_") and getattr(f, "__module__", "").startswith(("wrenfold", "pywrenfold")):
            if n in ("mkdir_and_write_file", "generate_python"):      # they write files and import packages
                continue
            WILD.append((mod.__name__.split(".")[-1] + "." + n, f))


class State:
    def __init__(self):
        self.pool = []       # (value, text at creation, hash)
        x, y, z = sym.symbols("x y z")
        p = sym.symbol("p", NumberSet.RealPositive)
        for v in (x, y, p, x + y, sym.sin(x) * 2, sym.pi, sym.rational(3, 4), sym.lt(x, y), sym.matrix([[x, y], [z, 1]]), sym.vector(x, y, z),
                  geometry.Quaternion(x, y, z, p), sym.Function("f"), sym.Function("g")(x, y), sym.float_constant(1.5), sym.I, sym.zoo, sym.nan,
                  sym.integer(2), sym.true):
            self.put(v)
        d = cg.FunctionDescription("fn")
        self.put(d)
        self.put(d.add_input_argument("arg", ti.ScalarType(ti.NumericType.Float)))
        self.put(d.add_input_argument("mat", ti.MatrixType(2, 2)))
        for g in (cg.CppGenerator(), cg.RustGenerator(), cg.PythonGenerator(), cg.OptimizationParams(), ti.MatrixType(2, 3),
                  ti.ScalarType(ti.NumericType.Integer)):
            self.put(g)

    def put(self, v, depth=0):
        if isinstance(v, (tuple, list)) and depth < 2:
            for x in list(v)[:6]:
                self.put(x, depth + 1)
            return
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return
        t, h = snapshot(v)
        if t is not None and len(t) > 2500:
            return
        if isinstance(v, sym.Expr) and not small(v):
            return
        self.pool.append((v, t, h))
        if len(self.pool) > 90:
            del self.pool[30:45]

    def check(self, log):
        for v, t, h in self.pool:
            t2, h2 = snapshot(v)
            if t is not None and (t2, h2) != (t, h):
                raise Violation("a value created earlier has changed", before=t, after=t2, history=log[-12:])


VALUES = (sym.Expr, sym.BooleanExpr, sym.MatrixExpr, geometry.Quaternion) if hasattr(sym, "BooleanExpr") else (sym.Expr, sym.MatrixExpr)


WRENFOLD = VALUES + (sym.Function, cg.FunctionDescription, cg.CppGenerator, cg.RustGenerator, cg.PythonGenerator, ti.MatrixType,
                     ti.ScalarType, ti.CustomType)


def snapshot(v):
    """What a value looks like (only for immutable values)."""
    if isinstance(v, VALUES):
        h = None
        try:
            h = hash(v)
        except TypeError:
            pass
        return str(v), h
    return None, None


def small(e, limit=400):
    seen, todo = set(), [(e, 0)]
    n = 0
    while todo:
        x, d = todo.pop()
        n += 1
        if n > limit or d > 40:
            return False
        todo += [(a, d + 1) for a in getattr(x, "args", ())]
    return True


def explosive(e):
    """a power that would expand into very many terms"""
    if isinstance(e, sym.MatrixExpr):
        return any(map(explosive, e.to_flat_list()))
    if not hasattr(e, "args"):
        return False
    if e.type_name == "Power":
        b, x = e.args
        if x.type_name == "IntegerConstant" and abs(int(str(x))) > 4 and b.type_name != "Variable":
            return True
    return any(map(explosive, e.args))


def pick(s, st, kind, name):
    """An argument of the kind wanted, mostly."""
    if s.bool(0.15):
        kind = s.choice([A, E, M, I, S, Q, "junk", "junk", "type", "desc", "gen"])
    sized = name.split(".")[-1] in SIZED

    def of(*types):
        c = [v for v, _, _ in st.pool if isinstance(v, types)]
        return s.choice(c) if c else s.choice(JUNK)
    if kind == E:
        return of(sym.Expr) if not s.bool(0.15) else s.choice(SMALL + ([] if sized else BIG[:8]) + [2.5, -1.0])
    if kind == V:
        c = [v for v, _, _ in st.pool if isinstance(v, sym.Expr) and "Variable" in v.type_name]
        return s.choice(c) if c and not s.bool(0.1) else of(sym.Expr)
    if kind == B:
        return s.choice([v for v, _, _ in st.pool if type(v).__name__ == "BooleanExpr"])
    if kind == M:
        return of(sym.MatrixExpr)
    if kind == Q:
        return of(geometry.Quaternion)
    if kind in (I, "ix"):
        if kind == "ix" and s.bool(0.2):
            return slice(*[s.choice([None, 0, 1, 2, -1, 5, -7]) for _ in range(3)])
        return s.choice(SMALL if sized or s.bool(0.8) else BIG)
    if kind == N:
        return s.choice([0.0, 1.5, -2.25, 1e300, float("nan"), float("inf"), 3, 2 ** 70])
    if kind == S:
        return s.choice(["x", "y", "q", "arg", "out", "f", "a_b", "", " ", "x y z", "1x", "for", "é", "a-b", "x\n", "%s", "{}", "fn" * 100, "$u_1"])
    if kind in (L, "vlist", "mlist"):
        k = {L: E, "vlist": V, "mlist": M}[kind]
        return [pick(s, st, k, name) for _ in range(s.int(0, 4))]
    if kind == "rows":
        c = s.int(0, 3)
        return [[pick(s, st, E, name) for _ in range(c if not s.bool(0.05) else s.int(0, 3))] for _ in range(s.int(0, 3))]
    if kind == "pairs":
        return [(pick(s, st, E, name), pick(s, st, E, name)) for _ in range(s.int(0, 3))]
    if kind == "fun":
        return of(sym.Function)
    if kind == "callable":
        return s.choice([raising, annotated, wrong_output, unannotated, lambda x: x * 2, lambda x: None, lambda x: 3, sym.cos, int])
    if kind == "desc":
        return of(cg.FunctionDescription)
    if kind == "ast":
        c = [v for v, _, _ in st.pool if type(v).__name__ == "FunctionDefinition"]
        return s.choice(c) if c else None
    if kind == "node":
        c = [v for v, _, _ in st.pool if str(type(v).__module__).endswith("ast")]
        if not c:
            return None
        v = s.choice(c)
        for _ in range(s.draw(4)):
            a = [x for x in dir(v) if x[0] != "_"]
            if not a:
                break
            try:
                v = getattr(v, s.choice(a))
            except Exception:
                break
        return v
    if kind == "gen":
        return of(cg.CppGenerator, cg.RustGenerator, cg.PythonGenerator)
    if kind == "params":
        p = cg.OptimizationParams()
        p.factorization_passes = s.choice([0, 1, 3, 50])
        return p if not s.bool(0.1) else None
    if kind == "type":
        return of(ti.MatrixType, ti.ScalarType, ti.CustomType)
    if kind == "value":
        return of(sym.Expr, sym.MatrixExpr)
    if kind == "fields":
        return [(pick(s, st, S, name), pick(s, st, "type", name)) for _ in range(s.int(0, 3))]
    if kind == "arglist":
        return [(pick(s, st, S, name), s.choice([ta.FloatScalar, ta.IntScalar, ta.Vector2, ta.Opaque, int, None])) for _ in range(s.int(0, 3))]
    if kind == "ann":
        return s.choice([ta.FloatScalar, ta.Vector3, ta.IntScalar, None, int, ta.Opaque])
    if kind == "junk":
        return s.choice(JUNK + ([] if sized else BIG))
    return s.choice(st.pool)[0] if s.bool(0.7) else s.choice(JUNK)


def describe(v):
    t = repr(v) if not isinstance(v, VALUES) else str(v)
    return t if len(t) < 120 else t[:117] + "..."


NAMES = sorted(TABLE)


def one_call(s, st, log):
    k = s.draw(19)
    kw = {}
    if k < 15:
        name = s.choice(NAMES)
        f, kinds = TABLE[name]
        args = [pick(s, st, q, name) for q in kinds]
        if s.bool(0.04):
            args = args[:s.draw(len(args))] if args and s.bool() else args + [pick(s, st, A, name)]
    elif k < 18:
        name, f = s.choice(WILD)
        args = [pick(s, st, s.choice([A, E, M, I, S, L, "junk", "type"]), name) for _ in range(s.int(0, 4))]
        if s.bool(0.1):
            kw = {s.choice(["name", "set", "order", "evaluate", "num", "bogus"]): pick(s, st, A, name)}
    else:
        v = s.choice(st.pool)[0]
        name = s.choice([n for n in dir(type(v)) if n not in ("__class__", "__new__", "__init_subclass__", "__subclasshook__", "__setattr__",
                                                              "__delattr__", "__reduce__", "__reduce_ex__", "__sizeof__", "__dir__")])
        try:
            f = getattr(v, name)
        except Exception as ex:
            f = None
        if not callable(f):
            st.put(f)
            return None
        args = [pick(s, st, s.choice([A, E, M, I, S, L, "junk"]), name) for _ in range(s.int(0, 3))]
        if name == "__init__":
            return None
    if any(n in name for n in ("distribute", "transpile", "collect", "generate", "det", "lu", "norm", "cse", "to_sympy")):
        if any(explosive(a) for a in args if isinstance(a, (sym.Expr, sym.MatrixExpr))):
            return None
    if any(isinstance(a, sym.MatrixExpr) and (a.shape[0] > 8 or a.shape[1] > 8) for a in args):
        return None
    if k < 15 and "." not in name and not any(isinstance(a, WRENFOLD) for a in args):
        return None                    # an operator on plain Python values
    base = name.split(".")[-1]
    if base in SIZED or base in ("shape", "size", "order"):
        args = [min(a, 8) if isinstance(a, int) and a < 2 ** 62 else a for a in args]
    entry = f"{name}({', '.join(map(describe, args))}{', ' + str(kw) if kw else ''})"
    log.append(entry)
    if "WF_TRACE" in os.environ:
        print(entry, flush=True)
    try:
        r = f(*args, **kw)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise Violation("a call ends the program", call=entry, history=log[-12:])
    except SystemError as ex:
        raise Violation("the interpreter reports an internal error", call=entry, error=str(ex)[:300], history=log[-12:])
    except BaseException as ex:
        log[-1] += f" -> {type(ex).__name__}"
        str(ex)
        return False
    if r is NotImplemented:
        return False
    st.put(r)
    return True


def history(s, ctx):
    st, log = State(), []
    ok = bad = 0
    for _ in range(max(s.int(1, 40), s.int(1, 40))):
        r = one_call(s, st, log)
        ok += r is True
        bad += r is False
    st.check(log)
    # the library still works
    x, y = sym.symbols("x y")
    e = (x + y) * (x - y)
    if str(e.distribute()) not in ("x**2 - y**2", "-y**2 + x**2") or str(sym.sin(x).diff(x)) != "cos(x)" or not (x + y).is_identical_to(y + x):
        raise Violation("basic operations give other results after the history", history=log[-12:], got=str(e.distribute()))
    ctx.label("succeeded", ok)
    ctx.label("raised", bad)
    if ok >= 1 and bad >= 1 and ok + bad >= 6:
        ctx.mark(log, "; ".join(log[:6])[:300])


def descriptions(s, ctx):
    """A function description survives failed additions and failed generation."""
    d = cg.FunctionDescription("fn")
    x = d.add_input_argument("x", ti.ScalarType(ti.NumericType.Float))
    m = d.add_input_argument("m", ti.MatrixType(2, 1))
    e = x * m[0, 0] + sym.cos(m[1, 0])
    d.set_return_value(e)
    d.add_output_argument("o", s.bool(), m * x)
    mk = s.choice([cg.CppGenerator, cg.RustGenerator, cg.PythonGenerator])
    first = mk().generate(cg.transpile(d))
    st, log = State(), []
    st.put(d)
    st.pool = [q for q in st.pool if q[0] is d or type(q[0]) is not cg.FunctionDescription]
    bad = 0
    for _ in range(s.int(1, 8)):
        k = s.draw(6)
        f = [lambda: d.add_input_argument("x", s.choice([ti.ScalarType(ti.NumericType.Float), ti.MatrixType(2, 2)])),
             lambda: d.add_output_argument(s.choice(["o", "x"]), s.bool(), s.choice([x, m])),
             lambda: d.set_return_value(s.choice([x, m, None, "x"])),
             lambda: d.add_input_argument(s.choice(JUNK), s.choice(JUNK)),
             lambda: d.add_output_argument("p", s.bool(), s.choice(JUNK)),
             lambda: cg.transpile(d, s.choice(JUNK)),
             lambda: mk().generate(s.choice(JUNK))][k]
        try:
            f()
        except Exception as ex:
            bad += 1
            log.append(f"{k}: {type(ex).__name__}")
        else:
            return ctx.label(f"accepted {k}")
    second = mk().generate(cg.transpile(d))
    if second != first:
        raise Violation("failed calls change the description", history=log, first=first, second=second)
    if bad:
        ctx.mark((log, mk.__name__), "; ".join(log))


LARGE = [9223372036854775783, 9223372036854775807, 9223372036854775643, 4611686018427387847, 9223372030926249001, 3037000493 ** 2,
         2 ** 61 - 1, 9223372036854775549, 9223372036854775806, 2 ** 62, 3 ** 39, 6700417 * 641 * 2 ** 20]


def numbers(s, ctx):
    """Roots of the largest integers are found, and in reasonable time."""
    n = s.choice(LARGE)
    k = s.draw(3)
    q = s.choice([2, 3, 5])
    sg = s.choice([1, -1])
    try:
        if k == 0:
            e = sym.sqrt(sg * n)
        elif k == 1:
            e = sym.pow(sym.integer(sg * n), sym.rational(s.int(1, q - 1), q))
        elif k == 2:
            e = sym.pow(sym.rational(sg * 2, n), sym.rational(1, q))
        else:
            e = sym.pow(sym.integer(n), sym.rational(-1, q)) * sym.symbol("x")
    except exceptions.ArithmeticError:
        e = None
    ctx.mark((n, k, q, sg), f"{n} {k} {q}: {e}")


def streams():
    return [Stream("history", history, 8000, 400000), Stream("descriptions", descriptions, 4000, 40000),
            Stream("numbers", numbers, 12, 200)]


def _k_deep():
    """Printing an expression nested 10**5 deep ends the process."""
    code = ("import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0))\n"
            "from wrenfold import sym\ne = sym.symbol('x')\n"
            "for _ in range(100000): e = sym.cos(e)\nstr(e)")
    return subprocess.run([sys.executable, "-c", code], capture_output=True, timeout=120,
                          env=dict(os.environ, PYTHONPATH=":".join(p for p in sys.path if p))).returncode < 0


KNOWN = {"deep-nesting-stack-overflow": _k_deep}
