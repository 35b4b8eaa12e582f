"""P18: custom types and external functions carry values faithfully."""
import ctypes, dataclasses, math, pathlib, shutil, tempfile
import numpy as np
import wfbuild
from wfnative import bind, cached, run
from p16_transpile import params
from pbt import Reject, Violation, Stream
from wrenfold import sym, code_generation as cg, type_annotations as ta, external_functions as ef
from typing import Annotated

RULE = ("a program over >= 1 user-defined type or external function whose generated code was executed and every "
        "output field compared with running the same program on numbers.")
ASSUMPTIONS = ["external functions are pure; scalar arguments of external functions are floating point",
               "C++ in Eigen mode with aggregate structs; Rust with overridden matrix formatters",
               "comparisons in conditionals differ by at least 1e-6"]
U = {"sin": math.sin, "cos": math.cos, "tanh": math.tanh}


# ------------------------------------------------------------------ program descriptions
# kinds: ("f",) float, ("i",) integer, ("m", r, c), ("t", k) structured type, ("o", k) opaque type
class Program:
    pass


class TypeDef:
    def __init__(self, name, fields, opaque=False):
        self.name, self.fields, self.opaque = name, fields, opaque


class Func:
    def __init__(self, idx, name, args, ret):
        self.idx, self.name, self.args, self.ret = idx, name, args, ret


def weight(a, b, c):
    return ((7 * a + 13 * b + 5 * c + b * c) % 17 - 8) / 16.0


def const(a, b):
    return ((11 * a + 3 * b) % 13 - 6) / 4.0


def squash(x):
    return x / (1.0 + abs(x))


def leaf_kinds(p, k):
    if k[0] == "m":
        return ["f"] * (k[1] * k[2])
    if k[0] == "t":
        return [l for _, f in p.types[k[1]].fields for l in leaf_kinds(p, f)]
    if k[0] == "o":
        return ["o"]
    return [k[0]]


def flatten(p, k, v):
    """numeric value -> list of numbers"""
    if k[0] == "m":
        a = np.asarray(v)
        if a.shape != (k[1], k[2]):
            raise Violation("matrix has the wrong shape", got=a.shape, want=k)
        return [float(x) for x in a.reshape(-1)]
    if k[0] == "t":
        return [x for n, f in p.types[k[1]].fields for x in flatten(p, f, getattr(v, n))]
    if k[0] == "o":
        return [v.v]
    return [float(v)]


def unflatten(p, k, xs):
    """consume numbers from the iterator"""
    if k[0] == "m":
        return np.array([next(xs) for _ in range(k[1] * k[2])], dtype=float).reshape(k[1], k[2])
    if k[0] == "t":
        return p.py[k[1]](**{n: unflatten(p, f, xs) for n, f in p.types[k[1]].fields})
    if k[0] == "o":
        o = p.py[k[1]].__new__(p.py[k[1]])
        o._provenance, o.v = None, next(xs)
        return o
    return int(next(xs)) if k[0] == "i" else next(xs)


def numeric_function(p, f):
    """The meaning of external function f on numbers."""
    lk = leaf_kinds(p, f.ret)

    def g(*args):
        if len(args) != len(f.args):
            raise Violation("external function called with the wrong number of arguments", function=f.name)
        v = [x for (_, k), a in zip(f.args, args) for x in flatten(p, k, a)]
        out = []
        for i, t in enumerate(lk):
            if t == "i":
                out.append((5 * f.idx + 3 * i) % 7 - 3)
            else:
                out.append(const(f.idx, i) + sum(weight(f.idx, i, j) * squash(x) for j, x in enumerate(v)))
        return unflatten(p, f.ret, iter(out))
    return g


# ------------------------------------------------------------------ generation
def gen_program(s, int_ret=True, mat_construct=True):
    p = Program()
    p.types = []
    names = s.perm(["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Pose", "Item"])

    def kind(k_max, opaque=True, i=True):
        c = [(4, ("f",)), (3, ("m", s.int(1, 3), s.int(1, 3)))]
        if i:
            c.append((1, ("i",)))
        ts = [j for j in range(k_max) if not p.types[j].opaque]
        os_ = [j for j in range(k_max) if p.types[j].opaque]
        if ts:
            c.append((5, ("t", s.choice(ts))))
        if os_ and opaque:
            c.append((1, ("o", s.choice(os_))))
        return s.weighted(c)

    for k in range(s.int(1, 4)):
        if k and s.bool(0.15):
            p.types.append(TypeDef(names[k], [], True))
            continue
        fn = s.perm(["a", "b", "c", "x", "y", "z", "w", "data"])
        p.types.append(TypeDef(names[k], [(fn[j], kind(k, opaque=False)) for j in range(s.int(1, 5))]))
    n = len(p.types)
    if sum(len(leaf_kinds(p, ("t", k))) for k in range(n)) > 120:
        raise Reject("large types")
    p.funcs = []
    for j in range(s.int(0, 3)):
        args = [(nm, kind(n, i=False)) for nm in s.perm(["u", "v", "p", "q", "arg"])[:s.int(1, 4)]]
        p.funcs.append(Func(j, s.choice(["foo", "call", "lookup"]) + str(j), args, kind(n, i=int_ret)))
    p.args = [(s.choice("abcdefg") + str(j), kind(n)) for j in range(s.int(1, 5))]
    # the body: every statement appends to a pool of (kind, how)
    p.body, pool = [], []

    def add(k, *how):
        p.body.append((k, how))
        pool.append(k)
        return len(pool) - 1

    def pick(k):
        c = [i for i, q in enumerate(pool) if q == k]
        if c and not s.bool(0.1):
            return s.choice(c[-4:] if s.bool(0.5) else c)
        return make(k)

    def scalar():
        c = [i for i, q in enumerate(pool) if q[0] in "fi"]
        return s.choice(c) if c else make(("f",))

    def make(k):
        if k[0] == "i":
            return add(k, "int", s.int(-5, 9))
        if k[0] == "f":
            return add(k, "flt", s.int(-12, 12) / 4)
        if k[0] == "m":
            c = [i for i, q in enumerate(pool) if q[0] in "fi"]
            return add(k, "mat", [s.choice(c) if c and not s.bool(0.1) else make(("f",)) for _ in range(k[1] * k[2])])
        if k[0] == "o":
            raise Reject("no opaque value")
        fs = p.types[k[1]].fields
        same = [i for i, q in enumerate(pool) if q == k]
        base = s.choice(same) if same and s.bool(0.5) else None
        vals = []
        for nm, fk in fs:
            if base is not None and not s.bool(0.3):
                vals.append(add(fk, "field", base, nm))
            else:
                vals.append(pick(fk))
        order = s.perm(range(len(fs)))
        return add(k, "new", vals, order)

    for i, (nm, k) in enumerate(p.args):
        add(k, "arg", i)
    for _ in range(s.int(1, 14)):
        c = s.draw(9)
        if c <= 2:
            structs = [i for i, q in enumerate(pool) if q[0] in "tm"]
            if structs:
                i = s.choice(structs)
                if pool[i][0] == "t":
                    nm, fk = s.choice(p.types[pool[i][1]].fields)
                    add(fk, "field", i, nm)
                else:
                    add(("f",), "elem", i, s.draw(pool[i][1] - 1), s.draw(pool[i][2] - 1))
                continue
        if c <= 4 and p.funcs:
            f = s.choice(p.funcs)
            vals = [pick(k) if k[0] != "f" else scalar() for _, k in f.args]
            npos = s.int(0, len(vals))
            add(f.ret, "call", f.idx, vals, npos, s.perm(range(npos, len(vals))))
            continue
        if c == 5:
            ts = [k for k in range(n) if not p.types[k].opaque]
            make(("t", s.choice(ts)))
            continue
        if c == 6:
            make(("m", s.int(1, 3), s.int(1, 3)))
            continue
        op = s.choice(["add", "sub", "mul", "sin", "cos", "tanh", "where", "scale"])
        add(("f",), "op", op, [scalar() for _ in range(4)], s.int(-7, 7))
    # outputs
    outs, used = [], []
    for j in range(s.int(1, 4)):
        c = [i for i, q in enumerate(pool) if q[0] != "o"]
        late = [i for i in c if i >= len(p.args)]
        i = s.choice(late) if late and not s.bool(0.25) else s.choice(c)
        k = pool[i]
        if s.bool(0.3):
            i = pick(s.choice([("t", q) for q in range(n) if not p.types[q].opaque]))
            k = pool[i]
        if k[0] == "i":
            i = add(("f",), "op", "scale", [i] * 4, 1)
            k = ("f",)
        outs.append((None if j == 0 and s.bool(0.6) else f"out{j}", s.bool(0.3) and j > 0, i, k))
    p.outs = outs
    if len(p.body) > 90:
        raise Reject("long")
    # declare Python types
    p.py = []
    for t in p.types:
        if t.opaque:
            p.py.append(type(t.name, (ta.Opaque,), {}))
        else:
            p.py.append(dataclasses.make_dataclass(t.name, [(nm, annotation(p, k)) for nm, k in t.fields]))
    p.ext = [ef.declare_external_function(f.name, [(nm, annotation(p, k)) for nm, k in f.args],
                                          annotation(p, f.ret)) for f in p.funcs]
    return p


def annotation(p, k):
    if k[0] == "f":
        return ta.FloatScalar
    if k[0] == "i":
        return ta.IntScalar
    if k[0] == "m":
        return Annotated[sym.MatrixExpr, ta.Shape(k[1], k[2])]
    return p.py[k[1]]


def show(p):
    t = "; ".join(f"{t.name}({', '.join(f'{n}:{kn(p, k)}' for n, k in t.fields)})" for t in p.types)
    f = "; ".join(f"{f.name}({', '.join(f'{n}:{kn(p, k)}' for n, k in f.args)})->{kn(p, f.ret)}" for f in p.funcs)
    b = "; ".join(f"%{i}:{kn(p, k)}={h}" for i, (k, h) in enumerate(p.body))
    return f"types {t} | functions {f} | args {[(n, kn(p, k)) for n, k in p.args]} | {b} | outs {p.outs}"


def kn(p, k):
    return p.types[k[1]].name if k[0] in "to" else k[0] + "x".join(map(str, k[1:]))


# ------------------------------------------------------------------ execution on either kind of value
def execute(p, args, symbolic):
    vals = []
    for k, (op, *h) in p.body:
        if op == "arg":
            v = args[h[0]]
        elif op == "int":
            v = sym.integer(h[0]) if symbolic else h[0]
        elif op == "flt":
            v = sym.float_constant(h[0]) if symbolic else h[0]
        elif op == "mat":
            e = [vals[i] for i in h[0]]
            rows = [e[i * k[2]:(i + 1) * k[2]] for i in range(k[1])]
            v = sym.matrix(rows) if symbolic else np.array(rows, dtype=float)
        elif op == "new":
            fs = p.types[k[1]].fields
            v = p.py[k[1]](**{fs[i][0]: vals[h[0][i]] for i in h[1]})
        elif op == "field":
            v = getattr(vals[h[0]], h[1])
        elif op == "elem":
            v = vals[h[0]][h[1], h[2]]
        elif op == "call":
            f = p.funcs[h[0]]
            a = [vals[i] for i in h[1]]
            if symbolic:
                v = p.ext[h[0]](*a[:h[2]], **{f.args[i][0]: a[i] for i in h[3]})
            else:
                v = numeric_function(p, f)(*a)
        else:
            a, b, c, d = (vals[i] for i in h[1])
            v = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "scale": lambda: a * h[2] + b * (1 - h[2]),
                 "where": lambda: where(a, b, c, d, symbolic)}.get(h[0], lambda: fun(h[0], a, symbolic))()
            if not symbolic and abs(v) > 1e4:
                raise Reject("large values")
        vals.append(v)
    return [vals[i] for _, _, i, _ in p.outs]


def fun(name, a, symbolic):
    return getattr(sym, name)(a) if symbolic else U[name](a)


def where(a, b, c, d, symbolic):
    if symbolic:
        return sym.where(sym.lt(a, b), c, d)
    if abs(a - b) < 1e-6 and a is not b:
        raise Reject("close comparison")
    return c if a < b else d


def description(p, s):
    """The annotated Python function for wrenfold."""
    def body(loc):
        try:
            outs = execute(p, [loc[n] for n, _ in p.args], True)
        except (Violation, Reject):
            raise
        except Exception as ex:
            raise Violation(f"symbolic evaluation raises {type(ex).__name__}", error=str(ex)[:400], program=show(p))
        res = []
        for (nm, opt, _, k), v in zip(p.outs, outs):
            res.append(cg.ReturnValue(v) if nm is None else cg.OutputArg(v, nm, is_optional=opt))
        return res
    ns = {"_body": body}
    exec(f"def prog({', '.join(n for n, _ in p.args)}):\n  return _body(locals())\n", ns)
    f = ns["prog"]
    f.__annotations__.update({n: annotation(p, k) for n, k in p.args})
    return f


def inputs(s, p, k):
    return unflatten(p, k, iter([s.int(-4, 4) if l == "i" else s.int(-64, 64) / 32 for l in leaf_kinds(p, k)]))


def numeric_points(s, p, n):
    res = []
    for _ in range(n):
        a = [inputs(s, p, k) for _, k in p.args]
        try:
            res.append((a, [flatten(p, k, v) for (_, _, _, k), v in zip(p.outs, execute(p, a, False))]))
        except Reject:
            pass
    if not res:
        raise Reject("no point")
    return res


def interesting(p):
    return any(h[0] in ("call", "new", "field") for _, h in p.body)


def generate(p, s, gen):
    f = description(p, s)
    k = s.draw(2)
    try:
        if k == 0:
            ct = s.bool() if not isinstance(gen, cg.PythonGenerator) else None
            return cg.generate_function(f, gen, convert_ternaries=ct) if ct is not None else \
                cg.generate_function(f, gen), "generate_function"
        d = cg.create_function_description(f)
        o, lab = params(s)
        ct = s.bool()
        return gen.generate(cg.transpile(d, o, ct)), lab + f" convert={ct}"
    except (Violation, Reject):
        raise
    except Exception as ex:
        raise Violation(f"generation raises {type(ex).__name__}", error=str(ex)[:600], program=show(p))


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b)) or (a == b)


def compare(p, got, want, **kw):
    for (nm, _, _, k), g, w in zip(p.outs, got, want):
        if len(g) != len(w):
            raise Violation("output has the wrong number of elements", output=nm, got=g, want=w, program=show(p), **kw)
        for i, (x, y) in enumerate(zip(g, w)):
            if not close(x, y):
                raise Violation("output field has a different value", output=nm, field=i, got=g, want=w,
                                program=show(p), **kw)


# ------------------------------------------------------------------ Python
def python(s, ctx):
    p = gen_program(s)
    pts = numeric_points(s, p, 3)
    code, how = generate(p, s, cg.PythonGenerator())
    ns = {"np": np}
    for t, c in zip(p.types, p.py):
        ns[t.name] = c
    for f in p.funcs:
        ns[f.name] = numeric_function(p, f)
    try:
        exec("from __future__ import annotations\n" + code, ns)
    except SyntaxError as ex:
        raise Violation("generated Python is invalid", error=str(ex), code=code, program=show(p))
    order = [i for i, o in enumerate(p.outs) if o[0] is None] + [i for i, o in enumerate(p.outs) if o[0] is not None]
    for a, want in pts:
        flags = [s.bool(0.7) for o in p.outs if o[1]]
        req = iter(flags)
        wanted = [next(req) if o[1] else True for o in p.outs]
        try:
            r = ns["prog"](*a, *flags)
        except Violation:
            raise
        except Exception as ex:
            raise Violation(f"generated Python raises {type(ex).__name__}", error=str(ex)[:300], code=code, program=show(p))
        r = r if len(p.outs) > 1 else (r,)
        got = [None] * len(p.outs)
        for i, v in zip(order, r):
            k = p.outs[i][3]
            if not wanted[i]:
                if v is not None:
                    raise Violation("an output that was not requested is returned", got=v, code=code, program=show(p))
                got[i] = want[i]
                continue
            if k[0] == "t" and type(v) is not p.py[k[1]]:
                raise Violation("output has the wrong type", got=type(v), program=show(p), code=code)
            got[i] = flatten(p, k, v)
        compare(p, got, want, code=code, how=how)
    if interesting(p):
        ctx.mark((show(p), how), show(p)[:300])
        for q in sorted({h[0] for _, h in p.body} & {"call", "new", "field"}):
            ctx.label("has " + q)


# ------------------------------------------------------------------ C++ and Rust
CPP = """#include <cmath>
#include <cstdint>
#include <Eigen/Core>
"""


def cpp_type(p, k):
    return {"f": "double", "i": "std::int64_t"}.get(k[0]) or \
        (f"Eigen::Matrix<double, {k[1]}, {k[2]}>" if k[0] == "m" else p.types[k[1]].name)


def rs_type(p, k):
    return {"f": "f64", "i": "i64"}.get(k[0]) or (f"Mat<{k[1]}, {k[2]}>" if k[0] == "m" else p.types[k[1]].name)


def access(p, k, e, rust):
    """leaf lvalues of a value, in declared order"""
    if k[0] == "m":
        return [(f"{e}[({i}, {j})]" if rust else f"{e}({i}, {j})") for i in range(k[1]) for j in range(k[2])]
    if k[0] == "t":
        return [x for n, f in p.types[k[1]].fields for x in access(p, f, f"{e}.{n}", rust)]
    if k[0] == "o":
        return [e + ".v"]
    return [e]


def cpp_support(p):
    out = []
    for t in p.types:
        fs = "".join(f" {cpp_type(p, k)} {n};" for n, k in t.fields) if not t.opaque else " double v;"
        out.append(f"struct {t.name} {{{fs} }};")
    for f in p.funcs:
        a = ", ".join(f"const {cpp_type(p, k)}& {n}_" for n, k in f.args)
        ins = [x for n, k in f.args for x in access(p, k, n + "_", False)]
        b = [f"const double x{j} = static_cast<double>({e}); const double s{j} = x{j} / (1.0 + std::abs(x{j}));" for j, e in enumerate(ins)]
        b.append(f"{cpp_type(p, f.ret)} r_{{}};")
        for i, (e, l) in enumerate(zip(access(p, f.ret, "r_", False), leaf_kinds(p, f.ret))):
            b.append(f"{e} = {body_value(f, i, l, len(ins))};")
        out.append(f"inline {cpp_type(p, f.ret)} {f.name}({a}) {{ {' '.join(b)} return r_; }}")
    return "\n".join(out)


def body_value(f, i, l, n):
    if l == "i":
        return str((5 * f.idx + 3 * i) % 7 - 3)
    return " + ".join([f"({const(f.idx, i)!r})"] + [f"({weight(f.idx, i, j)!r}) * s{j}" for j in range(n)])


def cpp_unit(p, code, i):
    L, k = [], 0
    for n, kd in p.args:
        L.append(f"{cpp_type(p, kd)} a_{n}{{}};")
        for e, l in zip(access(p, kd, "a_" + n, False), leaf_kinds(p, kd)):
            L.append(f"{e} = " + (f"static_cast<std::int64_t>(in[{k}]);" if l == "i" else f"in[{k}];"))
            k += 1
    args = ["a_" + n for n, _ in p.args]
    ret = ""
    for n, opt, _, kd in p.outs:
        v = "r_" if n is None else "o_" + n
        if n is not None:
            L.append(f"{cpp_type(p, kd)} {v}{{}};")
            args.append(("&" if opt else "") + v)
        else:
            ret = "const auto r_ = "
    L.append(f"{ret}U{i}::prog<double>({', '.join(args)});")
    k = 0
    for n, opt, _, kd in p.outs:
        for e in access(p, kd, "r_" if n is None else "o_" + n, False):
            L.append(f"out[{k}] = static_cast<double>({e});")
            k += 1
    return (f"namespace U{i} {{\n{cpp_support(p)}\n{code}\n}}\nextern \"C\" int call_{i}(const double* in, double* out, "
            f"const unsigned char*) {{\n  using namespace U{i};\n  " + "\n  ".join(L) + "\n  return 0;\n}\n")


CFLAGS = ["-std=c++17", "-fPIC", "-ffp-contract=off", "-w", "-O0", "-I/usr/include/eigen3"]


def cpp_compile(units, tmp):
    def make(out):
        out.mkdir(exist_ok=True)
        (out / "pre.h").write_text("#pragma once\n" + CPP)
        rc, msg = run(["g++", *CFLAGS, "-x", "c++-header", out / "pre.h", "-o", out / "pre.h.gch"])
        if rc:
            raise RuntimeError(msg)
    h = cached("pch18-*", CPP + repr(CFLAGS), make) / "pre.h"
    c, so = pathlib.Path(tmp) / "g.cc", pathlib.Path(tmp) / "g.so"
    c.write_text("\n".join(units))
    rc, msg = run(["g++", *CFLAGS, "-include", h, "-shared", c, "-o", so])
    if rc:
        return None, "\n".join(l for l in msg.splitlines() if "error" in l)[:2000] or msg[:2000]
    return so, None


RUST = """#![allow(warnings)]
#[derive(Clone, Copy)]
pub struct Mat<const R: usize, const C: usize> { pub v: [[f64; C]; R] }
impl<const R: usize, const C: usize> Mat<R, C> { pub fn zero() -> Self { Mat { v: [[0.0; C]; R] } }
  pub fn of(x: &[f64]) -> Self { assert!(x.len() == R * C); let mut m = Self::zero(); for i in 0..R { for j in 0..C { m.v[i][j] = x[i * C + j]; } } m } }
impl<const R: usize, const C: usize> std::ops::Index<(usize, usize)> for Mat<R, C> { type Output = f64;
  fn index(&self, q: (usize, usize)) -> &f64 { &self.v[q.0][q.1] } }
impl<const R: usize, const C: usize> std::ops::IndexMut<(usize, usize)> for Mat<R, C> {
  fn index_mut(&mut self, q: (usize, usize)) -> &mut f64 { &mut self.v[q.0][q.1] } }
impl<const R: usize, const C: usize> wrenfold_traits::Span2D<R, C> for Mat<R, C> { type ValueType = f64;
  fn get(&self, i: usize, j: usize) -> f64 { self.v[i][j] } }
impl<const R: usize, const C: usize> wrenfold_traits::OutputSpan2D<R, C> for Mat<R, C> { type ValueType = f64;
  fn set(&mut self, i: usize, j: usize, x: f64) { self.v[i][j] = x; } }
"""


class RustGen(cg.RustGenerator):
    """Matrices held by value, as the documentation suggests."""

    def format_matrix_type(self, mat):
        return f"crate::Mat<{mat.rows}, {mat.cols}>"

    def format_construct_matrix(self, element):
        return (f"crate::Mat::<{element.type.rows}, {element.type.cols}>::of(&[" +
                ", ".join(self.format(x) for x in element.args) + "])")


def rs_zero(p, k):
    return {"f": "0.0", "i": "0"}.get(k[0]) or (f"Mat::<{k[1]}, {k[2]}>::zero()" if k[0] == "m" else
                                               f"{p.types[k[1]].name}::zero()")


def rs_support(p):
    out = ["use crate::Mat;"]
    for t in p.types:
        fl = t.fields if not t.opaque else [("v", ("f",))]
        fs = ", ".join(f"pub {n}: {rs_type(p, k)}" for n, k in fl)
        out.append(f"#[derive(Clone, Copy)] pub struct {t.name} {{ {fs} }} impl {t.name} {{ pub fn zero() -> Self {{ "
                   f"{t.name} {{ {', '.join(f'{n}: {rs_zero(p, k)}' for n, k in fl)} }} }} }}")
    for f in p.funcs:
        a, ins = [], []
        gen = []
        for j, (n, k) in enumerate(f.args):
            t = rs_type(p, k)
            if k[0] == "m":
                # arguments that are themselves spans are forwarded, so accept any span
                gen.append(f"G{j}: wrenfold_traits::Span2D<{k[1]}, {k[2]}, ValueType = f64>")
                a.append(f"{n}_: &G{j}")
                ins += [f"{n}_.get({r}, {c})" for r in range(k[1]) for c in range(k[2])]
            else:
                a.append(f"{n}_: {'&' if k[0] in 'to' else ''}{t}")
                ins += access(p, k, n + "_", True)
        b = [f"let x{j} = ({e}) as f64; let s{j} = x{j} / (1.0 + x{j}.abs());" for j, e in enumerate(ins)]
        b.append(f"let mut r_: {rs_type(p, f.ret)} = {rs_zero(p, f.ret)};")
        for i, (e, l) in enumerate(zip(access(p, f.ret, "r_", True), leaf_kinds(p, f.ret))):
            b.append(f"{e} = {body_value(f, i, l, len(ins))};")
        g = f"<{', '.join(gen)}>" if gen else ""
        out.append(f"pub fn {f.name}{g}({', '.join(a)}) -> {rs_type(p, f.ret)} {{ {' '.join(b)} r_ }}")
    return "\n".join(out)


def rs_unit(p, code, i):
    L, k = [], 0
    for n, kd in p.args:
        L.append(f"let mut a_{n}: {rs_type(p, kd)} = {rs_zero(p, kd)};")
        for e, l in zip(access(p, kd, "a_" + n, True), leaf_kinds(p, kd)):
            L.append(f"{e} = *inp.add({k})" + (" as i64;" if l == "i" else ";"))
            k += 1
    args = [("&" if kd[0] in "mto" else "") + "a_" + n for n, kd in p.args]
    ret = ""
    for n, opt, _, kd in p.outs:
        v = "r_" if n is None else "o_" + n
        if n is None:
            ret = f"let r_: {rs_type(p, kd)} = "
        else:
            L.append(f"let mut {v}: {rs_type(p, kd)} = {rs_zero(p, kd)};")
            args.append(f"Some(&mut {v})" if opt else f"&mut {v}")
    L.append(f"{ret}prog({', '.join(args)});")
    k = 0
    for n, opt, _, kd in p.outs:
        for e in access(p, kd, "r_" if n is None else "o_" + n, True):
            L.append(f"*out.add({k}) = ({e}) as f64;")
            k += 1
    return (f"pub mod u{i} {{\nuse wrenfold_traits::*;\n{rs_support(p)}\n{code}\n#[no_mangle]\npub unsafe extern \"C\" fn call_{i}(inp: *const f64, "
            f"out: *mut f64, q: *const u8) -> i32 {{\n  " + "\n  ".join(L) + "\n  0\n}\n}\n")


def rs_compile(units, tmp):
    import p15_rust
    c, so = pathlib.Path(tmp) / "g.rs", pathlib.Path(tmp) / "g.so"
    c.write_text(RUST + "\n".join(units))
    rc, msg = run(["rustc", "--edition", "2021", "--crate-type", "cdylib", "--crate-name", "gen", "--extern",
                   f"wrenfold_traits={p15_rust.traits()}", "-C", "opt-level=0", "-C", "debuginfo=0", "-o", so, c], cwd=tmp)
    if rc:
        return None, "\n".join(l for l in msg.splitlines() if l.startswith(("error", "  -->")) or " | " in l)[:2000]
    return so, None


def native(lang):
    gen = (lambda: cg.CppGenerator(cg.CppMatrixTypeBehavior.Eigen)) if lang == "cpp" else RustGen
    unit, comp = (cpp_unit, cpp_compile) if lang == "cpp" else (rs_unit, rs_compile)

    def fn(s, ctx):
        head = list(s.rec)
        n = max(s.int(1, 16), s.int(1, 16))
        cases = []
        for _ in range(n):
            a = len(s.rec)
            try:
                p = gen_program(s)
                pts = numeric_points(s, p, 3)
                code, how = generate(p, s, gen())
                cases.append((p, pts, code, how, (a, len(s.rec))))
            except Reject as e:
                ctx.label("reject " + str(e))
            except Violation as v:
                v.hint = head + [0, 0] + s.rec[a:]
                raise
        if not cases:
            raise Reject("nothing")

        def fail(c, v):
            v.hint = head + [0, 0] + s.rec[c[4][0]:c[4][1]]
            return v
        tmp = tempfile.mkdtemp(prefix="wf18")
        try:
            so, err = comp([unit(c[0], c[2], i) for i, c in enumerate(cases)], tmp)
            if err:
                for c in cases:
                    _, e = comp([unit(c[0], c[2], 0)], tmp)
                    if e:
                        raise fail(c, Violation("generated code does not compile", error=e[:1500], code=c[2], program=show(c[0])))
                raise RuntimeError("batch does not compile: " + err)
            for fnc, c in zip(bind(so, range(len(cases))), cases):
                p, pts, code, how, _ = c
                for a, want in pts:
                    flat = [x for (_, k), v in zip(p.args, a) for x in flatten(p, k, v)]
                    m = sum(map(len, want))
                    ci, co = (ctypes.c_double * max(1, len(flat)))(*flat), (ctypes.c_double * max(1, m))(*([-9e99] * m))
                    fnc(ci, co, None)
                    got, i = [], 0
                    for w in want:
                        got.append(list(co[i:i + len(w)]))
                        i += len(w)
                    try:
                        compare(p, got, want, code=code, how=how)
                    except Violation as v:
                        raise fail(c, v)
                if interesting(p):
                    ctx.mark((show(p), how), show(p)[:300])
            ctx.units = len(cases)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    fn.__name__ = lang
    return fn


# ------------------------------------------------------------------ symbolic values
def symbolic(s, ctx):
    """Expressions put into a structured value are the ones taken out of it."""
    p = gen_program(s)
    from wrenfold import custom_types as ct
    ks = [k for k in range(len(p.types)) if not p.types[k].opaque]
    k = s.choice(ks)
    cache = {}
    t = ct.convert_to_internal_type(p.py[k], cache, "test")
    lk = leaf_kinds(p, ("t", k))
    if t.total_size != len(lk):
        raise Violation("total_size is wrong", got=t.total_size, want=len(lk), program=show(p))
    v = [sym.symbol(f"v{i}") for i in range(len(lk))] if s.bool() else [sym.symbol(f"s{i}") * (i + 1) for i in range(len(lk))]
    inst, rest = ct.map_expressions_into_custom_type(list(v) + [sym.integer(9)], t)
    if [str(r) for r in rest] != ["9"]:
        raise Violation("unused expressions are not returned in order", rest=rest)
    flat = sym_flat(p, ("t", k), inst)
    if not (len(flat) == len(v) and all(a.is_identical_to(b) for a, b in zip(flat, v))):
        raise Violation("fields hold other expressions than supplied", got=flat, want=v, program=show(p))
    back = ct.map_expressions_out_of_custom_type(inst, t)
    if not (len(back) == len(v) and all(a.is_identical_to(b) for a, b in zip(back, v))):
        raise Violation("taking expressions out of a value changes them", got=back, want=v, program=show(p))
    c = sym.create_custom_type_construction(t, v)
    el = sym.create_compound_expression_elements(c, len(v))
    if not all(a.is_identical_to(b) for a, b in zip(el, v)):
        raise Violation("elements of a constructed value differ from its parts", got=el, want=v, program=show(p))
    fs = [f for f in p.funcs if f.ret[0] == "t" and all(q[0] != "o" for _, q in f.args)]
    if fs:
        f = s.choice(fs)
        args = []
        for nm, q in f.args:
            ls = iter(sym.symbol(f"{nm}{i}") for i in range(200))
            args.append(sym_build(p, q, ls))
        r = p.ext[f.idx](*args)
        e = sym_flat(p, f.ret, r)
        if len(set(e)) != len(e):
            raise Violation("two fields of a returned value are the same expression", got=e, program=show(p))
        # a copy of all fields in order is the value itself, any other arrangement is not
        rt = ct.convert_to_internal_type(p.py[f.ret[1]], {}, "test")
        whole = sym.create_custom_type_construction(rt, e)
        again = sym.create_compound_expression_elements(whole, len(e))
        if not all(a.is_identical_to(b) for a, b in zip(again, e)):
            raise Violation("copying all fields changes the value", got=again, want=e)
        perm = s.perm(e)
        other = sym.create_compound_expression_elements(sym.create_custom_type_construction(rt, perm), len(e))
        if not all(a.is_identical_to(b) for a, b in zip(other, perm)):
            raise Violation("rearranged fields are put back in their original order", got=other, want=perm)
        # substitution reaches the arguments of the call, in every element
        tgt = sym.symbol(f"{f.args[0][0]}0")
        new = sym.symbol("replacement")
        for a in e:
            b = a.subs(tgt, new)
            vs = set(sym.get_variables(b))
            if tgt in vs or new not in vs:
                raise Violation("substitution does not reach the arguments of an external call", got=b, before=a)
        ctx.label("external")
    ctx.mark((show(p), k, len(v)), f"{t} {len(v)} elements")


def sym_build(p, k, it):
    if k[0] == "m":
        return sym.matrix([[next(it) for _ in range(k[2])] for _ in range(k[1])])
    if k[0] == "t":
        return p.py[k[1]](**{n: sym_build(p, f, it) for n, f in p.types[k[1]].fields})
    return next(it)


def sym_flat(p, k, v):
    if k[0] == "m":
        if v.shape != (k[1], k[2]):
            raise Violation("matrix field has the wrong shape", got=v.shape, want=k)
        return [v[i, j] for i in range(k[1]) for j in range(k[2])]
    if k[0] == "t":
        if type(v) is not p.py[k[1]]:
            raise Violation("field has the wrong type", got=type(v))
        return [x for n, f in p.types[k[1]].fields for x in sym_flat(p, f, getattr(v, n))]
    return [v]


def streams():
    return [Stream("python", python, 4000, 120000), Stream("symbolic", symbolic, 3000, 60000),
            Stream("cpp", native("cpp"), 48, 2000), Stream("rust", native("rust"), 80, 2500)]


KNOWN = {}
