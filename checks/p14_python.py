"""P14: generated Python (NumPy, PyTorch, JAX) computes the symbolic function."""
import warnings, random
import numpy as np
from mpmath import mpf
import wfcode
from wfcode import gen_literals, gen_spec, build, as_function, draw_inputs
from p16_transpile import refs, params
from pbt import Reject, Violation, Stream
from wrenfold import sym, code_generation as cg, type_info as ti

RULE = ("a function of >= 8 expression nodes whose generated code was executed and compared at >= 1 "
        "point (every output and every chosen combination of optional outputs).")
ASSUMPTIONS = ["tolerance measured by disturbing every operation of the reference (1e-13 in double, "
               "4e-6 in single precision); points near discontinuities or poles are not compared",
               "infinite or NaN intermediates may occur when no output depends on them"]
T = cg.PythonGeneratorTarget
W = cg.PythonGeneratorFloatWidth
_mods = {}


def module(t):
    if t not in _mods:
        if t == "th":
            import torch
            torch.set_num_threads(1)
            _mods[t] = torch
        elif t == "jnp":
            import jax
            jax.config.update("jax_enable_x64", True)
            import jax.numpy
            _mods[t] = jax.numpy
        else:
            _mods[t] = np
    return _mods[t]


TARGET = {"np": T.NumPy, "th": T.PyTorch, "jnp": T.JAX}


def tolerances(f32):
    return dict(eps=mpf(4) / 10 ** 6, noise=mpf(10) ** -3, worst=mpf(10) ** -1, huge=mpf(10) ** 8) \
        if f32 else dict(huge=mpf(10) ** 12)


class PyEval(wfcode.RealEval):
    INT_LIMIT = 2 ** 24         # integers are 32-bit in the generated code (known finding)


def references(b, spec, env, f32):
    flat = [e for o in spec.outs for e in b.outputs[o.name]]
    r = wfcode.Reference(flat, env, mk=PyEval, **tolerances(f32))
    out, i = {}, 0
    for o in spec.outs:
        n = len(o.trees)
        out[o.name] = (r.values[i:i + n], r.tols[i:i + n], o.shape)
        i += n
    return out


def gen_params(s):
    p, lab = params(s)
    return p, lab


def make(s, spec, tgt, width, outargs, as_fn, ternaries=(None, True, False)):
    """-> (callable, code, label)"""
    m = module(tgt)
    gen = cg.PythonGenerator(TARGET[tgt], width, s.choice([4, 2, 1, 8]), outargs) if s.bool() else \
        cg.PythonGenerator(target=TARGET[tgt], float_width=width, use_output_arguments=outargs)
    if as_fn:
        ct = s.choice(ternaries)
        f, code = cg.generate_python(as_function(spec), generator=gen, convert_ternaries=ct)
        return f, code, f"generate_python convert={ct}", ct
    p, lab = gen_params(s)
    ct = s.bool()
    fd = cg.transpile(build(spec).desc, p, ct)
    code = gen.generate(fd)
    glob = {}
    if s.bool():
        full = gen.apply_preamble(code)
        loc = {}
        exec(compile(full, "gen", "exec"), glob)
        return glob[spec.name], code, lab + f" convert={ct} preamble", ct
    glob[tgt] = m
    exec(compile(code, "gen", "exec"), glob)
    return glob[spec.name], code, lab + f" convert={ct}", ct


def inputs(s, spec, env, tgt, width):
    m = module(tgt)
    dt = "float32" if width == W.Float32 else "float64"
    args = []
    for a in spec.args:
        if a.kind == "m":
            v = np.array([float(env[e]) for e in a.elements()], dtype=dt)
            k = s.draw(3)
            if k == 0 or (a.cols > 1 and k == 1) or k == 2:
                v = v.reshape(a.rows, a.cols)
            if k == 2:
                v = np.asfortranarray(v)
            if tgt == "th":
                v = m.as_tensor(np.ascontiguousarray(v) if s.bool() else v)
            elif tgt == "jnp":
                v = m.asarray(v)
        elif a.kind == "i":
            v = int(env[a.name])
        else:
            v = float(env[a.name])
        args.append(v)
    return args


def to_np(v):
    if hasattr(v, "detach"):
        v = v.detach().numpy()
    return np.asarray(v)


def judge(o, got, want, f32, data):
    w, tols, shape = want
    if got is None:
        raise Violation("output is None", output=o.name, **data)
    a = to_np(got)
    if shape is None:
        if a.shape != ():
            raise Violation("scalar output has a shape", output=o.name, got=got, **data)
    elif a.shape != tuple(shape):
        raise Violation("matrix output has the wrong shape", output=o.name, shape=a.shape, **data)
    if a.dtype.kind not in "fiu" or a.dtype.kind != "f" and shape is not None:
        raise Violation("output has the wrong type", output=o.name, dtype=str(a.dtype), **data)
    for i, (g, x, tol) in enumerate(zip(a.ravel(), w, tols)):
        if not (abs(mpf(float(g)) - x) <= tol):
            raise Violation("generated Python computes a different value", output=o.name, element=i,
                            got=float(g), want=x, tol=tol, **data)


def execute(s, spec, f, env, want, tgt, width, outargs, present, data, wrap=None):
    args = inputs(s, spec, env, tgt, width)
    f32 = width == W.Float32
    dt = np.float32 if f32 else np.float64
    arrs = {}
    kw = {}
    if outargs:
        for o in spec.outs:
            if o.name is None:
                continue
            if o.optional and o.name not in present:
                later = spec.outs[spec.outs.index(o) + 1:]
                if s.bool() or any(not l.optional for l in later):
                    kw[o.name] = None
                continue
            n = len(o.trees)
            a = np.full(o.shape if s.bool(0.7) else (n,), np.nan, dtype=dt)
            arrs[o.name] = kw[o.name] = a
    else:
        for o in spec.outs:
            if o.optional:
                kw["compute_" + o.name] = o.name in present
    # positional when possible
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                if s.bool(0.5):
                    named = {a.name: v for a, v in zip(spec.args, args)}
                    r = f(**named, **kw)
                else:
                    r = f(*args, **kw)
    except Exception as ex:
        raise Violation("generated Python raised", error=f"{type(ex).__name__}: {str(ex)[:300]}",
                        args=args, kwargs=kw, **data)
    if outargs:
        ret = [o for o in spec.outs if o.name is None]
        if ret:
            judge(ret[0], r, want[None], f32, data)
        elif r is not None:
            raise Violation("function without a return value returned something", got=r, **data)
        for o in spec.outs:
            if o.name in arrs:
                w, tols, _ = want[o.name]
                if arrs[o.name].dtype != dt:
                    raise Violation("output array type changed", **data)
                judge(o, arrs[o.name].reshape(o.shape), want[o.name], f32, data)
        return
    vals = (r,) if len(spec.outs) == 1 else r
    if len(spec.outs) > 1 and (not isinstance(r, tuple) or len(r) != len(spec.outs)):
        raise Violation("wrong number of results", got=r, **data)
    for o, v in zip(spec.outs, vals):
        if o.optional and o.name not in present:
            if v is not None:
                raise Violation("absent optional output returned", output=o.name, got=v, **data)
        else:
            judge(o, v, want[o.name], f32, data)


def case(tgt, npts=3):
    def fn(src, ctx):
        s = src
        as_fn = s.bool(0.4)
        outargs = tgt == "np" and s.bool(0.35)
        spec = gen_spec(s, bools=False)
        if outargs:
            for i, o in enumerate(spec.outs):
                if o.shape is None and o.name is not None:
                    o.shape = (1, 1)
        width = W.Float32 if s.bool(0.35) else W.Float64
        f32 = width == W.Float32
        b = build(spec)
        pts = []
        for _ in range(npts):
            env = draw_inputs(s, spec)
            try:
                pts.append((env, references(b, spec, env, f32)))
            except Reject as ex:
                ctx.label(str(ex))
        f, code, lab, ct = make(s, spec, tgt, width, outargs, as_fn)
        opts = [o.name for o in spec.outs if o.optional]
        sets = [tuple(opts), ()] if opts else [()]
        if len(opts) > 1:
            sets.append(tuple(o for o in opts if s.bool()))
        for env, want in pts:
            for pr in sets:
                execute(s, spec, f, env, want, tgt, width, outargs, pr,
                        dict(function=spec.show(), how=lab, target=tgt, float32=f32, outargs=outargs,
                             code=code, point={k: float(v) for k, v in env.items()}, present=pr))
        if not pts:
            raise Reject("no usable point")
        if spec.size() >= 8:
            ctx.mark((spec.show(), lab, f32, outargs), spec.show()[:300] + f" | {lab} f32={f32}")
            ctx.label(("float32" if f32 else "float64") + (" outargs" if outargs else ""))
            for k in sorted(spec.kinds() & {"where", "iv", "pow", "floor", "sign"}):
                ctx.label("has " + k)
    fn.__name__ = tgt
    return fn


def batched(src, ctx):
    """vmap (PyTorch, JAX) and jit (JAX) of the generated code, as documented for traceable code."""
    s = src
    tgt = s.choice(["th", "jnp"])
    spec = gen_spec(s, ints=False, max_outs=2, nodes=30, depth=3)
    b = build(spec)
    f32 = s.bool(0.3)
    width = W.Float32 if f32 else W.Float64
    n = s.int(2, 3)
    pts = []
    for _ in range(n):
        env = draw_inputs(s, spec)
        pts.append((env, references(b, spec, env, f32)))
    m = module(tgt)
    gen = cg.PythonGenerator(TARGET[tgt], width)
    f, code = cg.generate_python(as_function(spec), generator=gen)
    opts = {"compute_" + o.name: s.bool() for o in spec.outs if o.optional}
    if opts and not any(opts.values()) and all(o.optional for o in spec.outs):
        raise Reject("nothing computed")
    dt = np.float32 if f32 else np.float64
    stack = []
    for a in spec.args:
        rows = [np.array([float(env[e]) for e in a.elements()], dtype=dt) for env, _ in pts]
        v = np.stack(rows)
        v = v.reshape((n, a.rows, a.cols) if a.kind == "m" else (n,))
        stack.append(m.as_tensor(v) if tgt == "th" else m.asarray(v))
    keep = [i for i, o in enumerate(spec.outs) if not o.optional or opts["compute_" + o.name]]

    def g(*a):
        r = f(*a, **opts)
        r = (r,) if len(spec.outs) == 1 else r
        return tuple(m.asarray(r[i]) for i in keep)

    data = dict(function=spec.show(), target=tgt, code=code, float32=f32, args=stack, opts=opts)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if tgt == "th":
                # a constant output carries no batch dimension: out_dims would have nothing to do
                import torch
                res = torch.vmap(g)(*stack)
            else:
                import jax
                h = jax.vmap(g)
                res = (jax.jit(h) if s.bool(0.3) else h)(*stack)
    except Exception as ex:
        raise Violation("generated code cannot be batched", error=f"{type(ex).__name__}: {str(ex)[:300]}",
                        **data)
    for j, i in enumerate(keep):
        for k in range(n):
            judge(spec.outs[i], to_np(res[j])[k], pts[k][1][spec.outs[i].name], f32, data)
    if spec.size() >= 8:
        ctx.mark((spec.show(), tgt, f32), f"vmap {tgt} n={n}: " + spec.show()[:300])
        ctx.label(tgt)


def jitted(src, ctx):
    """numba.njit of the generated NumPy code (a configuration the repository supports)."""
    import numba
    s = src
    outargs = s.bool(0.5)
    spec = gen_spec(s, max_outs=3, nodes=30, depth=3)
    for o in spec.outs:
        if outargs and o.shape is None and o.name is not None:
            o.shape = (1, 1)
    f32 = s.bool(0.3)
    width = W.Float32 if f32 else W.Float64
    b = build(spec)
    pts = []
    for _ in range(4):
        env = draw_inputs(s, spec)
        try:
            pts.append((env, references(b, spec, env, f32)))
        except Reject as ex:
            ctx.label(str(ex))
    if not pts:
        raise Reject("no usable point")
    f, code, lab, ct = make(s, spec, "np", width, outargs, True, (None, True))
    try:
        g = numba.njit(error_model="numpy")(f)
    except Exception as ex:
        raise Violation("cannot jit", error=str(ex)[:300], code=code)
    opts = tuple(o.name for o in spec.outs if o.optional and s.bool(0.7))
    if s.bool(0.5):
        opts = tuple(o.name for o in spec.outs if o.optional)
    for env, want in pts:
        execute(s, spec, g, env, want, "np", width, outargs, opts,
                dict(function=spec.show(), how="numba " + lab, float32=f32, outargs=outargs, code=code,
                     point={k: float(v) for k, v in env.items()}, present=opts))
    if spec.size() >= 8:
        ctx.mark((spec.show(), f32, outargs), f"numba: " + spec.show()[:300])


def _k_int32():
    d = cg.FunctionDescription("fn")
    n = d.add_input_argument("n", ti.ScalarType(ti.NumericType.Integer))
    d.set_return_value(n * 4294967296 + 1)
    loc = {"np": np}
    exec(cg.PythonGenerator().generate(cg.transpile(d)), loc)
    try:
        return float(loc["fn"](1)) != 4294967297.0
    except OverflowError:
        return True


KNOWN = {"python-int32": _k_int32}


def literals(src, ctx):
    """Constants reach the generated function exactly."""
    s = src
    tgt = s.weighted([(4, "np"), (2, "th"), (1, "jnp")])
    width = W.Float32 if s.bool(0.25) else W.Float64
    f32 = width == W.Float32
    spec, env, want = gen_literals(s, 2 ** 24, f32, tgt != "jnp")    # XLA flushes subnormals
    f, code, lab, ct = make(s, spec, tgt, width, False, False)
    execute(s, spec, f, env, want, tgt, width, False, (),
            dict(function=spec.show(), how=lab, target=tgt, float32=f32, code=code))
    if len(spec.outs[0].trees) > 1:
        ctx.mark((spec.show(), tgt, f32), spec.show()[:300] + f" | literals {tgt} {lab} f32={f32}")


def streams():
    return [Stream("literals", literals, 4000, 100000), Stream("numpy", case("np"), 15000, 500000), Stream("torch", case("th"), 7000, 200000),
            Stream("jax", case("jnp", 2), 1000, 40000), Stream("batched", batched, 300, 10000),
            Stream("numba", jitted, 60, 2000)]
