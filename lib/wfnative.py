"""Compiling generated C++ and Rust functions in batches and calling them through ctypes.

Every generated function is wrapped in `int call_<i>(const double* in, double* out, const u8* present)`:
`in` holds the flattened arguments, `out` the flattened outputs, `present` a flag per optional output.
The wrapper returns non-zero when memory it does not own to the function was modified."""
import ctypes, hashlib, os, pathlib, shutil, subprocess, tempfile
import wfbuild
from mpmath import mpf
import wfcode
from wfcode import gen_spec, build, draw_inputs
from pbt import Reject, Violation
from wfproc import cached, run
from wrenfold import sym, code_generation as cg

SENTINEL = -12345.6789e30


class NativeEval(wfcode.RealEval):
    INT_LIMIT = 2 ** 50


class NativeEval32(wfcode.RealEval):
    INT_LIMIT = 2 ** 24


def tolerances(f32):
    return dict(eps=mpf(4) / 10 ** 6, noise=mpf(10) ** -3, worst=mpf(10) ** -1, huge=mpf(10) ** 8,
                mk=NativeEval32) if f32 else dict(huge=mpf(10) ** 12, mk=NativeEval)


def references(b, spec, env, f32, **kw):
    flat = [e for o in spec.outs for e in b.outputs[o.name]]
    k = tolerances(f32)
    k.update(kw)
    r = wfcode.Reference(flat, env, **k)
    out, i = {}, 0
    for o in spec.outs:
        n = len(o.trees)
        out[o.name] = (r.values[i:i + n], r.tols[i:i + n], o.shape)
        i += n
    return out


class Native:
    """One generated function of a batch."""

    def __init__(self, spec, built, code, wrapper, points, how, f32=False, call_outs=None):
        self.spec, self.built, self.code, self.wrapper = spec, built, code, wrapper
        self.points, self.how, self.f32 = points, how, f32


def flat_inputs(spec, env):
    return [float(env[e]) for a in spec.args for e in a.elements()]


def present_sets(s, spec):
    opts = [o.name for o in spec.outs if o.optional]
    sets = [tuple(opts), ()] if opts else [()]
    if len(opts) > 1:
        sets.append(tuple(o for o in opts if s.bool()))
    return opts, sets


def check_calls(fn, nat, sets, opts):
    """Run one compiled function at its points and compare; -> number of comparisons."""
    spec = nat.spec
    n_out = sum(len(o.trees) for o in spec.outs)
    ok = 0
    for env, want in nat.points:
        for pr in sets:
            inp = flat_inputs(spec, env)
            data = dict(function=spec.show(), how=nat.how, code=nat.code,
                        point={k: float(v) for k, v in env.items()}, present=pr)
            ci = (ctypes.c_double * max(1, len(inp)))(*inp)
            co = (ctypes.c_double * max(1, n_out))(*([SENTINEL] * n_out))
            cp = (ctypes.c_ubyte * max(1, len(opts)))(*[1 if o in pr else 0 for o in opts])
            rc = fn(ci, co, cp)
            if rc:
                raise Violation("memory outside the outputs was modified", rc=rc, **data)
            i = 0
            for o in spec.outs:
                w, tols, _ = want[o.name]
                got = list(co[i:i + len(w)])
                i += len(w)
                if o.optional and o.name not in pr:
                    if any(g != SENTINEL for g in got):
                        raise Violation("absent output was written", output=o.name, got=got, **data)
                    continue
                for k, (g, x, tol) in enumerate(zip(got, w, tols)):
                    if g == SENTINEL:
                        raise Violation("output was not written", output=o.name, element=k, want=x,
                                        **data)
                    if not abs(mpf(g) - x) <= tol:
                        raise Violation("generated code computes a different value", output=o.name,
                                        element=k, got=g, want=x, tol=tol, **data)
                    ok += 1
    return ok


def batch(s, ctx, one, compile_, hi=26):
    """one(s, i) -> Native or raises Reject; compile_([Native]) -> list of callables or (None, error)."""
    head = list(s.rec)
    n = max(s.int(1, hi), s.int(1, hi))
    funs, spans = [], []
    for i in range(n):
        a = len(s.rec)
        try:
            f = one(s, i)
            opts, sets = present_sets(s, f.spec)
            f.sets, f.opts = sets, opts
            f.slice = (a, len(s.rec))
            funs.append(f)
        except Reject as e:
            ctx.label("function:" + str(e)[:40])
    if not funs:
        raise Reject("no function")
    tmp = tempfile.mkdtemp(prefix="wfnat")
    try:
        libs, err = compile_(funs, tmp)
        if err:
            # find the culprits
            for f in funs:
                d = tempfile.mkdtemp(prefix="wfnat")
                try:
                    _, e1 = compile_([f], d)
                finally:
                    shutil.rmtree(d, ignore_errors=True)
                if e1:
                    v = Violation("generated code does not compile", function=f.spec.show(), how=f.how,
                                  error=e1[:1500], code=f.code)
                    v.hint = head + [0, 0] + s.rec[f.slice[0]:f.slice[1]]
                    raise v
            raise Violation("generated functions do not compile together", error=err[:1500])
        ctx.units = len(funs)
        for f, fn in zip(funs, libs):
            try:
                ok = check_calls(fn, f, f.sets, f.opts)
            except Violation as v:
                v.hint = head + [0, 0] + s.rec[f.slice[0]:f.slice[1]]
                raise
            if ok and f.spec.size() >= 8:
                ctx.mark((f.spec.show(), f.how), f.spec.show()[:300] + " | " + f.how)
                ctx.label("compared " + f.how.split(" ")[0])
                for k in sorted(f.spec.kinds() & {"where", "iv", "pow", "floor", "sign"}):
                    ctx.label("has " + k)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def bind(path, idx):
    lib = ctypes.CDLL(str(path))
    fs = []
    for i in idx:
        f = getattr(lib, f"call_{i}")
        f.restype = ctypes.c_int
        f.argtypes = [ctypes.c_void_p] * 3
        fs.append(f)
    return fs


def points(s, ctx, b, spec, f32, npts, **kw):
    pts = []
    for _ in range(npts):
        env = draw_inputs(s, spec)
        try:
            pts.append((env, references(b, spec, env, f32, **kw)))
        except Reject as ex:
            ctx.label(str(ex))
    if not pts:
        raise Reject("no usable point")
    return pts
