"""P16: transpilation to the syntax tree preserves the function."""
from mpmath import mpf, mp
import wfcode, wfexpr
from wfcode import gen_spec, build, draw_inputs, Reference, Interp, interp_inputs, static_check, BAD
from wfexpr import Num
from pbt import Reject, Violation, Stream
from wrenfold import sym, code_generation as cg

RULE = ("functions: a function of >= 12 expression nodes with a conditional, an optional output or a "
        "factorizable sum whose syntax tree was run at >= 1 point under >= 2 settings; cse: >= 2 "
        "intermediate values evaluated in order.")
ASSUMPTIONS = ["numeric literals of the tree are doubles, so values agree to a tolerance measured by "
               "disturbing every operation of the reference by 1e-13",
               "a value outside the real domain may be computed as long as no output depends on it"]


def params(s):
    k = s.draw(9)
    if k == 0:
        return None, "default"
    p = cg.OptimizationParams()
    p.factorization_passes = s.choice([0, 1, 2, 3, 4, 6, 12])
    p.binarize_operations = s.bool()
    return p, f"passes={p.factorization_passes} binarize={p.binarize_operations}"


def compare(label, got, want, tols, shape, **data):
    if got is None:
        raise Violation("output missing", output=label, **data)
    t, v = got
    if shape is None:
        if t == "m":
            raise Violation("matrix value for a scalar output", output=label, **data)
        vs = [v]
    else:
        if t != "m" or tuple(v[:2]) != tuple(shape):
            raise Violation("wrong shape", output=label, got=(t, v), want=shape, **data)
        vs = v[2]
    for i, (g, w, tol) in enumerate(zip(vs, want, tols)):
        if g is BAD:
            raise Violation("output depends on an operation outside its domain", output=label,
                            element=i, want=w, **data)
        if abs(g - w) > tol:
            raise Violation("syntax tree computes a different value", output=label, element=i,
                            got=g, want=w, tol=tol, **data)


def dump(span, ind=0):
    r = []
    for n in span:
        k = type(n).__name__
        if k == "Branch":
            r.append("  " * ind + "if " + repr(n.condition))
            r += dump(n.if_branch, ind + 1)
            r.append("  " * ind + "else")
            r += dump(n.else_branch, ind + 1)
        elif k == "OptionalOutputBranch":
            r.append("  " * ind + "if present " + n.argument.name)
            r += dump(n.statements, ind + 1)
        elif k != "Comment":
            r.append("  " * ind + repr(n))
    return r


def refs(b, spec, env):
    flat = [e for o in spec.outs for e in b.outputs[o.name]]
    r = Reference(flat, env)
    out, i = {}, 0
    for o in spec.outs:
        n = len(o.trees)
        out[o.name] = (r.values[i:i + n], r.tols[i:i + n], o.shape)
        i += n
    return out


def signature(fd, spec):
    want = [(a.name, False) for a in spec.args] + [(o.name, o.optional) for o in spec.outs
                                                   if o.name is not None]
    got = [(a.name, a.is_optional) for a in fd.signature.arguments]
    if fd.signature.name != spec.name or got != want:
        raise Violation("signature differs from the description", got=got, want=want)
    has = fd.signature.return_type is not None
    if has != any(o.name is None for o in spec.outs):
        raise Violation("return type differs from the description")


def run(fd, spec, env, want, present, data):
    it = Interp(fd, interp_inputs(spec, env), present).run()
    for o in spec.outs:
        if o.name is None:
            compare("return", it.ret, *want[None], **data)
        elif o.optional and o.name not in present:
            if o.name in it.out:
                raise Violation("absent optional output assigned", output=o.name, **data)
        else:
            compare(o.name, it.out.get(o.name), *want[o.name], **data)
    extra = set(it.out) - {o.name for o in spec.outs}
    if extra:
        raise Violation("assigns something that is not an output", extra=sorted(extra), **data)


def functions(src, ctx):
    s = src
    spec = gen_spec(s)
    b = build(spec)
    pts = []
    for _ in range(s.int(2, 4)):
        env = draw_inputs(s, spec)
        try:
            pts.append((env, refs(b, spec, env)))
        except Reject as ex:
            ctx.label(str(ex))
    opts = [o.name for o in spec.outs if o.optional]
    settings = []
    for _ in range(s.int(2, 3)):
        p, lab = params(s)
        ct = s.bool(0.6)
        d = b.desc
        form = s.draw(2)
        if form == 0:
            fd = cg.transpile(d, p, ct)
        elif form == 1:
            fd = cg.transpile(d, optimization_params=p, convert_ternaries=ct)
        else:
            fd = cg.transpile(wfcode.build(spec).desc, optimization_params=p, convert_ternaries=ct)
        lab += f" convert={ct}"
        settings.append(lab)
        data = dict(function=spec.show(), settings=lab, tree=dump(fd.body))
        try:
            static_check(fd)
        except Violation as v:
            v.data.update(data)
            raise
        signature(fd, spec)
        sets = [(), tuple(opts)] if opts else [()]
        if len(opts) > 1:
            sets.append(tuple(o for o in opts if s.bool()))
        for env, want in pts:
            for pr in sets:
                try:
                    run(fd, spec, env, want, pr, dict(data, point=env, present=pr))
                except Violation as v:
                    for k, x in dict(data, point=env, present=pr).items():
                        v.data.setdefault(k, x)
                    raise
    if not pts:
        raise Reject("no usable point")
    ks = spec.kinds()
    if spec.size() >= 12 and (ks & {"where", "min", "max", "iv"} or opts or "add" in ks) and len(pts):
        ctx.mark(spec.show(), spec.show()[:300] + " | " + "; ".join(settings))
        for k in sorted(ks & {"where", "iv", "pow", "floor", "sign"}):
            ctx.label("has " + k)


def cse(src, ctx):
    """cse_function_description: intermediates evaluated in order give the outputs."""
    s = src
    spec = gen_spec(s)
    b = build(spec)
    p, lab = params(s)
    outs, inter = cg.cse_function_description(b.desc, p) if s.bool() else \
        cg.cse_function_description(b.desc, params=p)
    env = draw_inputs(s, spec)
    want = refs(b, spec, env)
    e2 = dict(env)
    data = dict(function=spec.show(), settings=lab, intermediates=inter, outputs=outs, point=env)
    vals = {}
    from wfcode import RealEval
    from wfexpr import Undef, Unstable, NotValue
    for v, e in inter:
        if v in vals:
            raise Violation("intermediate defined twice", variable=v, **data)
        vals[v] = lazy(e, e2, vals)
    byname = {k.name if k.name else None: v for k, v in outs.items()}
    if set(byname) != {o.name for o in spec.outs}:
        raise Violation("outputs differ from the description", **data)
    for o in spec.outs:
        v = byname[o.name]
        w, tols, shape = want[o.name]
        es = v.to_flat_list() if hasattr(v, "to_flat_list") else [v]
        if len(es) != len(w) or (shape is not None and tuple(v.shape) != tuple(shape)):
            raise Violation("output has the wrong shape", output=o.name, **data)
        for e, x, tol in zip(es, w, tols):
            try:
                g = Lazy(e2, vals)(e)
            except (wfexpr.Undef, wfexpr.Unstable, Reject) as ex:
                raise Violation("value undefined through the intermediates", output=o.name,
                                error=str(ex), want=x, **data)
            if abs(g - x) > tol:
                raise Violation("value differs", output=o.name, got=g, want=x, tol=tol, **data)
    if len(inter) >= 2:
        ctx.mark((spec.show(), lab), f"{spec.show()[:200]} -> {inter!r}"[:500])


class lazy:
    def __init__(self, e, env, vals):
        self.e, self.env, self.vals = e, env, dict(vals)


class Lazy(wfcode.RealEval):
    """Intermediates are computed when used (one in an unselected branch may be undefined)."""

    def __init__(self, env, vals):
        super().__init__(env, wfcode.IeeeNum(noise=mpf(10) ** -30))
        self.vals = vals

    def ev(self, e):
        if e in self.vals:
            l = self.vals[e]
            return Lazy(l.env, l.vals)(l.e)
        return super().ev(e)


KNOWN = {}


def streams():
    return [Stream("functions", functions, 24000, 600000), Stream("cse", cse, 8000, 200000)]
