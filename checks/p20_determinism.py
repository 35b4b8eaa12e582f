"""P20: generated code is a function of the description alone."""
import gc, json, os, random, subprocess, sys, threading
import wfcode
from wfcode import gen_spec, build, as_function
from p16_transpile import params
import p18_custom as pc
from pbt import Reject, Violation, Stream, Source
from wrenfold import sym, code_generation as cg, external_functions as ef, type_annotations as ta, geometry

RULE = ("history: the same function generated before and after >= 1 other use of the library, text of >= 5 lines; "
        "process: the text compared between >= 3 interpreters; order: >= 1 operand list rearranged; "
        "together: >= 2 functions.")
ASSUMPTIONS = ["external functions and custom types of one description have distinct names",
               "operands are rearranged only in exact sums, products and comparisons"]

GENS = [("eigen", lambda: cg.CppGenerator(cg.CppMatrixTypeBehavior.Eigen)),
        ("span", lambda: cg.CppGenerator()), ("rust", lambda: cg.RustGenerator()),
        ("numpy", lambda: cg.PythonGenerator()),
        ("torch", lambda: cg.PythonGenerator(target=cg.PythonGeneratorTarget.PyTorch)),
        ("jax", lambda: cg.PythonGenerator(target=cg.PythonGeneratorTarget.JAX))]


class Job:
    """One function: kind, description and the way it is generated, all drawn from choices."""

    def __init__(self, s):
        self.start = len(s.rec)
        self.kind = s.draw(3)
        if self.kind == 3:
            self.p = pc.gen_program(s)
        else:
            self.spec = gen_spec(s, name="fn" + str(s.draw(3)), bools=False, floats=0.1, cond=0.35, depth=5, nodes=90)
        k = s.draw(9)
        self.opt = None
        if k:
            self.opt = (s.choice([0, 1, 2, 3, 6]), s.bool())
        self.ct = s.bool()
        self.gens = s.perm(range(len(GENS)))[:s.int(1, 3)]
        self.rec = s.rec[self.start:]

    def describe(self):
        if self.kind == 3:
            return cg.create_function_description(pc.description(self.p, None))
        if self.kind == 2:
            return cg.create_function_description(as_function(self.spec))
        return build(self.spec).desc

    def transpile(self):
        o = None
        if self.opt:
            o = cg.OptimizationParams()
            o.factorization_passes, o.binarize_operations = self.opt
        return cg.transpile(self.describe(), o, self.ct)

    def texts(self):
        """the text in every language, or the error that generation raises"""
        try:
            t = self.transpile()
        except Reject as e:
            return {"reject": str(e)}
        except Violation as e:
            return {"error": str(e)[:100]}
        except Exception as e:
            return {"error": type(e).__name__}
        r = {}
        for g in self.gens:
            n, mk = GENS[g]
            try:
                r[n] = mk().generate(t)
            except Exception as e:
                r[n] = "error " + type(e).__name__
        return r

    def show(self):
        if self.kind == 3:
            return pc.show(self.p)
        return repr([(o.name, o.shape, o.trees) for o in self.spec.outs])


KEEP = []


def disturb(s, jobs):
    """Some other use of the library."""
    k = s.draw(9)
    try:
        if k == 0:
            KEEP.append(sym.unique_symbols(s.int(1, 200)))
        elif k == 1:
            KEEP.append([sym.symbol(f"{c}{i}") * i for i in range(s.int(1, 40)) for c in "abcxyz"])
        elif k == 2:
            KEEP.clear()
            gc.collect()
        elif k == 3:
            j = Job(s)
            t = j.texts()
            if s.bool():
                KEEP.append((j, t))
        elif k == 4:
            j = s.choice(jobs)
            KEEP.append(j.describe())
        elif k == 5:
            x, y = sym.symbols("x y")
            f = sym.Function("f")
            KEEP.append([sym.derivative(f(x * y, sym.sin(x)), x), sym.eliminate_subexpressions(x * y + sym.cos(x * y))])
        elif k == 6:
            n = s.choice(["foo0", "call0", "lookup0"])
            KEEP.append(ef.declare_external_function(n, [("u", ta.FloatScalar)], ta.FloatScalar)(sym.symbol("x")))
            KEEP.append(type(s.choice(["Alpha", "Pose"]), (ta.Opaque,), {}))
        elif k == 7:
            for bad in (lambda: sym.integer(2 ** 62) * 16, lambda: sym.symbol("x").diff(3), lambda: sym.lt(sym.I, 1),
                        lambda: cg.FunctionDescription("g").output_expressions()):
                try:
                    bad()
                except Exception:
                    pass
        elif k == 8:
            t = [bytearray(random.Random(s.draw(99)).randint(10, 5000)) for _ in range(300)]
            KEEP.append(t[::2])
        elif k == 9:
            q = geometry.Quaternion(*sym.symbols(s.choice(["q0 q1 q2 q3", "x y z w"])))
            KEEP.append(q.to_rotation_vector())
    except (Violation, Reject):
        pass
    return k


def differ(a, b, job, what, **kw):
    for n in a:
        if a[n] != b.get(n):
            d = [(x, y) for x, y in zip(a[n].split("\n"), b.get(n, "").split("\n")) if x != y][:3]
            raise Violation(f"generated text differs {what}", language=n, lines=d, first=a[n][:1500], second=b.get(n, "")[:1500],
                            function=job.show()[:800], **kw)


def size(t):
    return max((v.count("\n") for k, v in t.items() if k in dict(GENS)), default=0)


def history(s, ctx):
    jobs = [Job(s) for _ in range(s.int(1, 2))]
    first = [j.texts() for j in jobs]
    if all("reject" in t for t in first):
        raise Reject(first[0]["reject"])
    ks = [disturb(s, jobs) for _ in range(s.int(1, 5))]
    threaded = s.bool(0.1)
    for i in s.perm(range(len(jobs))):
        box = []
        if threaded:
            t = threading.Thread(target=lambda: box.append(jobs[i].texts()))
            t.start()
            t.join()
        else:
            box.append(jobs[i].texts())
        differ(first[i], box[0], jobs[i], "after other use of the library", uses=ks, threaded=threaded)
        if size(first[i]) >= 5:
            ctx.mark((jobs[i].rec, ks), f"kind {jobs[i].kind} uses {ks} {size(first[i])} lines")
    for k in ks:
        ctx.label(f"use {k}")
    if len(KEEP) > 50:
        del KEEP[:]


def worker():
    """A fresh interpreter: reads jobs, does the history, prints the texts."""
    q = json.load(sys.stdin)
    jobs = [Job(Source(prefix=r)) for r in q["jobs"]]
    s = Source(prefix=q["history"])
    out = {}
    for i in q["order"]:
        for _ in range(q["uses"]):
            disturb(s, jobs)
        out[i] = jobs[i].texts()
    json.dump(out, sys.stdout)


def process(s, ctx):
    jobs = [Job(s) for _ in range(max(s.int(1, 14), s.int(1, 14)))]
    texts = []
    for v in range(3):
        order = s.perm(range(len(jobs))) if v else list(range(len(jobs)))
        hist = [s.draw(999) for _ in range(30)] if v else []
        uses = s.int(0, 2) if v else 0
        hs = s.draw(10000)
        env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=":".join(p for p in sys.path if p),
                   MALLOC_PERTURB_=str(s.draw(255)), MALLOC_ARENA_TEST=str(s.int(1, 8)))
        if s.bool():
            env["MALLOC_TOP_PAD_"] = str(s.int(0, 1 << 20))
        if s.bool(0.3):
            env["PYTHONMALLOC"] = "malloc"
        r = subprocess.run([sys.executable, "-c", "import p20_determinism; p20_determinism.worker()"],
                           input=json.dumps({"jobs": [j.rec for j in jobs], "history": hist, "order": order, "uses": uses}),
                           capture_output=True, text=True, env=env, timeout=120)
        if r.returncode:
            raise Violation("a fresh interpreter fails", code=r.returncode, error=r.stderr[-1500:])
        texts.append({int(k): t for k, t in json.loads(r.stdout).items()})
    for i, j in enumerate(jobs):
        for t in texts[1:]:
            differ(texts[0][i], t[i], j, "between processes")
        if size(texts[0][i]) >= 5:
            ctx.mark(j.rec, f"kind {j.kind} {size(texts[0][i])} lines")
    ctx.units = len(jobs)


# ------------------------------------------------------------------ operand order
def exact(t):
    """no floating point below (their sums depend on the order)"""
    return t[0] != "flt" and all(exact(x) for x in t[1:] if isinstance(x, tuple))


def shuffle(s, t, memo, n):
    if id(t) in memo:
        return memo[id(t)][0]
    a = [shuffle(s, x, memo, n) if isinstance(x, tuple) else x for x in t[1:]]
    if t[0] in ("add", "mul") and len(a) > 1 and exact(t):
        q = s.perm(a)
        n[0] += q != a
        a = q
    elif t[0] == "cmp" and s.bool():
        n[0] += 1
        a = [{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[a[0]], a[2], a[1]]
    elif t[0] == "sub" and exact(t) and s.bool():
        n[0] += 1
        memo[id(t)] = (("add", ("neg", a[1]), a[0]), t)
        return memo[id(t)][0]
    r = (t[0], *a)
    memo[id(t)] = (r, t)
    return r


def order(s, ctx):
    j = Job(s)
    if j.kind == 3:
        raise Reject("not an expression program")
    a = j.texts()
    if "reject" in a:
        raise Reject(a["reject"])
    n, memo = [0], {}
    trees = [o.trees for o in j.spec.outs]
    for o in j.spec.outs:
        o.trees = [shuffle(s, t, memo, n) for t in o.trees]
    if not n[0]:
        raise Reject("nothing to rearrange")
    b = j.texts()
    if "reject" in b:
        raise Reject("overflow in one order")
    differ(a, b, j, "when operands are supplied in another order", original=repr(trees)[:800])
    if size(a) >= 3:
        ctx.mark(j.rec, f"{n[0]} rearrangements, {size(a)} lines")


def together(s, ctx):
    jobs = [Job(s) for _ in range(s.int(2, 5))]
    name, mk = s.choice(GENS)
    ds, sep = [], []
    for j in jobs:
        try:
            t = j.transpile()
            sep.append(mk().generate(t))
            ds.append((j, t))
        except (Reject, Violation):
            pass
        except Exception:
            pass
    if not ds:
        raise Reject("none could be generated")
    g = mk()
    got = g.generate([t for _, t in ds])
    if got != "\n\n".join(sep):
        raise Violation("functions generated together differ from those generated separately", got=got[:3000], want="\n\n".join(sep)[:3000])
    # one generator, used repeatedly, and descriptions transpiled again
    for i in s.perm(range(len(ds))):
        if g.generate(ds[i][1]) != sep[i]:
            raise Violation("a generator used before gives different text", function=ds[i][0].show()[:800])
    if len(ds) > 1:
        ctx.mark([j.rec for j, _ in ds], f"{name} {len(ds)} functions")


def streams():
    return [Stream("history", history, 12000, 100000), Stream("process", process, 150, 4000),
            Stream("order", order, 30000, 150000), Stream("together", together, 8000, 50000)]


KNOWN = {}
