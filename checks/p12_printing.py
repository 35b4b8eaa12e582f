"""P12: the text of an expression, read back, is the expression."""
import ast, math
from mpmath import mp, mpf
import wfexpr
from wfexpr import Gen, Builder, Ref, WfEval, Num, NotValue, make_symbols, draw_point, Undef, Unstable, SETS
import p18_custom as pc
from pbt import Reject, Violation, Stream
from wrenfold import sym, geometry
from wrenfold.enumerations import NumberSet

RULE = ("text: the printed form has >= 3 operators and was read back, evaluated at >= 1 point and rebuilt; "
        "abstract: the rebuilt expression was compared; tree: >= 4 nodes compared; custom: an expression over "
        "structured values or external calls was evaluated from its text.")
ASSUMPTIONS = ["the text is read as a Python expression", "symbol names are distinct and differ from function names",
               "a struct constructed in place as an argument of an external call prints only its size (excluded)"]

BUILTIN = set("cos sin tan acos asin atan cosh sinh tanh acosh asinh atanh log exp sqrt abs sign floor atan2 signum".split())
EXTREME = [("int", 2 ** 63 - 1), ("int", -2 ** 63 + 1), ("int", -2 ** 63), ("flt", 1e30), ("flt", -1e-30), ("flt", 0.1),
           ("flt", 5e-324), ("flt", 1.7976931348623157e308), ("flt", 1e22), ("flt", -2.5), ("rat", 2 ** 63 - 1, 2),
           ("rat", -2 ** 63, 3), ("rat", 1, 2 ** 63 - 1), ("flt", 123456789.125), ("flt", 1e16), ("flt", -1.0), ("flt", 4.0)]


class PGen(Gen):
    extreme = 0.06

    def number(self):
        if self.extreme and self.s.bool(self.extreme):
            return self.s.choice(EXTREME)
        return super().number()


def read(text):
    """text -> tree, by Python's grammar"""
    t = text.replace("$u_", "_unique_")
    try:
        return conv(ast.parse(t, mode="eval").body)
    except (SyntaxError, KeyError, AssertionError) as ex:
        raise Violation("the text is not an expression", text=text, error=f"{type(ex).__name__} {ex}")


BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==", ast.Gt: ">", ast.GtE: ">="}


def conv(n):
    if isinstance(n, ast.BinOp):
        return (BIN[type(n.op)], conv(n.left), conv(n.right))
    if isinstance(n, ast.UnaryOp):
        assert isinstance(n.op, ast.USub)
        if isinstance(n.operand, ast.Constant):
            return number(-n.operand.value)
        return ("neg", conv(n.operand))
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            return ("bool", n.value)
        return number(n.value)
    if isinstance(n, ast.Name):
        if n.id in ("pi", "E", "I"):
            return ("const", n.id)
        if n.id in ("zoo", "nan", "inf"):
            return ("odd", n.id)
        return ("sym", n.id)
    if isinstance(n, ast.Compare):
        assert len(n.ops) == 1, "chained comparison"
        return ("cmp", CMP[type(n.ops[0])], conv(n.left), conv(n.comparators[0]))
    if isinstance(n, ast.List):
        return ("list", *map(conv, n.elts))
    if isinstance(n, ast.Call):
        f = n.func.id
        a = list(map(conv, n.args))
        if f == "where":
            return ("where", *a)
        if f == "iverson":
            return ("iv", *a)
        if f == "StopDerivative":
            return ("stop", *a)
        if f == "Subs":
            return ("subst", *a)
        if f == "Derivative":
            return ("deriv", a[0], a[1], a[2][1] if len(a) > 2 else 1)
        if f in BUILTIN:
            return ("fn", {"signum": "sign"}.get(f, f), *a)
        return ("ufun", f, *a)
    raise AssertionError(type(n).__name__)


def number(v):
    return ("int", v) if isinstance(v, int) else ("flt", v)


class Rebuild(Builder):
    def b(self, t):
        if t[0] == "odd":
            return {"zoo": self.sym.zoo, "nan": self.sym.nan, "inf": self.sym.float_constant(math.inf) if t[1] == "inf" else None}[t[1]]
        if t[0] == "sym" and t[1] not in self.symbols:
            raise Violation("the text names an unknown symbol", name=t[1])
        if t[0] == "fn" and t[1] == "floor":
            return self.sym.floor(self(t[2]))
        return super().b(t)


def operators(t):
    return (t[0] not in ("int", "flt", "sym", "const", "odd", "bool")) + sum(operators(x) for x in t[1:] if isinstance(x, tuple))


def has_type(e, names, seen=None):
    seen = set() if seen is None else seen
    if e in seen:
        return False
    seen.add(e)
    return e.type_name in names or any(has_type(a, names, seen) for a in e.args)


def tree_of(s, **kw):
    g = PGen(s, syms=list(SETS), floats=s.choice([0.0, 0.1, 0.3]), cond=s.choice([0.0, 0.2]), I=s.bool(0.2), consts=0.08,
             fun_names=sorted(BUILTIN - {"floor", "atan2", "signum", "sqrt"}) + ["sqrt", "sign", "atan"], wrap=s.bool(0.4), **kw)
    return g.expr(s.int(1, 5)) if not s.bool(0.1) else g.boolean(s.int(1, 3))


def text_of(e):
    """The text, or a violation where there is none."""
    try:
        return str(e)
    except Exception as ex:
        raise Violation(f"printing raises {type(ex).__name__}", error=str(ex)[:200])


def structure(e):
    """Nested public structure, for reports."""
    return (e.type_name, *map(structure, e.args)) if e.args else str(e)


def same_value(s, e, t, text):
    names = sorted(wfexpr.syms_in(t))
    n = 0
    for _ in range(4):
        env = draw_point(s, SETS)
        try:
            a = Ref(env, Num(), strict=False)(t)
            b = WfEval(env, Num())(e)
        except (Undef, Unstable, Reject, NotValue):
            continue
        if isinstance(a, bool) or isinstance(b, bool):
            if a is not b:
                raise Violation("the text denotes another truth value", text=text, structure=structure(e), env={k: env[k] for k in names})
        else:
            m = max(abs(a), abs(b))
            if abs(a - b) > mpf(10) ** -25 * (1 + m):
                raise Violation("the text denotes another value", text=text, structure=structure(e), got=a, want=b,
                                env={k: env[k] for k in names})
        n += 1
    return n


def text(s, ctx):
    t = tree_of(s)
    syms = make_symbols(sym, NumberSet)
    e = Builder(sym, syms, lenient=True)(t)
    txt = text_of(e)
    r = read(txt)
    if has_odd(r):
        ctx.label("not finite")
        n = 0
    else:
        n = same_value(s, e, r, txt)
    if has_type(e, ("Unevaluated", "FloatConstant")) or has_odd(r):
        same = None
    else:
        b = rebuilt(r, syms, txt)
        same = b.is_identical_to(e)
        if not same:
            # arithmetic need not be confluent, but what was built must print alike and be equal
            ctx.label("rebuilt differently")
            same_value(s, b, r, txt)
    ctx.label("identical" if same else "value only")
    if n and operators(r) >= 3:
        ctx.mark(txt, txt[:200])


def has_odd(t):
    return t[0] == "odd" or any(has_odd(x) for x in t[1:] if isinstance(x, tuple))


def rebuilt(r, syms, txt):
    try:
        return Rebuild(sym, syms, lenient=True)(r)
    except (Reject, Violation):
        raise
    except Exception as ex:
        raise Violation("the text cannot be built again", text=txt, error=f"{type(ex).__name__} {str(ex)[:200]}")


def abstract(s, ctx):
    """Symbolic functions, derivatives and substitutions: compared by structure."""
    g = PGen(s, syms=["x", "y", "z"], floats=0.0, cond=0.1, consts=0.05, abstract=True)
    g.extreme = 0
    syms = make_symbols(sym, NumberSet)
    t = g.expr(s.int(1, 5))
    e = Builder(sym, syms, lenient=True)(t)
    txt = text_of(e)
    r = read(txt)
    if has_odd(r):
        raise Reject("not finite")
    b = rebuilt(r, syms, txt)
    if not b.is_identical_to(e):
        txt2 = text_of(b)
        if not match(e, r):
            raise Violation("the text denotes another expression", text=txt, structure=structure(e), again=txt2)
        ctx.label("rebuilt differently")
    if operators(r) >= 3 and any(k in txt for k in ("Derivative", "Subs", "f(", "g(", "h(")):
        ctx.mark(txt, txt[:200])


def flatten(t, op):
    """terms of a sum / factors of a product of the read tree, with signs and divisions resolved"""
    if op == "add":
        if t[0] == "add":
            return flatten(t[1], op) + flatten(t[2], op)
        if t[0] == "sub":
            return flatten(t[1], op) + [("neg", x) for x in flatten(t[2], op)]
    elif t[0] == "mul":
        return flatten(t[1], op) + flatten(t[2], op)
    return [t]


def match(e, r):
    """Does the structure of e agree with the tree r, as far as one can say without arithmetic?"""
    k = e.type_name
    if k in ("Derivative", "Substitution", "SymbolicFunctionInvocation", "StopDerivative", "Conditional", "BuiltInFunctionInvocation"):
        want = {"Derivative": "deriv", "Substitution": "subst", "SymbolicFunctionInvocation": "ufun", "StopDerivative": "stop",
                "Conditional": "where", "BuiltInFunctionInvocation": "fn"}[k]
        if r[0] != want:
            return False
        sub = [x for x in r[1:] if isinstance(x, tuple)]
        return len(sub) == len(e.args) and all(match(a, b) for a, b in zip(e.args, sub))
    if k == "Variable":
        return r == ("sym", str(e))
    if k == "Addition":
        ts = flatten(r, "add")
        return len(ts) == len(e.args)
    return True


def boolean(s, ctx):
    g = PGen(s, syms=list(SETS), floats=0.1, cond=0.2, consts=0.05)
    syms = make_symbols(sym, NumberSet)
    e = Builder(sym, syms, lenient=True)(g.boolean(s.int(0, 4)))
    txt = text_of(e)
    r = read(txt)
    if has_odd(r):
        raise Reject("not finite")
    n = same_value(s, e, r, txt)
    if n and operators(r) >= 3:
        ctx.mark(txt, txt[:200])


def matrix(s, ctx):
    syms = make_symbols(sym, NumberSet)
    b = Builder(sym, syms, lenient=True)
    g = PGen(s, syms=list(SETS), floats=0.05, cond=0.1)
    if s.bool(0.2):
        q = geometry.Quaternion(*[b(g.expr(s.int(0, 2))) for _ in range(4)])
        r = read(str(q).replace("Quaternion(", "Quat("))
        els, want = list(r[2:]), q.to_list()
        if r[:2] != ("ufun", "Quat") or len(els) != 4:
            raise Violation("the text of a quaternion lists other elements", text=str(q))
    else:
        n, m = s.int(1, 4), s.int(1, 4)
        M = sym.matrix([[b(g.expr(s.int(0, 3))) for _ in range(m)] for _ in range(n)])
        txt = text_of(M)
        r = read(txt)
        if r[0] != "list" or len(r) != n + 1 or any(x[0] != "list" or len(x) != m + 1 for x in r[1:]):
            raise Violation("the text of a matrix has another shape", text=txt, shape=M.shape)
        els, want = [x for row in r[1:] for x in row[1:]], M.to_flat_list()
    for t, e in zip(els, want):
        if text_of(e) != "nan" and read(text_of(e)) != t:
            raise Violation("an element prints differently inside its matrix", element=text_of(e), inside=t)
        if not has_odd(t):
            same_value(s, e, t, text_of(e))
    ctx.mark(repr(els), f"{len(els)} elements")


# ------------------------------------------------------------------ tree form
def parse_tree(txt):
    """-> nested [label, children]; the drawing must be exactly that of the nesting."""
    lines = txt.split("\n")
    root = [lines[0], []]
    stack = [root]
    for l in lines[1:]:
        i = 0
        while l[i:i + 3] in ("│  ", "   "):
            i += 3
        if l[i:i + 3] not in ("├─ ", "└─ "):
            raise Violation("malformed line in the tree", line=l, text=txt)
        d = i // 3 + 1
        if d > len(stack):
            raise Violation("a child is indented more than one level", line=l, text=txt)
        node = [l[i + 3:], []]
        stack[d - 1][1].append(node)
        del stack[d:]
        stack.append(node)
    if "\n".join(draw(root)) != txt:
        raise Violation("the tree is not drawn like its nesting", text=txt, want="\n".join(draw(root)))
    return root


def draw(n):
    out = [n[0]]
    for i, c in enumerate(n[1]):
        last = i == len(n[1]) - 1
        d = draw(c)
        out.append(("└─ " if last else "├─ ") + d[0])
        out += [("   " if last else "│  ") + x for x in d[1:]]
    return out


def label(e, sets):
    k = e.type_name
    if k == "IntegerConstant":
        return f"{k} ({e})"
    if k == "RationalConstant":
        return f"{k} ({str(e).replace('/', ' / ')})"
    if k == "FloatConstant":
        return f"{k} ({e})"
    if k == "SymbolicConstant":
        return f"{k} ({e})"
    if k == "Variable":
        return f"{k} ({e}, {sets[str(e)]})"
    if k == "BuiltInFunctionInvocation":
        return f"{k} ({str(e).split('(')[0]}):"
    if k == "SymbolicFunctionInvocation":
        return f"{k} ({str(e).split('(')[0]})" + ":"
    if k == "Relational":
        return f"{k} ({wfexpr.split_top(str(e))})"
    if k == "Derivative":
        t = read(str(e))
        return f"{k} (order = {t[3]}):"
    if k == "BooleanConstant":
        return f"{k} ({str(e).lower()})"
    return k + (":" if e.args else "")


KIND = {"real": "real", "positive": "real_positive", "nonneg": "real_non_negative", "unknown": "unknown", "complex": "complex"}


def want_tree(e, sets):
    ch = [want_tree(a, sets) for a in e.args]
    if e.type_name in ("Addition", "Multiplication"):
        ch.sort(key=repr)
    return [label(e, sets), ch]


def order_free(n):
    ch = [order_free(c) for c in n[1]]
    if n[0] in ("Addition:", "Multiplication:"):
        ch.sort(key=repr)
    return [n[0], ch]


def tree(s, ctx):
    syms = make_symbols(sym, NumberSet)
    g = PGen(s, syms=list(SETS), floats=0.1, cond=0.2, consts=0.08, I=s.bool(0.2), abstract=True, wrap=True)
    b = Builder(sym, syms, lenient=True)
    if s.bool(0.2):
        n, m = s.int(1, 3), s.int(1, 3)
        M = sym.matrix([[b(g.expr(s.int(0, 3))) for _ in range(m)] for _ in range(n)])
        got = parse_tree(M.expression_tree_str())
        want = [f"Matrix ({n}, {m}):", [want_tree(e, SETNAMES) for e in M.to_flat_list()]]
    else:
        e = b(g.boolean(s.int(0, 4)) if s.bool(0.2) else g.expr(s.int(0, 5)))
        got = parse_tree(e.expression_tree_str())
        want = want_tree(e, SETNAMES)
    if order_free(got) != order_free(want):
        raise Violation("the tree lists other nodes than the expression", got="\n".join(draw(got)), want="\n".join(draw(want)))
    if len(draw(got)) >= 4:
        ctx.mark(repr(got), f"{len(draw(got))} nodes")


SETNAMES = {n: sym.symbol(n, k).expression_tree_str().split(", ")[1][:-1] for n, k in ()}
for _n, _k in SETS.items():
    _e = make_symbols(sym, NumberSet)[_n]
    SETNAMES[_n] = KIND[_k]


# ------------------------------------------------------------------ structured values, external calls
class Lazy:
    pass


def custom(s, ctx):
    p = pc.gen_program(s)
    if any(k[0] == "i" and h[0] == "int" for k, h in p.body):
        pass
    pts = pc.numeric_points(s, p, 2)
    from wrenfold import code_generation as cg
    f = pc.description(p, s)
    d = cg.create_function_description(f)
    scal = []
    for (nm, _, _, k), (key, v) in zip(p.outs, outputs(d, p)):
        if k[0] == "f":
            scal.append((nm, [v]))
        elif k[0] == "m":
            scal.append((nm, v.to_flat_list()))
    if not scal:
        raise Reject("no scalar output")
    names = {f.name: pc.numeric_function(p, f) for f in p.funcs}
    names.update(sin=math.sin, cos=math.cos, tanh=math.tanh, where=lambda c, a, b: a if c else b)
    for nm, es in scal:
        for i, e in enumerate(es):
            txt = text_of(e)
            if " expressions>)" in txt:
                ctx.label("constructed argument")
                continue
            for args, want in pts:
                w = dict(zip([o[0] for o in p.outs], want))[nm]
                env = dict(names)
                env.update({n: a for (n, _), a in zip(p.args, args)})
                try:
                    got = eval(txt, {"__builtins__": {}}, env)
                except Violation:
                    raise
                except Exception as ex:
                    raise Violation("the text cannot be evaluated", text=txt, error=f"{type(ex).__name__} {ex}", program=pc.show(p))
                if not pc.close(float(got), w[i]):
                    raise Violation("the text denotes another value", text=txt, got=float(got), want=w[i], program=pc.show(p))
            if "(" in txt or "." in txt:
                ctx.mark(txt, txt[:200])


def outputs(d, p):
    r = {k.name: v for k, v in d.output_expressions().items()}
    return [(nm, r["" if nm is None else nm] if nm is not None else next(v for k, v in r.items() if k in ("", None))) for nm, _, _, _ in p.outs]


def functions(s, ctx):
    """Calls of functions with any number of arguments."""
    from wrenfold import external_functions as ef, type_annotations as ta
    n = s.draw(3)
    xs = [sym.symbol(c) for c in "xyz"[:n]]
    nm = s.choice(["f", "foo", "g2"])
    if s.bool():
        e = sym.Function(nm)(*xs)
        leaf = "SymbolicFunctionInvocation"
    else:
        e = ef.declare_external_function(nm, [(f"a{i}", ta.FloatScalar) for i in range(n)], ta.FloatScalar)(*xs)
        leaf = "CompoundExpressionElement"
    k = s.draw(3)
    e = [lambda: e, lambda: e + 2, lambda: e * e, lambda: sym.cos(e)][k]()
    call = f"{nm}({', '.join('xyz'[:n])})"
    want = [call, f"2 + {call}", f"{call}**2", f"cos({call})"][k]
    if str(e) not in (want, f"{call} + 2"):
        raise Violation("a call prints differently", got=str(e), want=want)
    t = parse_tree(e.expression_tree_str())
    ls = draw(t)
    if sum(leaf in l for l in ls) != 1 or sum("Variable (" in l for l in ls) != n:
        raise Violation("the tree of a call is different", got="\n".join(ls))
    ctx.mark((str(e), leaf), str(e))


def streams():
    return [Stream("text", text, 30000, 800000), Stream("abstract", abstract, 8000, 200000),
            Stream("boolean", boolean, 4000, 100000), Stream("matrix", matrix, 3000, 60000),
            Stream("tree", tree, 12000, 300000), Stream("custom", custom, 3000, 60000), Stream("functions", functions, 200, 1000)]


KNOWN = {}
