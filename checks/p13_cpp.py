"""P13: generated C++ computes the symbolic function."""
import pathlib
import wfbuild, wfnative
from wfcode import gen_literals, gen_spec, build, as_function
from wfnative import Native, batch, bind, cached, run, points
from p16_transpile import params
from pbt import Reject, Violation, Stream
from wrenfold import sym, code_generation as cg

RULE = ("a function of >= 8 expression nodes whose generated C++ was compiled by g++ and every present "
        "output compared at >= 1 point.")
ASSUMPTIONS = ["tolerance measured by disturbing every operation of the reference; points near "
               "discontinuities or poles are not compared",
               "intermediate integers stay within 50 bits (24 bits with a float scalar)",
               "compiled with g++ -O0/-O2 -std=c++17, no -ffast-math"]
EIGEN, SPAN = cg.CppMatrixTypeBehavior.Eigen, cg.CppMatrixTypeBehavior.GenericSpan
FLAGS = ["-std=c++17", "-fPIC", "-ffp-contract=off", "-w", f"-I{wfbuild.REPO}/components/runtime",
         "-I/usr/include/eigen3"]
HEAD = {"span": "#include <cmath>\n#include <cstdint>\n#include <type_traits>\n#include <wrenfold/span.h>\n",
        "eigen": "#define WF_SPAN_EIGEN_SUPPORT\n#include <cmath>\n#include <cstdint>\n"
                 "#include <type_traits>\n#include <wrenfold/span.h>\n#include <Eigen/Core>\n"}


def pch(kind, opt):
    def make(out):
        out.mkdir(exist_ok=True)
        h = out / "pre.h"
        h.write_text("#pragma once\n" + HEAD[kind])
        rc, msg = run(["g++", *FLAGS, opt, "-x", "c++-header", h, "-o", out / "pre.h.gch"])
        if rc:
            raise RuntimeError(msg)
    return cached(f"pch-{kind}{opt}-*", kind + opt + HEAD[kind], make) / "pre.h"


def compiler(kind, opt):
    def compile_(funs, tmp):
        p = pch(kind, opt)
        src = "\n".join(f"namespace F{i} {{\n{f.code}\n}}\n{f.wrapper.replace('@', str(i))}"
                        for i, f in enumerate(funs))
        c = pathlib.Path(tmp) / "gen.cc"
        c.write_text(src)
        so = pathlib.Path(tmp) / "gen.so"
        rc, msg = run(["g++", *FLAGS, opt, "-include", p, "-shared", c, "-o", so])
        if rc:
            return None, "\n".join(l for l in msg.splitlines() if "error" in l)[:3000] or msg
        return bind(so, range(len(funs))), None
    return compile_


def span_expr(s, r, c, var, const):
    """-> (buffer size, span expression over pointer `var`, index function)"""
    k = s.draw(4)
    if k == 0:
        st, f, n = f"wf::make_constant_value_pack<{c}, 1>()", (lambda i, j: i * c + j), r * c
    elif k == 1:
        st, f, n = f"wf::make_constant_value_pack<1, {r}>()", (lambda i, j: i + j * r), r * c
    elif k == 2:
        cs = s.int(1, 3)
        rs = c * cs + s.int(0, 3)
        st, f, n = f"wf::make_value_pack({rs}, {cs})", (lambda i, j: i * rs + j * cs), r * rs + 2
    elif k == 3:
        rs = s.int(1, 3)
        cs = r * rs + s.int(0, 3)
        st, f, n = f"wf::make_value_pack(wf::constant<{rs}>{{}}, wf::dynamic({cs}))", \
            (lambda i, j: i * rs + j * cs), c * cs + 2
    else:
        # an Nx1 / 1xN buffer seen as a reversed-stride constant pack
        st, f, n = f"wf::make_constant_value_pack<{2 * c}, 2>()", (lambda i, j: i * 2 * c + 2 * j), \
            2 * r * c
    return n, f"wf::make_span({var}, wf::make_constant_value_pack<{r}, {c}>(), {st})", f


def eigen_in(s, a, S):
    """-> (declaration lines, expression, [(row, col) -> assignable])"""
    n = a.name
    k = s.draw(4)
    if k == 0:
        return [f"Eigen::Matrix<{S}, {a.rows}, {a.cols}> m_{n};"], f"m_{n}", lambda i, j: f"m_{n}({i}, {j})"
    if k == 1 and a.cols > 1 and a.rows > 1:
        return [f"Eigen::Matrix<{S}, {a.rows}, {a.cols}, Eigen::RowMajor> m_{n};"], f"m_{n}", \
            lambda i, j: f"m_{n}({i}, {j})"
    if k == 2:
        return [f"Eigen::Matrix<{S}, {a.rows + 2}, {a.cols + 1}> m_{n}; m_{n}.setConstant({S}(777));"], \
            f"m_{n}.template block<{a.rows}, {a.cols}>(1, 1)", lambda i, j: f"m_{n}({i + 1}, {j + 1})"
    if k == 3:
        return [f"{S} b_{n}[{3 * a.rows * a.cols + 8}];",
                f"Eigen::Map<Eigen::Matrix<{S}, {a.rows}, {a.cols}>, 0, Eigen::Stride<Eigen::Dynamic, "
                f"Eigen::Dynamic>> m_{n}(b_{n}, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>"
                f"({2 * a.rows + 1}, 2));"], f"m_{n}", lambda i, j: f"m_{n}({i}, {j})"
    return [f"Eigen::Matrix<{S}, {a.cols}, {a.rows}> t_{n};"], f"t_{n}.transpose()", \
        lambda i, j: f"t_{n}({j}, {i})"


def wrapper(s, spec, mode, S, guard=True):
    pre, post, args = [], [], []
    k = 0
    for a in spec.args:
        if a.kind == "m":
            if mode == "span":
                n, e, f = span_expr(s, a.rows, a.cols, f"p_{a.name}", True)
                pre.append(f"{S} p_{a.name}[{n}]; for (auto& q : p_{a.name}) q = {S}(777);")
                idx = [f"p_{a.name}[{f(i, j)}]" for i in range(a.rows) for j in range(a.cols)]
                q = s.draw(2)
                if q == 0:
                    args.append(e)
                elif q == 1:
                    args.append(e + ".as_const()")
                else:
                    pre.append(f"const auto s_{a.name} = {e};")
                    args.append(f"s_{a.name}")
            elif mode == "eigen":
                pre.append(f"Eigen::Matrix<{S}, {a.rows}, {a.cols}> m_{a.name};")
                idx = [f"m_{a.name}({i}, {j})" for i in range(a.rows) for j in range(a.cols)]
                args.append(f"m_{a.name}")
            else:
                d, e, f = eigen_in(s, a, S)
                pre += d
                idx = [f(i, j) for i in range(a.rows) for j in range(a.cols)]
                args.append(e)
            for x in idx:
                pre.append(f"{x} = static_cast<{S}>(in[{k}]);")
                k += 1
        else:
            args.append({"f": f"static_cast<{S}>(in[{k}])", "i": f"static_cast<std::int64_t>(in[{k}])",
                         "b": f"(in[{k}] != 0)"}[a.kind])
            k += 1
    k = nopt = 0
    ret = None
    alt = None          # (argument index, replacement, flag): literal nullptr
    for o in spec.outs:
        n = len(o.trees)
        if o.name is None:
            ret = (o, k)
            k += n
            continue
        flag = None
        if o.optional:
            flag = f"present[{nopt}]"
            nopt += 1
        nm = "o_" + o.name
        if o.shape is None:
            pre.append(f"{S} {nm} = {S}({wfnative.SENTINEL!r});")
            args.append(f"({flag} ? &{nm} : nullptr)" if flag else nm)
            vals = [nm]
        else:
            r, c = o.shape
            if mode == "span":
                sz, e, f = span_expr(s, r, c, f"({flag} ? {nm} + 3 : nullptr)" if flag else f"{nm} + 3",
                                     False)
                pre.append(f"{S} {nm}[{sz + 6}]; for (auto& q : {nm}) q = {S}(777);")
                ids = [f(i, j) for i in range(r) for j in range(c)]
                pre += [f"{nm}[{i + 3}] = {S}({wfnative.SENTINEL!r});" for i in ids]
                vals = [f"{nm}[{i + 3}]" for i in ids]
                for i in range(sz + 6):
                    if i - 3 not in ids:
                        post.append(f"if ({nm}[{i}] != {S}(777)) bad = {i + 1};")
                if flag and alt is None and s.bool(0.5):
                    alt = (len(args), "nullptr", flag)
                if s.bool(0.3):
                    pre.append(f"auto s_{nm} = {e};")
                    args.append(f"s_{nm}")
                else:
                    args.append(e)
            elif mode == "eigen":
                pre.append(f"Eigen::Matrix<{S}, {r}, {c}> {nm}; {nm}.setConstant({S}({wfnative.SENTINEL!r}));")
                args.append(f"({flag} ? &{nm} : nullptr)" if flag else nm)
                vals = [f"{nm}({i}, {j})" for i in range(r) for j in range(c)]
            else:
                if flag:
                    # a map over a null pointer denotes an absent output
                    order = "RowMajor" if r == 1 else "ColMajor"
                    pre.append(f"Eigen::Matrix<{S}, {r}, {c}, Eigen::{order}> {nm}; "
                               f"{nm}.setConstant({S}({wfnative.SENTINEL!r}));")
                    args.append(f"Eigen::Map<Eigen::Matrix<{S}, {r}, {c}, Eigen::{order}>>"
                                f"({flag} ? {nm}.data() : nullptr)")
                    vals = [f"{nm}({i}, {j})" for i in range(r) for j in range(c)]
                    if alt is None and s.bool(0.5):
                        alt = (len(args) - 1, "nullptr", flag)
                else:
                    d, e, f = eigen_in(s, type("A", (), dict(name=nm, rows=r, cols=c)), S)
                    pre += d
                    vals = [f(i, j) for i in range(r) for j in range(c)]
                    pre += [f"{v} = {S}({wfnative.SENTINEL!r});" for v in vals]
                    args.append(e)
        for v in vals:
            tgt = f"out[{k}] = {v} == {S}({wfnative.SENTINEL!r}) ? {wfnative.SENTINEL!r} : static_cast<double>({v});"
            post.append(tgt)
            k += 1

    def call(al):
        r = f"F@::{spec.name}<{S}>({', '.join(al)})"
        if ret is None:
            return r + ";"
        o, kk = ret
        if o.shape is None:
            return (f"{{ const auto r = {r}; static_assert(std::is_same_v<std::decay_t<decltype(r)>, {S}>); "
                    f"out[{kk}] = static_cast<double>(r); }}")
        rr, c = o.shape
        return (f"{{ const auto r = {r}; static_assert(std::is_same_v<std::decay_t<decltype(r)>, "
                f"Eigen::Matrix<{S}, {rr}, {c}>>); " +
                " ".join(f"out[{kk + i * c + j}] = static_cast<double>(r({i}, {j}));"
                         for i in range(rr) for j in range(c)) + " }")

    if alt:
        al = list(args)
        al[alt[0]] = alt[1]
        body = f"if (!{alt[2]}) {call(al)} else {call(args)}"
    else:
        body = call(args)
    return ("extern \"C\" int call_@(const double* in, double* out, const unsigned char* present) {\n  "
            "int bad = 0;\n  " + "\n  ".join(pre) + "\n  " + body + "\n  " + "\n  ".join(post) +
            "\n  return bad;\n}\n")


def one(mode, ctx, npts):
    def f(s, i):
        spec = gen_spec(s, ints=True, ret=None, wide=True)
        if mode != "eigen":
            for o in spec.outs:
                if o.name is None and o.shape is not None:
                    o.name = "outr"     # matrices can only be returned with Eigen types
        f32 = s.bool(0.25)
        b = build(spec)
        pts = points(s, ctx, b, spec, f32, npts)
        S = "float" if f32 else "double"
        gen = cg.CppGenerator(EIGEN if mode == "eigen" else SPAN)
        as_fn = s.bool(0.25) and all(a.kind != "b" for a in spec.args)
        if as_fn:
            ct = s.bool()
            code = cg.generate_function(as_function(spec), gen, convert_ternaries=ct)
            how = f"generate_function convert={ct}"
        else:
            p, lab = params(s)
            ct = s.bool()
            code = gen.generate(cg.transpile(b.desc, p, ct))
            how = lab + f" convert={ct}"
        if s.bool(0.2):
            code = gen.apply_preamble(code, namespace="gen_ns") + f"\nusing gen_ns::{spec.name};"
        return Native(spec, b, code, wrapper(s, spec, mode, S), pts, f"{mode} {S} {how}", f32)
    return f


def case(mode, hi):
    def fn(src, ctx):
        opt = src.choice(["-O0", "-O0", "-O2"]) if mode == "span" else "-O0"
        batch(src, ctx, one(mode, ctx, 4), compiler("span" if mode == "span" else "eigen", opt), hi)
    fn.__name__ = mode
    return fn


def literal(mode):
    def f(s, i):
        f32 = s.bool(0.2)
        spec, env, want = gen_literals(s, f32=f32)
        S = "float" if f32 else "double"
        gen = cg.CppGenerator(EIGEN if mode == "eigen" else SPAN)
        b = build(spec)
        p, lab = params(s)
        code = gen.generate(cg.transpile(b.desc, p, True))
        return Native(spec, b, code, wrapper(s, spec, mode, S), [(env, want)], f"literals {S} {lab}", f32)
    return f


def literals(src, ctx):
    """Constants reach the compiled function exactly."""
    mode = src.choice(["span", "eigen"])
    batch(src, ctx, literal(mode), compiler(mode, "-O0"), 60)


def streams():
    return [Stream("literals", literals, 30, 800), Stream("span", case("span", 28), 150, 4000), Stream("eigen", case("eigen", 18), 48, 1500),
            Stream("eigenspan", case("eigenspan", 18), 48, 1500)]


KNOWN = {}
