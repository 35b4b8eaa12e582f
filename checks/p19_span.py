"""P19: runtime spans address exactly the intended elements."""
# TARGETS:
import pathlib, shutil, subprocess, tempfile
import wfbuild
from wfproc import cached, run
from pbt import Reject, Violation, Stream

RULE = ("a generated C++ program over one span (or Eigen object) that compared at least 6 element "
        "addresses, dimensions or writes with the index-arithmetic model, partly under -fsanitize=address,undefined; "
        "or a rejected construction whose valid twin compiled.")
ASSUMPTIONS = ["dimensions up to 5 per axis, 1 to 4 axes, offsets within the buffer",
               "g++ -std=c++17; -O1, and -O0 with address and undefined-behaviour sanitizers"]
FLAGS = ["-std=c++17", "-w", "-ffp-contract=off", f"-I{wfbuild.REPO}/components/runtime", "-I/usr/include/eigen3"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
PRE = r"""#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <type_traits>
#include <vector>
%s
#include <wrenfold/span.h>
template <int R, int C, typename S> struct MyMat { S v[R * C]; const S* data() const noexcept { return v; }
  S* data() noexcept { return v; } };
template <typename S> struct RtVec { std::vector<S> v; std::size_t stride; };
namespace wf {
template <typename D, int R, int C, typename S> struct convert_to_span<D, MyMat<R, C, S>> {
  template <typename U> constexpr auto convert(U&& m) const noexcept {
    static_assert(constant_value_pack_axis_v<0, D> == R); static_assert(constant_value_pack_axis_v<1, D> == C);
    return make_span(m.data(), make_constant_value_pack<R, C>(), make_constant_value_pack<C, 1>()); } };
template <typename D, typename S> struct convert_to_span<D, RtVec<S>> {
  template <typename U> constexpr auto convert(U&& m) const noexcept {
    return make_span(m.v.data(), D{}, make_value_pack(dynamic{m.stride}, constant<1>{})); } };
}
template <typename T> static void P(T v) { std::printf("%%lld ", static_cast<long long>(v)); }
"""
TAIL = ("int main() {\n%s\n  return 0;\n}\n")


def pch(kind, flags):
    text = PRE % ("#define WF_SPAN_EIGEN_SUPPORT\n#include <Eigen/Core>\n#include <Eigen/Geometry>"
                  if kind == "eigen" else "")

    def make(out):
        out.mkdir(exist_ok=True)
        h = out / "pre.h"
        h.write_text(text)
        rc, msg = run(["g++", *FLAGS, *flags, "-x", "c++-header", h, "-o", out / "pre.h.gch"])
        if rc:
            raise Violation("the runtime header does not compile", error=msg[:1500])
    return cached(f"pch19-{kind}-*", kind + repr(flags) + text, make) / "pre.h"


def compile_run(kind, cases, flags):
    """-> (error or None, [output words per case])"""
    tmp = tempfile.mkdtemp(prefix="wfspan")
    try:
        src = "\n".join(f"static void f{i}() {{\n  {c.body()}\n}}" for i, c in enumerate(cases))
        main = "\n".join(f'  std::printf("@{i} "); f{i}(); std::printf("\\n"); std::fflush(stdout);'
                         for i in range(len(cases)))
        p = pathlib.Path(tmp)
        (p / "t.cc").write_text(src + "\n" + TAIL % main)
        rc, msg = run(["g++", *FLAGS, *flags, "-include", pch(kind, flags), p / "t.cc", "-o", p / "t"])
        if rc:
            return ("\n".join(l for l in msg.splitlines() if "error" in l) or msg)[:2000], []
        r = subprocess.run([str(p / "t")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=60,
                           env={"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0"})
        res = [l.split() for l in r.stdout.splitlines() if l.startswith("@")]
        done = [x[1:] for x in res]
        if r.returncode:
            e = [l for l in r.stderr.splitlines() if "ERROR" in l or "runtime error" in l]
            return "run: " + ((e or [r.stderr])[0])[:500], done
        return None, done
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ generation
TYPES = ["double", "float", "int", "std::int64_t", "short", "unsigned char"]


def packed(s, values, allow_plain=True):
    """A value_pack expression for the numbers; some axes constant, some dynamic."""
    k = s.draw(4)
    if k == 0:
        return f"wf::make_constant_value_pack<{', '.join(map(str, values))}>()", "c" * len(values)
    out, how = [], ""
    for v in values:
        q = s.draw(3)
        if k == 1:
            q = 1
        if q == 0:
            out.append(f"wf::constant<{v}>{{}}")
            how += "c"
        elif q == 1:
            out.append(f"wf::dynamic({v})")
            how += "d"
        elif q == 2:
            out.append(f"static_cast<{s.choice(['int', 'long', 'std::size_t', 'short', 'unsigned'])}>({v})")
            how += "d"
        else:
            out.append(f"wf::dynamic{{std::size_t({v})}}")
            how += "d"
    return f"wf::make_value_pack({', '.join(out)})", how


def layout(s, dims):
    """Strides such that no two indices collide, sometimes broadcasting; -> (strides, size)"""
    order = s.perm(range(len(dims)))
    st, cur = [0] * len(dims), s.int(1, 3) if s.bool(0.4) else 1
    for a in order:
        st[a] = cur
        cur = cur * dims[a] + (s.int(0, 3) if s.bool(0.4) else 0)
    if s.bool(0.15):
        st[s.draw(len(dims) - 1)] = 0
    n = 1 + sum(t * (d - 1) for t, d in zip(st, dims))
    return st, n


class View:
    def __init__(self, name, off, dims, strides, const, size):
        self.name, self.off, self.dims, self.strides, self.const, self.size = \
            name, off, list(dims), list(strides), const, size

    def at(self, idx):
        return self.off + sum(t * i for t, i in zip(self.strides, idx))

    def indices(self):
        r = [()]
        for d in self.dims:
            r = [x + (i,) for x in r for i in range(d)]
        return r


class Case:
    def __init__(self):
        self.lines, self.want, self.text = [], [], []
        self.checks = 0

    def body(self):
        return "\n  ".join(self.lines)

    def expect(self, expr, value, what):
        self.lines.append(f"P({expr});")
        self.want.append((int(value), what))
        self.checks += 1

    def show(self):
        return " ".join(self.lines)


ITYPES = ["int", "std::ptrdiff_t", "std::size_t", "short", "unsigned", "unsigned char", "long long"]


def index(s, v, itypes=ITYPES):
    t = s.choice(itypes) if v >= 0 else s.choice(["int", "std::ptrdiff_t", "short"])
    return f"{t}({v})" if " " not in t else f"static_cast<{t}>({v})"


def span_case(s, ctx):
    c = Case()
    T = s.choice(TYPES)
    nd = s.weighted([(1, 1), (3, 2), (2, 3), (1, 4)])
    itypes = [s.choice(ITYPES), "int"]
    dims = [s.int(1, 5 if nd < 3 else 3) for _ in range(nd)]
    st, need = layout(s, dims)
    pre, post = s.int(0, 3), s.int(0, 3)
    size = min(need, 110) + pre + post
    if need > 110:
        raise Reject("large")
    buf = list(range(1, size + 1))
    cb = s.bool(0.2)        # const buffer
    L = c.lines
    if s.bool(0.5):
        # heap memory ends exactly at the last reachable element
        size = need + pre
        buf = buf[:size]
        L.append(f"std::vector<{T}> b({size}); for (std::size_t i = 0; i < b.size(); ++i) b[i] = static_cast<{T}>(i + 1);")
    else:
        L.append(f"std::array<{T}, {size}> b{{}}; for (std::size_t i = 0; i < b.size(); ++i) b[i] = static_cast<{T}>(i + 1);")
    dp, dh = packed(s, dims)
    sp, sh = packed(s, st)
    L.append(f"const {T}* const base = b.data();")
    ptr = f"{'static_cast<const ' + T + '*>(b.data())' if cb else 'b.data()'} + {pre}"
    k = s.draw(2)
    if k == 0:
        L.append(f"auto s0 = wf::make_span({ptr}, {dp}, {sp});")
    elif k == 1:
        L.append(f"const auto d0 = {dp}; const auto t0 = {sp}; const auto s0 = wf::make_span({ptr}, d0, t0);")
    else:
        L.append(f"auto d0 = {dp}; auto t0 = {sp}; wf::span<{'const ' if cb else ''}{T}, decltype(d0), decltype(t0)> s0({ptr}, d0, t0);")
    if dh.count("c") == nd:
        L.append("static_assert(wf::is_constant_value_pack_v<std::decay_t<decltype(s0.dimensions())>>);")
        for a, d in enumerate(dims):
            L.append(f"static_assert(wf::constant_value_pack_axis_v<{a}, std::decay_t<decltype(s0.dimensions())>> == {d});")
    else:
        L.append("static_assert(!wf::is_constant_value_pack_v<std::decay_t<decltype(s0.dimensions())>>);")
    L.append(f"static_assert(std::decay_t<decltype(s0.strides())>::known_at_compile_time == {str(sh.count('c') == nd).lower()});")
    L.append(f"static_assert(wf::value_pack_length_v<std::decay_t<decltype(s0.strides())>> == {nd} && decltype(s0)::num_dimensions == {nd});")
    views = [View("s0", pre, dims, st, cb, dh)]

    def elem(v, idx):
        if nd == 1 and s.bool(0.4):
            return f"{v.name}[{idx[0]}]"
        return f"{v.name}({', '.join(index(s, i, itypes) for i in idx)})"

    def facts(v):
        for a in range(nd):
            if s.bool(0.6):
                c.expect(f"{v.name}.template dimension<{a}>()", v.dims[a], f"{v.name} dimension {a}")
            if s.bool(0.6):
                c.expect(f"{v.name}.template stride<{a}>()", v.strides[a], f"{v.name} stride {a}")
            if s.bool(0.3):
                c.expect(f"{v.name}.dimensions().template get<{a}>().value()", v.dims[a], f"{v.name} dims get {a}")
            if s.bool(0.3):
                c.expect(f"std::get<{a}>({v.name}.strides().values()).value()", v.strides[a], f"{v.name} strides values {a}")
        if s.bool(0.5):
            c.expect(f"{v.name}.rows()", v.dims[0], f"{v.name} rows")
        if nd >= 2 and s.bool(0.5):
            c.expect(f"{v.name}.cols()", v.dims[1], f"{v.name} cols")
        if s.bool(0.5):
            c.expect(f"{v.name}.data() - base", v.off, f"{v.name} data")
        if s.bool(0.3):
            c.expect(f"bool({v.name})", 1, f"{v.name} bool")
        L.append(f"static_assert(std::is_const_v<std::remove_reference_t<decltype({v.name}({', '.join('0' * nd)}))>> == {str(v.const).lower()});")

    def dump(v):
        ix = v.indices()
        if len(ix) > 12:
            a = s.draw(len(ix) - 6)
            ix = ix[:3] + ix[max(3, a):a + 6] + ix[-3:]
        for i in ix:
            c.expect(elem(v, i), buf[v.at(i)], f"{v.name}{i}")

    facts(views[0])
    dump(views[0])
    for n in range(s.int(1, 5)):
        v = s.choice(views)
        op = s.draw(8)
        nm = f"s{len(views)}"
        if op <= 2:
            off = [s.int(0, d - 1) for d in v.dims]
            dm = [s.int(1, d - o) for d, o in zip(v.dims, off)]
            oe, _ = packed(s, off)
            de, _ = packed(s, dm)
            L.append(f"{'const ' if s.bool() else ''}auto {nm} = {v.name}.block({oe}, {de});")
            w = View(nm, v.at(off), dm, v.strides, v.const, None)
            views.append(w)
            facts(w)
            dump(w)
            ctx.label("block")
        elif op == 3:
            L.append(f"auto {nm} = {v.name}.as_const();")
            w = View(nm, v.off, v.dims, v.strides, True, None)
            views.append(w)
            facts(w)
            dump(w)
        elif op == 4:
            L.append(f"wf::span<const {T}, std::decay_t<decltype({v.name}.dimensions())>, std::decay_t<decltype({v.name}.strides())>> {nm} = {v.name};")
            w = View(nm, v.off, v.dims, v.strides, True, None)
            views.append(w)
            facts(w)
            dump(w)
        elif op == 5:
            # conversion used by generated functions: dimensions have to agree exactly
            D = f"std::decay_t<decltype({v.name}.dimensions())>"
            kind = s.choice(["make_input_span"] + ([] if v.const else ["make_output_span", "make_optional_output_span"]))
            q = f"q{nm}"
            L.append(f"auto {q} = {v.name}; auto {nm} = wf::{kind}<{D}>({q});")
            w = View(nm, v.off, v.dims, v.strides, v.const, None)
            views.append(w)
            facts(w)
            dump(w)
            ctx.label(kind)
        elif op == 6:
            i = [s.int(0, d - 1) for d in v.dims]
            # addresses relative to a block may lie before its origin
            if s.bool(0.3) and v is not views[0] and 0 not in v.strides:
                a = s.draw(nd - 1)
                if v.off - v.strides[a] * (i[a] + 1) >= 0:
                    i[a] = -1 if i[a] == 0 else i[a]
            if 0 <= v.at(i) < size:
                c.expect(f"{v.name}.compute_index({', '.join(index(s, x, itypes) for x in i)})",
                         v.at(i) - v.off, f"{v.name} compute_index{i}")
                c.expect(f"&{v.name}({', '.join(index(s, x, itypes) for x in i)}) - base", v.at(i), f"&{v.name}{i}")
        else:
            if v.const:
                continue
            for m in range(s.int(1, 4)):
                i = [s.int(0, d - 1) for d in v.dims]
                val = s.int(101, 120)
                L.append(f"{elem(v, i)} = static_cast<{T}>({val});")
                buf[v.at(i)] = val
            ctx.label("write")
            for i in range(size):
                c.expect(f"base[{i}]", buf[i], f"buffer[{i}] after writing through {v.name}")
    return c


def array_case(s, ctx):
    """make_array_span, null spans, value packs and user-defined conversions."""
    c = Case()
    L = c.lines
    T = s.choice(TYPES)
    n = s.int(1, 9)
    k = s.draw(6)
    vals = [s.int(1, 120) for _ in range(n)]
    init = ", ".join(f"static_cast<{T}>({v})" for v in vals)
    const = "const " if s.bool() else ""
    if k <= 2:
        decl = [f"{const}std::vector<{T}> b{{{init}}};", f"{const}std::array<{T}, {n}> b{{{init}}};",
                f"{const}{T} b[{n}] = {{{init}}};"][k]
        if k == 0 and n == 1:
            decl = f"{const}std::vector<{T}> b(1, {init});"
        L.append(decl + " auto s = wf::make_array_span(b);")
        c.expect("s.rows()", n, "rows")
        c.expect("s.template stride<0>()", 1, "stride")
        c.expect("s.data() - &b[0]", 0, "data")
        L.append(f"static_assert(std::is_const_v<std::remove_reference_t<decltype(s[0])>> == {str(bool(const)).lower()});")
        if k == 2:
            L.append(f"static_assert(std::is_same_v<std::decay_t<decltype(s.dimensions())>, wf::constant_value_pack<{n}>>);")
        for i, v in enumerate(vals):
            c.expect(f"s[{i}]", v, f"s[{i}]")
        if not const:
            i = s.draw(n - 1)
            L.append(f"s({index(s, i)}) = static_cast<{T}>(77);")
            vals[i] = 77
            for i, v in enumerate(vals):
                c.expect(f"b[{i}]", v, f"b[{i}]")
        ctx.label("array")
    elif k == 3:
        nd = s.int(1, 4)
        dims = [s.int(1, 5) for _ in range(nd)]
        D = "wf::constant_value_pack<" + ", ".join(map(str, dims)) + ">"
        q = s.draw(1)
        if q == 0:
            L.append(f"auto s = wf::make_always_null_span<{D}>();")
        else:
            L.append(f"auto z = nullptr; auto s = wf::make_optional_output_span<{D}>(z);")
        c.expect("bool(s)", 0, "null span is false")
        L.append(f"static_assert(std::is_same_v<std::decay_t<decltype(s.dimensions())>, {D}>);")
        for a in range(nd):
            c.expect(f"s.template dimension<{a}>()", dims[a], f"dimension {a}")
            c.expect(f"s.template stride<{a}>()", 0, f"stride {a}")
        c.expect("s.rows()", dims[0], "rows")
        if nd > 1:
            c.expect("s.cols()", dims[1], "cols")
        # the assignments of a generated function have to compile
        L.append(f"if (s) {{ s({', '.join('0' * nd)}) = 3.0; }}")
        ctx.label("null")
    elif k == 4:
        nv = s.int(1, 5)
        vs = [s.int(0, 2 ** 40) if s.bool(0.2) else s.int(0, 9) for _ in range(nv)]
        e, how = packed(s, [v if v < 2 ** 15 else v for v in vs]) if max(vs) < 2 ** 15 else \
            (f"wf::make_value_pack({', '.join(s.choice([f'wf::constant<{v}ull>()', f'wf::dynamic({v}ull)', f'std::size_t({v}ull)']) for v in vs)})", None)
        L.append(f"const auto p = {e}; auto q = p; auto z = decltype(q)::zero_initialized();")
        L.append(f"static_assert(decltype(q)::length == {nv} && wf::is_value_pack_v<decltype(q)> && !wf::is_value_pack_v<int>);")
        for i, v in enumerate(vs):
            c.expect(f"p.template get<{i}>().value()", v, f"get<{i}>")
            c.expect(f"std::get<{i}>(q.values()).value()", v, f"values {i}")
            if how:
                c.expect(f"z.template get<{i}>().value()", v if how[i] == "c" else 0, f"zero_initialized {i}")
        ctx.label("pack")
    else:
        r, cc = s.int(1, 4), s.int(1, 4)
        vals = [s.int(1, 120) for _ in range(r * cc)]
        init = ", ".join(f"static_cast<{T}>({v})" for v in vals)
        which = s.bool()
        pad = 0
        if which:
            L.append(f"{const}MyMat<{r}, {cc}, {T}> m{{{{{init}}}}};")
        else:
            pad = s.int(0, 2)
            st = cc + pad
            L.append(f"RtVec<{T}> m0{{std::vector<{T}>({r * st}, static_cast<{T}>(99)), {st}}};")
            for i in range(r):
                for j in range(cc):
                    L.append(f"m0.v[{i * st + j}] = static_cast<{T}>({vals[i * cc + j]});")
            L.append(f"{const}auto& m = m0;")
        form = s.draw(1)
        D = f"{r}, {cc}" if form else f"wf::constant_value_pack<{r}, {cc}>"
        inp = bool(const) or s.bool()
        kind = "make_input_span" if inp else s.choice(["make_output_span", "make_optional_output_span"])
        L.append(f"auto s = wf::{kind}<{D}>(m);")
        L.append(f"static_assert(std::is_const_v<std::remove_reference_t<decltype(s(0, 0))>> == {str(inp).lower()});")
        c.expect("s.rows()", r, "rows")
        c.expect("s.cols()", cc, "cols")
        if not inp:
            i, j = s.draw(r - 1), s.draw(cc - 1)
            L.append(f"s({i}, {j}) = static_cast<{T}>(55);")
            vals[i * cc + j] = 55
        for i in range(r):
            for j in range(cc):
                c.expect(f"s({index(s, i)}, {index(s, j)})", vals[i * cc + j], f"s({i}, {j})")
                st = cc + pad
                c.expect(f"m.v[{i * st + j}]", vals[i * cc + j], f"m[{i}, {j}]")
        ctx.label("user type")
    return c


def constexpr_case(s, ctx):
    """The same arithmetic evaluated by the compiler, where any out-of-bounds access is an error."""
    c = Case()
    L = c.lines
    nd = s.int(1, 3)
    dims = [s.int(1, 4) for _ in range(nd)]
    st, need = layout(s, dims)
    if need > 90:
        raise Reject("large")
    pre = s.int(0, 2)
    L.append(f"static constexpr int b[{need + pre}] = {{{', '.join(str(i + 1) for i in range(need + pre))}}};")
    L.append(f"constexpr auto s = wf::make_span(&b[{pre}], {packed(s, dims)[0]}, {packed(s, st)[0]});")
    v = View("s", pre, dims, st, True, None)
    vs = [v]
    for n in range(s.int(0, 2)):
        o = [s.int(0, d - 1) for d in v.dims]
        dm = [s.int(1, d - x) for d, x in zip(v.dims, o)]
        nm = f"t{n}"
        L.append(f"constexpr auto {nm} = {v.name}.block({packed(s, o)[0]}, {packed(s, dm)[0]});")
        v = View(nm, v.at(o), dm, v.strides, True, None)
        vs.append(v)
    for v in vs:
        for i in v.indices()[:12]:
            c.checks += 1
            L.append(f"static_assert({v.name}({', '.join(map(str, i))}) == {v.at(i) + 1});")
        for a in range(nd):
            L.append(f"static_assert({v.name}.template dimension<{a}>() == {v.dims[a]} && {v.name}.template stride<{a}>() == {v.strides[a]});")
    c.expect("1", 1, "compiled")
    ctx.label("constexpr")
    return c


def eigen_object(s, c, r, cc, S):
    """Declares an Eigen object `x`; -> (function (i, j) -> index into `base`, buffer length, quaternion?)"""
    L = c.lines
    k = s.draw(9)
    vec = r == 1 or cc == 1

    def order(rows, cols):
        return "RowMajor" if rows == 1 and cols > 1 else "ColMajor" if cols == 1 else \
            s.choice(["ColMajor", "RowMajor"])
    o = order(r, cc)
    rm = o == "RowMajor"
    if k == 0:
        L.append(f"Eigen::Matrix<{S}, {r}, {cc}, Eigen::{o}> m; {S}* const base = m.data(); auto& x = m;")
        return (lambda i, j: i * cc + j if rm else i + j * r), r * cc
    if k in (1, 2):
        R, C = r + s.int(0, 2), cc + s.int(0, 2)
        a, b = s.int(0, R - r), s.int(0, C - cc)
        o = order(R, C)
        rm = o == "RowMajor"
        if k == 1:
            L.append(f"Eigen::Matrix<{S}, {R}, {C}, Eigen::{o}> m;")
        else:
            L.append(f"Eigen::Matrix<{S}, Eigen::Dynamic, Eigen::Dynamic, Eigen::{s.choice(['RowMajor', 'ColMajor']) if not (R == 1 or C == 1) else o}> m({R}, {C});")
            rm = "RowMajor" in L[-1]
        L.append(f"{S}* const base = m.data(); auto x = m.template block<{r}, {cc}>({a}, {b});")
        return (lambda i, j: (i + a) * C + j + b if rm else (i + a) + (j + b) * R), R * C
    if k == 3:
        o2 = order(cc, r)
        rm2 = o2 == "RowMajor"
        L.append(f"Eigen::Matrix<{S}, {cc}, {r}, Eigen::{o2}> m; {S}* const base = m.data(); auto x = m.transpose();")
        return (lambda i, j: j * r + i if rm2 else j + i * cc), r * cc
    if k in (4, 5, 6):
        # maps with inner and outer strides, static or dynamic; Stride<Outer, Inner>
        inner = s.int(1, 3)
        n_in = cc if rm else r
        outer = n_in * inner + s.int(0, 3)
        n_out = r if rm else cc
        if k == 4:
            t = f"Eigen::Stride<{outer}, {inner}>"
            ctor = ""
        elif k == 5:
            t = "Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>"
            ctor = f", {t}({outer}, {inner})"
        else:
            q = s.draw(2)
            if q == 0:
                t, ctor = f"Eigen::Stride<Eigen::Dynamic, {inner}>", None
                ctor = f", {t}({outer}, {inner})"
            elif q == 1:
                inner = 1
                outer = n_in + s.int(0, 3)
                t = "Eigen::OuterStride<>"
                ctor = f", {t}({outer})"
            else:
                outer = None
                t = "Eigen::InnerStride<>"
                ctor = f", {t}({inner})"
                if not vec:
                    outer = n_in * inner      # Eigen derives the outer stride from the inner one
        if vec:
            n = 1 + (r * cc - 1) * inner
            f = lambda i, j: (i + j) * inner
        else:
            n = 1 + (n_out - 1) * outer + (n_in - 1) * inner
            f = lambda i, j: i * outer + j * inner if rm else i * inner + j * outer
        L.append(f"std::vector<{S}> buf({n}); {S}* const base = buf.data(); "
                 f"Eigen::Map<Eigen::Matrix<{S}, {r}, {cc}, Eigen::{o}>, 0, {t}> x(base{ctor});")
        return f, n
    if k == 7 and vec:
        # row or column of a matrix, segment of a vector
        n = r * cc
        R, C = (s.int(1, 3), n) if r == 1 else (n, s.int(1, 3))
        o = order(R, C)
        if R == 1 and C == 1:
            o = "ColMajor"
        rm = o == "RowMajor"
        w = s.draw((R if r == 1 else C) - 1)
        acc = f"row({w})" if r == 1 else f"col({w})"
        L.append(f"Eigen::Matrix<{S}, {R}, {C}, Eigen::{o}> m; {S}* const base = m.data(); auto x = m.{acc};")
        g = (lambda i, j: (w, j)) if r == 1 else (lambda i, j: (i, w))
        return (lambda i, j: g(i, j)[0] * C + g(i, j)[1] if rm else g(i, j)[0] + g(i, j)[1] * R), R * C
    if k == 8:
        R, C = r + s.int(0, 1), cc + s.int(0, 1)
        o = order(R, C)
        rm = o == "RowMajor"
        a, b = s.int(0, R - r), s.int(0, C - cc)
        # nested blocks and transposes
        L.append(f"Eigen::Matrix<{S}, {R}, {C}, Eigen::{o}> m; {S}* const base = m.data(); auto y = m.transpose(); "
                 f"auto z = y.template block<{cc}, {r}>({b}, {a}); auto x = z.transpose();")
        return (lambda i, j: (i + a) * C + j + b if rm else (i + a) + (j + b) * R), R * C
    L.append(f"Eigen::Matrix<{S}, {r}, {cc}, Eigen::{o}> m; {S}* const base = m.data(); "
             f"Eigen::Ref<Eigen::Matrix<{S}, {r}, {cc}, Eigen::{o}>> x(m);")
    rm = o == "RowMajor"
    return (lambda i, j: i * cc + j if rm else i + j * r), r * cc


def eigen_case(s, ctx):
    c = Case()
    L = c.lines
    S = s.choice(["double", "float", "int"])
    if s.bool(0.12):
        S = s.choice(["double", "float"])
        r, cc, n = 4, 1, 4
        f = lambda i, j: i
        if s.bool():
            L.append(f"Eigen::Quaternion<{S}> x(1, 2, 3, 4); {S}* const base = x.coeffs().data();")
        else:
            L.append(f"{S} buf[4]; {S}* const base = buf; Eigen::Map<Eigen::Quaternion<{S}>> x(buf);")
        quat = True
    else:
        r, cc = s.int(1, 4), s.int(1, 4)
        f, n = eigen_object(s, c, r, cc, S)
        quat = False
    buf = [(7 * i) % 101 + 1 for i in range(n)]
    L.append(f"for (int i = 0; i < {n}; ++i) base[i] = static_cast<{S}>((7 * i) % 101 + 1);")
    D = f"{r}, {cc}" if s.bool() else f"wf::constant_value_pack<{r}, {cc}>"
    kind = s.choice(["make_input_span", "make_output_span", "make_optional_output_span"])
    L.append(f"auto s = wf::{kind}<{D}>(x);")
    if kind == "make_input_span":
        L.append("static_assert(std::is_const_v<std::remove_reference_t<decltype(s(0, 0))>>);")
    c.expect("s.rows()", r, "rows")
    c.expect("s.cols()", cc, "cols")
    L.append(f"static_assert(std::is_same_v<std::decay_t<decltype(s.dimensions())>, wf::constant_value_pack<{r}, {cc}>>);")
    for i in range(r):
        for j in range(cc):
            c.expect(f"s({i}, {j})", buf[f(i, j)], f"s({i}, {j})")
            c.expect(f"&s({i}, {j}) - base", f(i, j), f"&s({i}, {j})")
            if not quat:
                c.expect(f"x({i}, {j})", buf[f(i, j)], f"x({i}, {j}) (model)")
    if quat:
        for i, q in enumerate("xyzw"):
            c.expect(f"x.{q}()", buf[i], f"x.{q}() (model)")
    if kind != "make_input_span":
        for m in range(s.int(1, 4)):
            i, j = s.draw(r - 1), s.draw(cc - 1)
            v = s.int(200, 250)
            L.append(f"s({i}, {j}) = {S}({v});")
            buf[f(i, j)] = v
        for i in range(n):
            c.expect(f"base[{i}]", buf[i], f"buffer[{i}]")
    ctx.label("eigen " + kind)
    return c


def run_batch(kind, gen, flags, lo=1, hi=40):
    def fn(s, ctx):
        head = list(s.rec)
        n = max(s.int(lo, hi), s.int(lo, hi))
        cases = []
        for _ in range(n):
            a = len(s.rec)
            try:
                c = gen(s, ctx)
                c.slice = (a, len(s.rec))
                cases.append(c)
            except Reject as e:
                ctx.label("reject " + str(e))
        if not cases:
            raise Reject("nothing")

        def fail(c, msg, **kw):
            v = Violation(msg, program=c.show()[:3000], **kw)
            v.hint = head + [0, 0] + s.rec[c.slice[0]:c.slice[1]]
            return v

        err, outs = compile_run(kind, cases, flags)
        if err and not err.startswith("run: "):
            for c in cases:
                e, _ = compile_run(kind, [c], flags)
                if e and not e.startswith("run: "):
                    raise fail(c, "valid use of spans does not compile", error=e[:1200])
            raise RuntimeError("programs do not compile together: " + err)
        for c, o in zip(cases, outs):
            if len(o) != len(c.want) and err:
                raise fail(c, "sanitizer report or crash", error=err)
            for got, (want, what) in zip(o, c.want):
                if int(got) != want:
                    raise fail(c, "span addresses the wrong element or reports the wrong size",
                               what=what, got=got, want=want)
            if len(o) != len(c.want):
                raise fail(c, "output truncated", got=len(o), want=len(c.want))
        if err:
            raise fail(cases[min(len(outs), len(cases) - 1)], "sanitizer report or crash", error=err)
        ctx.units = len(cases)
        for c in cases:
            if c.checks >= 6:
                ctx.mark(c.show(), c.show()[:300])
    return fn


# ------------------------------------------------------------------ rejected constructions
def bad_case(s, ctx):
    """-> (valid statement, invalid statement, name)"""
    nd = s.int(1, 3)
    dims = [s.int(1, 4) for _ in range(nd)]
    cv = lambda v: f"wf::make_constant_value_pack<{', '.join(map(str, v))}>()"
    D = lambda v: f"wf::constant_value_pack<{', '.join(map(str, v))}>"
    sp = f"double b[300] = {{}}; auto s = wf::make_span(b, {cv(dims)}, {cv([1] * nd)}); "
    ix = ", ".join("0" * nd)
    r, c = s.int(1, 4), s.int(1, 4)
    r2, c2 = (r + s.int(1, 2), c) if s.bool() else (r, c + s.int(1, 2))
    k = s.draw(14)
    good, bad = [
        (sp, f"double b[9]; auto s = wf::make_span(b, {cv(dims)}, {cv([1] * (nd + s.choice([-1, 1]) or nd + 2))});", ),
        (sp + f"s({ix}) = 1;", sp + f"s({ix}, 0) = 1;"),
        (sp + f"s({ix}) = 1;", sp + f"s({', '.join('0' * (nd - 1))}) = 1;"),
        (sp + f"(void)s.as_const()({ix});", sp + f"s.as_const()({ix}) = 1;"),
        (sp + f"wf::span<const double, {D(dims)}, {D([1] * nd)}> q = s;",
         sp + f"auto q = s.as_const(); wf::span<double, {D(dims)}, {D([1] * nd)}> t = q;"),
        (sp + f"s.template dimension<{nd - 1}>();", sp + f"s.template dimension<{nd}>();"),
        (sp + f"s.template stride<{nd - 1}>();", sp + f"s.template stride<{nd + 1}>();"),
        (sp + f"s.block({cv([0] * nd)}, {cv([1] * nd)});", sp + f"s.block({cv([0] * (nd + 1))}, {cv([1] * nd)});"),
        (sp + f"s.block({cv([0] * nd)}, {cv([1] * nd)});", sp + f"s.block({cv([0] * nd)}, {cv([1] * (nd + 1))});"),
        (sp + f"wf::make_input_span<{D(dims)}>(s);",
         sp + f"wf::make_input_span<{D([d + (i == 0) for i, d in enumerate(dims)])}>(s);"),
        (sp + f"wf::make_output_span<{D(dims)}>(s);",
         f"double b[30]; auto s = wf::make_span(b, wf::make_value_pack({', '.join(f'wf::dynamic({d})' for d in dims)}), {cv([1] * nd)}); wf::make_output_span<{D(dims)}>(s);"),
        (f"auto z = nullptr; wf::make_optional_output_span<{D(dims)}>(z);",
         f"auto z = nullptr; wf::make_output_span<{D(dims)}>(z);"),
        (f"auto z = nullptr; wf::make_optional_output_span<{D(dims)}>(z);",
         f"auto z = nullptr; wf::make_input_span<{D(dims)}>(z);"),
        (f"Eigen::Matrix<double, {r}, {c}> m; wf::make_input_span<{r}, {c}>(m);",
         f"Eigen::Matrix<double, {r2}, {c2}> m; wf::make_input_span<{r}, {c}>(m);"),
        (f"Eigen::Matrix<double, {r}, {c}> m; wf::make_output_span<{r}, {c}>(m);",
         s.choice([f"Eigen::MatrixXd m({r}, {c}); wf::make_output_span<{r}, {c}>(m);",
                   f"struct A {{}} m; wf::make_output_span<{r}, {c}>(m);",
                   f"Eigen::Matrix<double, {r}, {c}> m; auto s = wf::make_input_span<{r}, {c}>(m); s(0, 0) = 2.0;"])),
    ][k]
    return good, bad, k


def reject(s, ctx):
    good, bad, k = bad_case(s, ctx)
    h = pch("eigen", [])
    for text, ok in ((good, True), (bad, False)):
        tmp = tempfile.mkdtemp(prefix="wfspan")
        try:
            p = pathlib.Path(tmp) / "t.cc"
            p.write_text("void f() { " + text + " }\n")
            rc, msg = run(["g++", *FLAGS, "-include", h, "-fsyntax-only", p])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if ok and rc:
            raise Violation("valid use of spans does not compile", program=text, error=msg[:1200])
        if not ok and not rc:
            raise Violation("invalid use of spans compiles", program=text)
    ctx.label(f"reject kind {k}")
    ctx.mark((good, bad), bad)


def streams():
    S0, S1, A = [*SAN, "-O0"], ["-O1"], ["-fsanitize=address", "-O0"]
    return [Stream("span", run_batch("plain", span_case, S1), 120, 3000),
            Stream("sanitized", run_batch("plain", span_case, S0, hi=16), 40, 1000),
            Stream("objects", run_batch("plain", array_case, A), 24, 600),
            Stream("constexpr", run_batch("plain", constexpr_case, S1), 24, 600),
            Stream("eigen", run_batch("eigen", eigen_case, A, hi=24), 48, 1500),
            Stream("reject", reject, 160, 3000)]


KNOWN = {}
