"""P15: generated Rust computes the symbolic function."""
import pathlib
import wfbuild, wfnative
from wfcode import gen_literals, gen_spec, build, as_function
from wfnative import Native, batch, bind, cached, run, points
from p16_transpile import params
from pbt import Reject, Violation, Stream
from wrenfold import sym, code_generation as cg

RULE = ("a function of >= 8 expression nodes whose generated Rust was compiled by rustc and every "
        "present output compared at >= 1 point.")
ASSUMPTIONS = ["tolerance measured by disturbing every operation of the reference; points near "
               "discontinuities or poles are not compared",
               "intermediate integers stay within 50 bits",
               "matrices are passed through the wrenfold-traits span traits (nalgebra is not available "
               "offline, so its trait implementations are not exercised)"]
SUPPORT = """
pub struct M<const R: usize, const C: usize> { pub v: Vec<f64>, pub rs: usize, pub cs: usize, pub off: usize, pub oob: bool }
impl<const R: usize, const C: usize> M<R, C> {
  pub fn new(n: usize, rs: usize, cs: usize, off: usize) -> Self { M { v: vec![777.0; n], rs, cs, off, oob: false } }
  pub fn at(&self, i: usize, j: usize) -> usize { assert!(i < R && j < C); self.off + i * self.rs + j * self.cs }
}
impl<const R: usize, const C: usize> wrenfold_traits::Span2D<R, C> for M<R, C> {
  type ValueType = f64;
  fn get(&self, i: usize, j: usize) -> f64 { self.v[self.at(i, j)] }
}
impl<const R: usize, const C: usize> wrenfold_traits::OutputSpan2D<R, C> for M<R, C> {
  type ValueType = f64;
  fn set(&mut self, i: usize, j: usize, x: f64) { let k = self.at(i, j); self.v[k] = x; }
}
"""


def traits():
    src = wfbuild.REPO / "components/rust/wrenfold-traits/src/lib.rs"

    def make(out):
        rc, msg = run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name",
                       "wrenfold_traits", "-A", "warnings", "-o", out, src])
        if rc:
            raise RuntimeError(msg)
    return cached("libwrenfold_traits.rlib", "1", make)


def compiler(opt):
    def compile_(funs, tmp):
        src = "#![allow(warnings)]\n" + SUPPORT + "\n".join(
            f"pub mod f{i} {{\n{f.code}\n}}\n{f.wrapper.replace('@', str(i))}" for i, f in enumerate(funs))
        c = pathlib.Path(tmp) / "gen.rs"
        c.write_text(src)
        so = pathlib.Path(tmp) / "gen.so"
        rc, msg = run(["rustc", "--edition", "2021", "--crate-type", "cdylib", "--crate-name", "gen",
                       "--extern", f"wrenfold_traits={traits()}", "-C", f"opt-level={opt}", "-C",
                       "debuginfo=0", "-C", "codegen-units=1", "-o", so, c], cwd=tmp)
        if rc:
            keep, out = 0, []
            for l in msg.splitlines():
                if l.startswith("error"):
                    keep = 6
                if keep:
                    out.append(l)
                    keep -= 1
            return None, "\n".join(out)[:3000] or msg
        return bind(so, range(len(funs))), None
    return compile_


def wrapper(s, spec):
    pre, post, args = [], [], []
    k = 0

    def mat(nm, r, c, fill):
        """declare a matrix with random layout"""
        cs, rs = s.choice([(1, c), (r, 1), (2, 2 * c + 1), (3 * r, 2)])
        if rs == 1 and cs == r or True:
            n = (r - 1) * rs + (c - 1) * cs + 4
        pre.append(f"let mut {nm} = M::<{r}, {c}>::new({n + 2}, {rs}, {cs}, 3);")
        return [3 + i * rs + j * cs for i in range(r) for j in range(c)], n + 2

    for a in spec.args:
        if a.kind == "m":
            ids, _ = mat("m_" + a.name, a.rows, a.cols, 777)
            for i in ids:
                pre.append(f"m_{a.name}.v[{i}] = *inp.add({k});")
                k += 1
            args.append(f"&m_{a.name}")
        else:
            args.append(f"*inp.add({k})" + {"f": "", "i": " as i64", "b": " != 0.0"}[a.kind])
            k += 1
    S = repr(wfnative.SENTINEL) + "f64"
    k = nopt = 0
    ret = None
    for o in spec.outs:
        n = len(o.trees)
        if o.name is None:
            ret = k
            k += n
            continue
        flag = None
        if o.optional:
            flag = f"*present.add({nopt}) != 0"
            nopt += 1
        nm = "o_" + o.name
        if o.shape is None:
            pre.append(f"let mut {nm}: f64 = {S};")
            vals = [nm]
        else:
            ids, tot = mat(nm, *o.shape, None)
            pre += [f"{nm}.v[{i}] = {S};" for i in ids]
            vals = [f"{nm}.v[{i}]" for i in ids]
            post += [f"if {nm}.v[{i}] != 777.0 {{ bad = {i + 1}; }}" for i in range(tot) if i not in ids]
        args.append(f"(if {flag} {{ Some(&mut {nm}) }} else {{ None }})" if flag else f"&mut {nm}")
        for v in vals:
            post.append(f"*out.add({k}) = {v};")
            k += 1
    n_out = k
    call = f"f@::{spec.name}({', '.join(args)})"
    call = f"let r: f64 = {call}; *out.add({ret}) = r;" if ret is not None else f"let r: () = {call};"
    body = "\n    ".join(pre + [call] + post)
    return ("#[no_mangle]\npub unsafe extern \"C\" fn call_@(inp: *const f64, out: *mut f64, "
            "present: *const u8) -> i32 {\n  let q = std::panic::catch_unwind(|| {\n    let mut bad = 0i32;\n    " +
            body + "\n    bad\n  });\n  match q { Ok(b) => b, Err(_) => -1 }\n}\n")


def one(ctx, npts):
    def f(s, i):
        spec = gen_spec(s, name="func", ints=True, ret=None, wide=True)
        for o in spec.outs:
            if o.name is None and o.shape is not None:
                o.name = "outr"     # the generator does not return matrices
        b = build(spec)
        pts = points(s, ctx, b, spec, False, npts)
        gen = cg.RustGenerator()
        if s.bool(0.25):
            ct = s.bool()
            code = cg.generate_function(as_function(spec), gen, convert_ternaries=ct)
            how = f"rust generate_function convert={ct}"
        else:
            p, lab = params(s)
            ct = s.bool()
            code = gen.generate(cg.transpile(b.desc, p, ct))
            how = f"rust {lab} convert={ct}"
        if s.bool(0.2):
            code = gen.apply_preamble(code)
        return Native(spec, b, code, wrapper(s, spec), pts, how)
    return f


def functions(src, ctx):
    batch(src, ctx, one(ctx, 4), compiler(src.choice([0, 0, 2])), 28)


def literal(s, i):
    spec, env, want = gen_literals(s)
    spec.name = "func"
    b = build(spec)
    p, lab = params(s)
    code = cg.RustGenerator().generate(cg.transpile(b.desc, p, True))
    return Native(spec, b, code, wrapper(s, spec), [(env, want)], f"literals rust {lab}")


def literals(src, ctx):
    """Constants reach the compiled function exactly."""
    batch(src, ctx, literal, compiler(0), 60)


def streams():
    return [Stream("literals", literals, 40, 800), Stream("functions", functions, 450, 9000)]


KNOWN = {}
