//! libkoopa through its C interface: raw programs are read and made by the
//! layout that koopa.h gives them.  Everything runs in child processes.
use crate::prog::*;
use crate::util::*;
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::{CStr, CString, c_char, c_int, c_void};
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};
use std::sync::OnceLock;

unsafe extern "C" {
  fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
  fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
  fn fork() -> c_int;
  fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
  fn pipe(f: *mut c_int) -> c_int;
  fn dup2(a: c_int, b: c_int) -> c_int;
  fn _exit(c: c_int) -> !;
  fn mallopt(a: c_int, b: c_int) -> c_int;
}

// ------------------------------------------------------------------- layout
static LAY: OnceLock<HashMap<String, usize>> = OnceLock::new();
pub fn load_layout(p: &str) {
  let m = std::fs::read_to_string(p)
    .unwrap()
    .lines()
    .map(|l| {
      let (a, b) = l.rsplit_once(' ').unwrap();
      (a.to_string(), b.parse().unwrap())
    })
    .collect();
  LAY.set(m).unwrap();
}
fn lay(k: &str) -> usize {
  *LAY.get().unwrap().get(k).unwrap_or_else(|| panic!("no {k}"))
}
fn val(k: &str) -> usize {
  match k {
    "ty" | "name" | "used_by" => lay(&format!("val.{k}")),
    "tag" => lay("val.kind.tag"),
    _ => lay(&format!("val.kind.data.{k}")),
  }
}

pub type P = *mut u8;
unsafe fn rp(p: P, o: usize) -> P {
  unsafe { (p.add(o) as *const P).read_unaligned() }
}
unsafe fn r32(p: P, o: usize) -> u32 {
  unsafe { (p.add(o) as *const u32).read_unaligned() }
}
unsafe fn r64(p: P, o: usize) -> u64 {
  unsafe { (p.add(o) as *const u64).read_unaligned() }
}
unsafe fn wp(p: P, o: usize, v: P) {
  unsafe { (p.add(o) as *mut P).write_unaligned(v) }
}
unsafe fn w32(p: P, o: usize, v: u32) {
  unsafe { (p.add(o) as *mut u32).write_unaligned(v) }
}
unsafe fn w64(p: P, o: usize, v: u64) {
  unsafe { (p.add(o) as *mut u64).write_unaligned(v) }
}

// ---------------------------------------------------------------- interface
type ParseS = unsafe extern "C" fn(*const c_char, *mut P) -> c_int;
type ParseFd = unsafe extern "C" fn(c_int, *mut P) -> c_int;
type ParseIn = unsafe extern "C" fn(*mut P) -> c_int;
type Del = unsafe extern "C" fn(P);
type DumpF = unsafe extern "C" fn(P, *const c_char) -> c_int;
type DumpS = unsafe extern "C" fn(P, *mut c_char, *mut usize) -> c_int;
type DumpO = unsafe extern "C" fn(P) -> c_int;
type DumpR = unsafe extern "C" fn(P, c_int) -> c_int;
type NewB = unsafe extern "C" fn() -> P;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RawProg([u64; 4]);
type BuildR = unsafe extern "C" fn(P, P) -> RawProg;
type Gen = unsafe extern "C" fn(*const RawProg, *mut P) -> c_int;

pub struct Lib {
  parse_file: ParseS,
  parse_str: ParseS,
  parse_stdin: ParseIn,
  parse_raw: ParseFd,
  delete: Del,
  dump_file: [DumpF; 2],
  dump_str: [DumpS; 2],
  dump_out: [DumpO; 2],
  dump_raw: [DumpR; 2],
  newb: NewB,
  delb: Del,
  build: BuildR,
  generate: Gen,
}
const UNTOUCHED: P = 0x5a5a_5a5a_5a50 as P;

impl Lib {
  pub fn open(path: &str) -> Lib {
    unsafe {
      let p = CString::new(path).unwrap();
      let h = dlopen(p.as_ptr(), 2);
      assert!(!h.is_null(), "can not load {path}");
      let f = |n: &str| {
        let c = CString::new(n).unwrap();
        let s = dlsym(h, c.as_ptr());
        assert!(!s.is_null(), "no {n}");
        s
      };
      macro_rules! g {
        ($n:expr) => {
          std::mem::transmute(f($n))
        };
      }
      Lib {
        parse_file: g!("koopa_parse_from_file"),
        parse_str: g!("koopa_parse_from_string"),
        parse_stdin: g!("koopa_parse_from_stdin"),
        parse_raw: g!("koopa_parse_from_raw"),
        delete: g!("koopa_delete_program"),
        dump_file: [g!("koopa_dump_to_file"), g!("koopa_dump_llvm_to_file")],
        dump_str: [g!("koopa_dump_to_string"), g!("koopa_dump_llvm_to_string")],
        dump_out: [g!("koopa_dump_to_stdout"), g!("koopa_dump_llvm_to_stdout")],
        dump_raw: [g!("koopa_dump_to_raw"), g!("koopa_dump_llvm_to_raw")],
        newb: g!("koopa_new_raw_program_builder"),
        delb: g!("koopa_delete_raw_program_builder"),
        build: g!("koopa_build_raw_program"),
        generate: g!("koopa_generate_raw_to_koopa"),
      }
    }
  }

  pub fn parse(&self, t: &str) -> (c_int, P) {
    let c = CString::new(t).unwrap();
    let mut p = UNTOUCHED;
    let r = unsafe { (self.parse_str)(c.as_ptr(), &mut p) };
    (r, p)
  }
  pub fn text(&self, p: P, ll: usize) -> Result<String, String> {
    unsafe {
      let mut n = 0usize;
      let r = (self.dump_str[ll])(p, std::ptr::null_mut(), &mut n);
      if r != 0 {
        return Err(format!("asking for the length gives {r}"));
      }
      let mut b = vec![0xa5u8; n + 1];
      let mut m = n + 1;
      let r = (self.dump_str[ll])(p, b.as_mut_ptr() as *mut c_char, &mut m);
      if r != 0 {
        return Err(format!("dumping gives {r}"));
      }
      if b.pop() != Some(0) {
        return Err("no terminator".into());
      }
      String::from_utf8(b).map_err(|e| e.to_string())
    }
  }
  /// The text of a program taken through its raw form, once the program is gone.
  pub fn rebuilt(&self, p: P) -> Result<String, String> {
    unsafe {
      let b = (self.newb)();
      let raw = (self.build)(b, p);
      (self.delete)(p);
      let (r, q) = self.gen_raw(&raw);
      if r != 0 {
        return Err(format!("generating from its raw form gives {r}"));
      }
      (self.delb)(b);
      let t = self.text(q, 0);
      (self.delete)(q);
      t
    }
  }
  fn gen_raw(&self, r: &RawProg) -> (c_int, P) {
    let mut p = UNTOUCHED;
    let c = unsafe { (self.generate)(r, &mut p) };
    (c, p)
  }
}

// ------------------------------------------------------------------- reader
struct Walk {
  bad: Vec<String>,
  ids: HashMap<P, String>,
  funcs: HashMap<P, usize>,
  bbs: HashMap<P, (usize, usize)>,
  uses: BTreeMap<usize, BTreeSet<usize>>,
  consts: BTreeSet<usize>,
  users: BTreeMap<String, Vec<String>>,
}

const OPS: [(&str, &str); 17] = [
  ("NOT_EQ", "ne"),
  ("EQ", "eq"),
  ("GT", "gt"),
  ("LT", "lt"),
  ("GE", "ge"),
  ("LE", "le"),
  ("ADD", "add"),
  ("SUB", "sub"),
  ("MUL", "mul"),
  ("DIV", "div"),
  ("MOD", "mod"),
  ("AND", "and"),
  ("OR", "or"),
  ("XOR", "xor"),
  ("SHL", "shl"),
  ("SHR", "shr"),
  ("SAR", "sar"),
];
const TAGS: [&str; 17] = [
  "INTEGER",
  "ZERO_INIT",
  "UNDEF",
  "AGGREGATE",
  "FUNC_ARG_REF",
  "BLOCK_ARG_REF",
  "ALLOC",
  "GLOBAL_ALLOC",
  "LOAD",
  "STORE",
  "GET_PTR",
  "GET_ELEM_PTR",
  "BINARY",
  "BRANCH",
  "JUMP",
  "CALL",
  "RETURN",
];

unsafe fn cstr(p: P) -> String {
  if p.is_null() {
    String::new()
  } else {
    unsafe { CStr::from_ptr(p as *const c_char) }.to_string_lossy().into_owned()
  }
}

impl Walk {
  unsafe fn slice(&mut self, p: P, o: usize, kind: &str, what: &str) -> Vec<P> {
    unsafe {
      let b = rp(p, o + lay("slice.buffer"));
      let n = r32(p, o + lay("slice.len"));
      let k = r32(p, o + lay("slice.kind")) as usize;
      if k != lay(&format!("RSIK_{kind}")) && !(n == 0 && k == 0 && what.ends_with("used_by")) {
        self.bad.push(format!("{what} is a slice of kind {k}"));
      }
      if n > 100000 {
        self.bad.push(format!("{what} has {n} items"));
        return vec![];
      }
      if n > 0 && b.is_null() {
        self.bad.push(format!("{what} has no buffer"));
        return vec![];
      }
      let v: Vec<P> = (0..n as usize).map(|i| rp(b, i * 8)).collect();
      if v.iter().any(|x| x.is_null()) {
        self.bad.push(format!("{what} has a null item"));
        return vec![];
      }
      v
    }
  }

  unsafe fn ty(&mut self, p: P) -> String {
    unsafe {
      if p.is_null() {
        return "?null".into();
      }
      let t = r32(p, lay("tk.tag")) as usize;
      if t == lay("RTT_INT32") {
        "i32".into()
      } else if t == lay("RTT_UNIT") {
        "unit".into()
      } else if t == lay("RTT_POINTER") {
        format!("*{}", self.ty(rp(p, lay("tk.data.pointer.base"))))
      } else if t == lay("RTT_ARRAY") {
        format!("[{}, {}]", self.ty(rp(p, lay("tk.data.array.base"))), r64(p, lay("tk.data.array.len")))
      } else if t == lay("RTT_FUNCTION") {
        let ps = self.slice(p, lay("tk.data.function.params"), "TYPE", "parameter types");
        let ps: Vec<_> = ps.into_iter().map(|p| self.ty(p)).collect();
        let r = self.ty(rp(p, lay("tk.data.function.ret")));
        if r == "unit" { format!("({})", ps.join(", ")) } else { format!("({}): {r}", ps.join(", ")) }
      } else {
        format!("?tag {t}")
      }
    }
  }

  unsafe fn tag(&self, v: P) -> &'static str {
    let t = unsafe { r32(v, val("tag")) } as usize;
    TAGS.iter().find(|k| lay(&format!("RVT_{k}")) == t).unwrap_or(&"?")
  }

  unsafe fn vty(&mut self, v: P) -> String {
    unsafe { self.ty(rp(v, val("ty"))) }
  }

  fn name(&mut self, v: P, n: String) {
    if let Some(o) = self.ids.insert(v, n.clone()) {
      self.bad.push(format!("{n} and {o} are one object"));
    }
  }

  /// An operand of `user` in function `f` (0: none).
  unsafe fn op(&mut self, f: usize, v: P, user: P) -> String {
    unsafe {
      if v.is_null() {
        return "?null".into();
      }
      self.uses.entry(v as usize).or_default().insert(user as usize);
      if let Some(n) = self.ids.get(&v) {
        return match n.split_once(':') {
          None => n.clone(),
          Some((a, b)) if a.parse() == Ok(f) => b.into(),
          Some(_) => format!("?foreign {n}"),
        };
      }
      self.consts.insert(v as usize);
      if !rp(v, val("name")).is_null() {
        self.bad.push("a constant has a name".into());
      }
      let ty = self.vty(v);
      match self.tag(v) {
        "INTEGER" if ty == "i32" => format!("#{}", r32(v, val("integer.value")) as i32),
        "ZERO_INIT" => format!("zero:{ty}"),
        "UNDEF" => format!("undef:{ty}"),
        "AGGREGATE" => {
          let es = self.slice(v, val("aggregate.elems"), "VALUE", "elements");
          let et = if es.is_empty() { "?".into() } else { self.vty(es[0]) };
          if ty != format!("[{et}, {}]", es.len()) {
            self.bad.push(format!("an aggregate of {} {et} has type {ty}", es.len()));
          }
          let es: Vec<_> = es.into_iter().map(|e| self.op(f, e, v)).collect();
          format!("agg{{{}}}", es.join("; "))
        }
        t => format!("?not placed: {t}"),
      }
    }
  }

  unsafe fn read(&mut self, r: &RawProg) -> J {
    unsafe {
      let r = r as *const RawProg as P;
      let gs = self.slice(r, lay("program.values"), "VALUE", "values");
      let fs = self.slice(r, lay("program.funcs"), "FUNCTION", "funcs");
      for (i, g) in gs.iter().enumerate() {
        self.name(*g, format!("g{}", i + 1));
      }
      let mut fparams = vec![];
      let mut fbbs: Vec<Vec<(P, Vec<P>, Vec<P>)>> = vec![];
      for (i, f) in fs.iter().enumerate() {
        let i = i + 1;
        if self.funcs.insert(*f, i).is_some() {
          self.bad.push(format!("function {i} is another one too"));
        }
        let ps = self.slice(*f, lay("fn.params"), "VALUE", "function params");
        for (k, p) in ps.iter().enumerate() {
          self.name(*p, format!("{i}:p{}", k + 1));
          if self.tag(*p) != "FUNC_ARG_REF" || r64(*p, val("func_arg_ref.index")) as usize != k {
            self.bad.push(format!("parameter {i}:{}", k + 1));
          }
        }
        fparams.push(ps);
        let bbs = self.slice(*f, lay("fn.bbs"), "BASIC_BLOCK", "bbs");
        let mut l = vec![];
        for (b, bb) in bbs.iter().enumerate() {
          let b = b + 1;
          if self.bbs.insert(*bb, (i, b)).is_some() {
            self.bad.push(format!("block {i}:{b} is another one too"));
          }
          let ps = self.slice(*bb, lay("bb.params"), "VALUE", "block params");
          for (k, p) in ps.iter().enumerate() {
            self.name(*p, format!("{i}:b{b}.{}", k + 1));
            if self.tag(*p) != "BLOCK_ARG_REF" || r64(*p, val("block_arg_ref.index")) as usize != k {
              self.bad.push(format!("block parameter {i}:{b}.{}", k + 1));
            }
          }
          let is = self.slice(*bb, lay("bb.insts"), "VALUE", "insts");
          for (k, v) in is.iter().enumerate() {
            self.name(*v, format!("{i}:i{b}.{}", k + 1));
          }
          l.push((*bb, ps, is));
        }
        fbbs.push(l);
      }
      // what they are
      let gl: Vec<J> = gs
        .iter()
        .map(|g| {
          let init = rp(*g, val("global_alloc.init"));
          let o = if self.tag(*g) == "GLOBAL_ALLOC" { self.op(0, init, *g) } else { "?not an allocation".into() };
          let t = self.vty(*g);
          if !init.is_null() && t != format!("*{}", self.vty(init)) {
            self.bad.push(format!("a global of type {t}"));
          }
          json!({"nm": cstr(rp(*g, val("name"))), "init": o})
        })
        .collect();
      let mut fl = vec![];
      for (fi, f) in fs.iter().enumerate() {
        let fn_ = fi + 1;
        let t = rp(*f, lay("fn.ty"));
        let (mut pts, mut rt) = (vec![], "?".to_string());
        if r32(t, lay("tk.tag")) as usize == lay("RTT_FUNCTION") {
          let ps = self.slice(t, lay("tk.data.function.params"), "TYPE", "parameter types");
          pts = ps.into_iter().map(|p| self.ty(p)).collect::<Vec<_>>();
          rt = self.ty(rp(t, lay("tk.data.function.ret")));
        } else {
          self.bad.push(format!("type of function {fn_}"));
        }
        let mut pnm = vec![];
        for (k, p) in fparams[fi].iter().enumerate() {
          let t = self.vty(*p);
          if Some(&t) != pts.get(k) {
            self.bad.push(format!("parameter {fn_}:{} has type {t}", k + 1));
          }
          pnm.push(cstr(rp(*p, val("name"))));
        }
        let mut bs = vec![];
        for (bb, ps, is) in &fbbs[fi] {
          let pts: Vec<_> = ps.iter().map(|p| self.vty(*p)).collect();
          let pnm: Vec<_> = ps.iter().map(|p| cstr(rp(*p, val("name")))).collect();
          let is: Vec<J> = is.iter().map(|v| self.inst(fn_, *v)).collect();
          bs.push(json!({"nm": cstr(rp(*bb, lay("bb.name"))), "pts": pts, "pnm": pnm, "is": is}));
        }
        fl.push(json!({"nm": cstr(rp(*f, lay("fn.name"))), "decl": bs.is_empty(), "pts": pts, "pnm": pnm, "rt": rt, "bs": bs}));
      }
      // the user lists
      let named: Vec<(P, String)> = self.ids.iter().map(|(p, n)| (*p, n.clone())).collect();
      for (p, n) in named {
        let l = self.userlist(p, val("used_by"), &n);
        self.users.insert(n, l);
      }
      let bbs: Vec<_> = self.bbs.iter().map(|(p, n)| (*p, *n)).collect();
      for (p, (f, b)) in bbs {
        let n = format!("{f}:B{b}");
        let l = self.userlist(p, lay("bb.used_by"), &n);
        self.users.insert(n, l);
      }
      for c in self.consts.clone() {
        let v = self.slice(c as P, val("used_by"), "VALUE", "constant's used_by");
        let s: BTreeSet<usize> = v.iter().map(|p| *p as usize).collect();
        if s.len() != v.len() {
          self.bad.push("a constant lists a user twice".into());
        }
        if s != self.uses[&c] {
          self.bad.push(format!("a constant lists {} users and has {}", s.len(), self.uses[&c].len()));
        }
      }
      json!({"gs": gl, "fs": fl})
    }
  }

  unsafe fn userlist(&mut self, p: P, o: usize, n: &str) -> Vec<String> {
    let v = unsafe { self.slice(p, o, "VALUE", &format!("{n}.used_by")) };
    let mut r: Vec<String> = v.iter().map(|u| self.ids.get(u).cloned().unwrap_or("?stranger".into())).collect();
    r.sort();
    r
  }

  unsafe fn inst(&mut self, f: usize, v: P) -> J {
    unsafe {
      let ptr = |k: &str| rp(v, val(k));
      let (mut x, mut fnc, mut bbs, mut nt) = ("", 0, vec![], 0);
      let t = self.tag(v);
      let bb = |s: &Walk, p: P| match s.bbs.get(&p) {
        Some((g, b)) if *g == f => *b,
        _ => 0,
      };
      let sl = |s: &mut Walk, k: &str| -> Vec<String> {
        let l = s.slice(v, val(k), "VALUE", k);
        l.into_iter().map(|e| s.op(f, e, v)).collect()
      };
      let (k, ops) = match t {
        "ALLOC" => ("alloc", vec![]),
        "LOAD" => ("load", vec![self.op(f, ptr("load.src"), v)]),
        "STORE" => ("store", vec![self.op(f, ptr("store.value"), v), self.op(f, ptr("store.dest"), v)]),
        "GET_PTR" => ("getptr", vec![self.op(f, ptr("get_ptr.src"), v), self.op(f, ptr("get_ptr.index"), v)]),
        "GET_ELEM_PTR" => {
          ("getelemptr", vec![self.op(f, ptr("get_elem_ptr.src"), v), self.op(f, ptr("get_elem_ptr.index"), v)])
        }
        "BINARY" => {
          let o = r32(v, val("binary.op")) as usize;
          x = OPS.iter().find(|k| lay(&format!("RBO_{}", k.0)) == o).map_or("?", |k| k.1);
          ("binary", vec![self.op(f, ptr("binary.lhs"), v), self.op(f, ptr("binary.rhs"), v)])
        }
        "BRANCH" => {
          bbs = vec![bb(self, ptr("branch.true_bb")), bb(self, ptr("branch.false_bb"))];
          let mut r = vec![self.op(f, ptr("branch.cond"), v)];
          let ta = sl(self, "branch.true_args");
          nt = ta.len();
          r.extend(ta);
          r.extend(sl(self, "branch.false_args"));
          ("branch", r)
        }
        "JUMP" => {
          bbs = vec![bb(self, ptr("jump.target"))];
          ("jump", sl(self, "jump.args"))
        }
        "CALL" => {
          fnc = self.funcs.get(&ptr("call.callee")).copied().unwrap_or(0);
          ("call", sl(self, "call.args"))
        }
        "RETURN" => {
          let p = ptr("ret.value");
          ("ret", if p.is_null() { vec![] } else { vec![self.op(f, p, v)] })
        }
        t => (t, vec![]),
      };
      let ty = self.vty(v);
      json!({"k": k, "ty": ty, "nm": cstr(ptr("name")), "ops": ops, "x": x, "fn": fnc, "bbs": bbs, "n": nt})
    }
  }
}

/// Reads a raw program and compares it with the listing and the user lists.
fn compare(r: &RawProg, want: &J, users: Option<&J>) -> Option<String> {
  let mut w = Walk {
    bad: vec![],
    ids: HashMap::new(),
    funcs: HashMap::new(),
    bbs: HashMap::new(),
    uses: BTreeMap::new(),
    consts: BTreeSet::new(),
    users: BTreeMap::new(),
  };
  let got = unsafe { w.read(r) };
  if let Some(d) = diff(want, &got, "p") {
    return Some(d);
  }
  if let Some(b) = w.bad.first() {
    return Some(b.clone());
  }
  if let Some(us) = users {
    for u in us.as_array().unwrap() {
      let n = u[0].as_str().unwrap();
      let mut l: Vec<String> = match &u[1] {
        J::Array(a) => a.iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        _ => vec![],
      };
      l.sort();
      if w.users.get(n) != Some(&l) {
        return Some(format!("{n} is used by {l:?}, but lists {:?}", w.users.get(n)));
      }
    }
    if w.users.len() != us.as_array().unwrap().len() {
      return Some("surplus entities".into());
    }
  }
  None
}

// -------------------------------------------------------------------- maker
fn new_obj(n: usize) -> P {
  Box::leak(vec![0u64; n.div_ceil(8)].into_boxed_slice()).as_mut_ptr() as P
}
fn size(t: &str) -> usize {
  lay(&format!("size.{t}"))
}

#[derive(Clone, Copy)]
struct Opts {
  share_ty: bool,
  share_const: bool,
  users: bool,
}

struct Make<'a> {
  l: &'a J,
  o: Opts,
  tys: HashMap<String, P>,
  consts: HashMap<(usize, String), P>,
  gv: Vec<P>,
  fv: Vec<P>,
  pv: Vec<Vec<P>>,
  bv: Vec<Vec<P>>,
  bpv: Vec<Vec<Vec<P>>>,
  iv: Vec<Vec<Vec<P>>>,
  raw: P,
  uses: Vec<(P, P)>,
}

impl<'a> Make<'a> {
  fn name(&self, s: &str) -> P {
    if s.is_empty() { std::ptr::null_mut() } else { CString::new(s).unwrap().into_raw() as P }
  }

  unsafe fn fill(&self, p: P, o: usize, kind: &str, items: &[P]) {
    unsafe {
      let b = new_obj(8 * items.len().max(1));
      for (i, x) in items.iter().enumerate() {
        wp(b, i * 8, *x);
      }
      wp(p, o + lay("slice.buffer"), if items.is_empty() { std::ptr::null_mut() } else { b });
      w32(p, o + lay("slice.len"), items.len() as u32);
      w32(p, o + lay("slice.kind"), lay(&format!("RSIK_{kind}")) as u32);
    }
  }

  /// A raw type from its text, in which `?` is a null pointer.
  fn ty(&mut self, t: &str) -> P {
    let b = t.as_bytes();
    let mut i = 0;
    let r = self.ty_at(b, &mut i);
    assert!(i == b.len(), "bad type {t}");
    r
  }
  fn ty_at(&mut self, b: &[u8], i: &mut usize) -> P {
    let st = *i;
    let ws = |i: &mut usize| {
      while *i < b.len() && (b[*i] == b' ' || b[*i] == b',') {
        *i += 1
      }
    };
    if b[*i] == b'?' {
      *i += 1;
      return std::ptr::null_mut();
    }
    let p = new_obj(size("tk"));
    unsafe {
      let tag = |k: &str| w32(p, lay("tk.tag"), lay(k) as u32);
      match b[*i] {
        b'i' => {
          *i += 3;
          tag("RTT_INT32");
        }
        b'u' => {
          *i += 4;
          tag("RTT_UNIT");
        }
        b'*' => {
          *i += 1;
          tag("RTT_POINTER");
          let t = self.ty_at(b, i);
          wp(p, lay("tk.data.pointer.base"), t);
        }
        b'[' => {
          *i += 1;
          tag("RTT_ARRAY");
          let t = self.ty_at(b, i);
          wp(p, lay("tk.data.array.base"), t);
          ws(i);
          let mut n = 0u64;
          while b[*i].is_ascii_digit() {
            n = n * 10 + (b[*i] - b'0') as u64;
            *i += 1;
          }
          w64(p, lay("tk.data.array.len"), n);
          *i += 1;
        }
        b'(' => {
          *i += 1;
          tag("RTT_FUNCTION");
          let mut ps = vec![];
          ws(i);
          while b[*i] != b')' {
            ps.push(self.ty_at(b, i));
            ws(i);
          }
          *i += 1;
          self.fill(p, lay("tk.data.function.params"), "TYPE", &ps);
          let r = if *i < b.len() && b[*i] == b':' {
            *i += 2;
            self.ty_at(b, i)
          } else {
            self.ty("unit")
          };
          wp(p, lay("tk.data.function.ret"), r);
        }
        c => panic!("type character {c}"),
      }
    }
    if self.o.share_ty {
      let k = String::from_utf8(b[st..*i].to_vec()).unwrap();
      if !k.contains('?') {
        return *self.tys.entry(k).or_insert(p);
      }
    }
    p
  }

  fn value(&mut self, tag: &str, ty: &str, nm: &str) -> P {
    let p = new_obj(size("val"));
    let t = self.ty(ty);
    unsafe {
      wp(p, val("ty"), t);
      wp(p, val("name"), self.name(nm));
      w32(p, val("tag"), lay(&format!("RVT_{tag}")) as u32);
    }
    p
  }

  /// An operand in function `f` (0: none).
  fn op(&mut self, f: usize, o: &str, user: P) -> P {
    let two = |s: &str| {
      let (a, b) = s.split_once('.').unwrap();
      (a.parse::<usize>().unwrap() - 1, b.parse::<usize>().unwrap() - 1)
    };
    let c = o.as_bytes()[0];
    let num = |s: &str| s.parse::<usize>().unwrap() - 1;
    let p = match c {
      b'g' => self.gv[num(&o[1..])],
      b'p' => self.pv[f - 1][num(&o[1..])],
      b'b' => {
        let (b, i) = two(&o[1..]);
        self.bpv[f - 1][b][i]
      }
      b'i' => {
        let (b, i) = two(&o[1..]);
        self.iv[f - 1][b][i]
      }
      _ => self.konst(f, o),
    };
    self.uses.push((p, user));
    p
  }

  fn konst(&mut self, f: usize, o: &str) -> P {
    // shared by the whole program, but globals keep their own
    let key = (if f == 0 { 0 } else { 1 }, o.to_string());
    if self.o.share_const
      && let Some(p) = self.consts.get(&key)
    {
      return *p;
    }
    let p = if let Some(n) = o.strip_prefix('#') {
      let p = self.value("INTEGER", "i32", "");
      unsafe { w32(p, val("integer.value"), n.parse::<i32>().unwrap() as u32) };
      p
    } else if let Some(t) = o.strip_prefix("undef:") {
      self.value("UNDEF", t, "")
    } else if let Some(t) = o.strip_prefix("zero:") {
      self.value("ZERO_INIT", t, "")
    } else {
      let es: Vec<String> = split_agg(o).iter().map(|s| s.to_string()).collect();
      let p = self.value("AGGREGATE", &format!("[{}, {}]", const_ty(&es[0]), es.len()), "");
      let vs: Vec<P> = es.iter().map(|e| self.op(f, e, p)).collect();
      unsafe { self.fill(p, val("aggregate.elems"), "VALUE", &vs) };
      p
    };
    self.consts.insert(key, p);
    p
  }

  fn new(l: &'a J, o: Opts) -> Make<'a> {
    let mut m = Make {
      l,
      o,
      tys: HashMap::new(),
      consts: HashMap::new(),
      gv: vec![],
      fv: vec![],
      pv: vec![],
      bv: vec![],
      bpv: vec![],
      iv: vec![],
      raw: new_obj(size("program")),
      uses: vec![],
    };
    m.all();
    m
  }

  fn all(&mut self) {
    let l = self.l;
    unsafe {
      // the objects
      for g in arr(l, "gs") {
        let t = const_ty(s(g, "init"));
        let v = self.value("GLOBAL_ALLOC", &format!("*{t}"), s(g, "nm"));
        self.gv.push(v);
      }
      for f in arr(l, "fs") {
        self.fv.push(new_obj(size("fn")));
        let pts = strs(f, "pts");
        let ps = strs(f, "pnm")
          .iter()
          .enumerate()
          .map(|(i, n)| {
            let p = self.value("FUNC_ARG_REF", &pts[i], n);
            w64(p, val("func_arg_ref.index"), i as u64);
            p
          })
          .collect();
        self.pv.push(ps);
        let (mut bv, mut bpv, mut iv) = (vec![], vec![], vec![]);
        for b in arr(f, "bs") {
          bv.push(new_obj(size("bb")));
          let pts = strs(b, "pts");
          let ps: Vec<P> = strs(b, "pnm")
            .iter()
            .enumerate()
            .map(|(i, n)| {
              let p = self.value("BLOCK_ARG_REF", &pts[i], n);
              w64(p, val("block_arg_ref.index"), i as u64);
              p
            })
            .collect();
          bpv.push(ps);
          iv.push(
            arr(b, "is")
              .iter()
              .map(|i| {
                let t = match s(i, "k") {
                  "alloc" => "ALLOC",
                  "load" => "LOAD",
                  "store" => "STORE",
                  "getptr" => "GET_PTR",
                  "getelemptr" => "GET_ELEM_PTR",
                  "binary" => "BINARY",
                  "branch" => "BRANCH",
                  "jump" => "JUMP",
                  "call" => "CALL",
                  _ => "RETURN",
                };
                self.value(t, s(i, "ty"), s(i, "nm"))
              })
              .collect(),
          );
        }
        self.bv.push(bv);
        self.bpv.push(bpv);
        self.iv.push(iv);
      }
      // their fields
      for (i, g) in arr(l, "gs").iter().enumerate() {
        let v = self.gv[i];
        let c = self.op(0, s(g, "init"), v);
        wp(v, val("global_alloc.init"), c);
      }
      for (fi, f) in arr(l, "fs").iter().enumerate() {
        let p = self.fv[fi];
        let ps = strs(f, "pts").join(", ");
        let rt = s(f, "rt");
        let t = if rt == "unit" { format!("({ps})") } else { format!("({ps}): {rt}") };
        let t = self.ty(&t);
        wp(p, lay("fn.ty"), t);
        wp(p, lay("fn.name"), self.name(s(f, "nm")));
        self.fill(p, lay("fn.params"), "VALUE", &self.pv[fi]);
        self.fill(p, lay("fn.bbs"), "BASIC_BLOCK", &self.bv[fi]);
        for (bi, b) in arr(f, "bs").iter().enumerate() {
          let p = self.bv[fi][bi];
          wp(p, lay("bb.name"), self.name(s(b, "nm")));
          self.fill(p, lay("bb.params"), "VALUE", &self.bpv[fi][bi]);
          self.fill(p, lay("bb.insts"), "VALUE", &self.iv[fi][bi]);
          for (ii, i) in arr(b, "is").iter().enumerate() {
            self.inst(fi + 1, self.iv[fi][bi][ii], i);
          }
        }
      }
      self.fill(self.raw, lay("program.values"), "VALUE", &self.gv);
      self.fill(self.raw, lay("program.funcs"), "FUNCTION", &self.fv);
      if self.o.users {
        let mut by: BTreeMap<usize, Vec<P>> = BTreeMap::new();
        for (p, u) in &self.uses {
          by.entry(*p as usize).or_default().push(*u);
        }
        let objs: BTreeSet<usize> = self.uses.iter().map(|u| u.0 as usize).collect();
        for p in objs {
          let mut v = by.remove(&p).unwrap_or_default();
          v.dedup();
          if !self.bv.iter().flatten().any(|b| *b as usize == p) {
            self.fill(p as P, val("used_by"), "VALUE", &v);
          }
        }
      }
    }
  }

  unsafe fn inst(&mut self, f: usize, v: P, i: &J) {
    unsafe {
      let ops: Vec<P> = strs(i, "ops").iter().map(|o| self.op(f, o, v)).collect();
      let bbs: Vec<P> = nums(i, "bbs").iter().map(|b| self.bv[f - 1][*b - 1]).collect();
      let nt = n(i, "n");
      let w = |k: &str, p: P| wp(v, val(k), p);
      match s(i, "k") {
        "load" => w("load.src", ops[0]),
        "store" => {
          w("store.value", ops[0]);
          w("store.dest", ops[1]);
        }
        "getptr" => {
          w("get_ptr.src", ops[0]);
          w("get_ptr.index", ops[1]);
        }
        "getelemptr" => {
          w("get_elem_ptr.src", ops[0]);
          w("get_elem_ptr.index", ops[1]);
        }
        "binary" => {
          let o = OPS.iter().find(|o| o.1 == s(i, "x")).unwrap().0;
          w32(v, val("binary.op"), lay(&format!("RBO_{o}")) as u32);
          w("binary.lhs", ops[0]);
          w("binary.rhs", ops[1]);
        }
        "branch" => {
          w("branch.cond", ops[0]);
          w("branch.true_bb", bbs[0]);
          w("branch.false_bb", bbs[1]);
          self.fill(v, val("branch.true_args"), "VALUE", &ops[1..1 + nt]);
          self.fill(v, val("branch.false_args"), "VALUE", &ops[1 + nt..]);
        }
        "jump" => {
          w("jump.target", bbs[0]);
          self.fill(v, val("jump.args"), "VALUE", &ops);
        }
        "call" => {
          w("call.callee", self.fv[n(i, "fn") - 1]);
          self.fill(v, val("call.args"), "VALUE", &ops);
        }
        "ret" => w("ret.value", ops.first().copied().unwrap_or(std::ptr::null_mut())),
        _ => {}
      }
    }
  }

  // ---------------------------------------------------------------- faults
  /// Where a site lies in memory: the object, the offset of the field, and the function.
  unsafe fn site(&self, at: &[J]) -> (P, usize, usize) {
    unsafe {
      let x = |k: usize| at[k].as_u64().unwrap() as usize;
      let w = |k: usize| at[k].as_str().unwrap();
      match w(0) {
        "p" => (self.raw, lay(&format!("program.{}", w(1))), 0),
        "g" => {
          let g = self.gv[x(1) - 1];
          match w(2) {
            "name" => (g, val("name"), 0),
            _ => self.sub(g, val("global_alloc.init"), at.get(3), 0),
          }
        }
        "f" => {
          let f = self.fv[x(1) - 1];
          match w(2) {
            "pnm" => (self.pv[x(1) - 1][x(3) - 1], val("name"), x(1)),
            "pts" => (rp(f, lay("fn.ty")), lay("tk.data.function.params"), x(1)),
            "ret" => (rp(f, lay("fn.ty")), lay("tk.data.function.ret"), x(1)),
            k => (f, lay(&format!("fn.{k}")), x(1)),
          }
        }
        "b" => {
          let (f, b) = (x(1), x(2) - 1);
          match w(3) {
            "pty" => (self.bpv[f - 1][b][x(4) - 1], val("ty"), f),
            "pnm" => (self.bpv[f - 1][b][x(4) - 1], val("name"), f),
            k => (self.bv[f - 1][b], lay(&format!("bb.{k}")), f),
          }
        }
        _ => {
          let (f, b, i) = (x(1), x(2) - 1, x(3) - 1);
          let v = self.iv[f - 1][b][i];
          let j = &arr(&arr(&arr(self.l, "fs")[f - 1], "bs")[b], "is")[i];
          let k = s(j, "k");
          match w(4) {
            "ty" | "name" => (v, val(w(4)), f),
            "fn" => (v, val("call.callee"), f),
            "args" => (v, val(if k == "call" { "call.args" } else { "jump.args" }), f),
            "targs" => (v, val("branch.true_args"), f),
            "fargs" => (v, val("branch.false_args"), f),
            "bb" => {
              let n = match (k, x(5)) {
                ("jump", _) => "jump.target",
                (_, 1) => "branch.true_bb",
                _ => "branch.false_bb",
              };
              (v, val(n), f)
            }
            _ => {
              let m = x(5);
              let elem = |sl: usize, n: usize| (rp(v, sl + lay("slice.buffer")), n * 8);
              let nt = n(j, "n");
              let (p, o) = match (k, m) {
                ("load", _) => (v, val("load.src")),
                ("store", 1) => (v, val("store.value")),
                ("store", _) => (v, val("store.dest")),
                ("getptr", 1) => (v, val("get_ptr.src")),
                ("getptr", _) => (v, val("get_ptr.index")),
                ("getelemptr", 1) => (v, val("get_elem_ptr.src")),
                ("getelemptr", _) => (v, val("get_elem_ptr.index")),
                ("binary", 1) => (v, val("binary.lhs")),
                ("binary", _) => (v, val("binary.rhs")),
                ("branch", 1) => (v, val("branch.cond")),
                ("branch", m) if m <= 1 + nt => elem(val("branch.true_args"), m - 2),
                ("branch", m) => elem(val("branch.false_args"), m - 2 - nt),
                ("jump", m) => elem(val("jump.args"), m - 1),
                ("call", m) => elem(val("call.args"), m - 1),
                _ => (v, val("ret.value")),
              };
              self.sub(p, o, at.get(6), f)
            }
          }
        }
      }
    }
  }

  unsafe fn sub(&self, p: P, o: usize, k: Option<&J>, f: usize) -> (P, usize, usize) {
    unsafe {
      match k.and_then(|k| k.as_str()) {
        None => (p, o, f),
        Some("ty") => (rp(p, o), val("ty"), f),
        Some(_) => (rp(p, o), val("aggregate.elems"), f),
      }
    }
  }

  unsafe fn fault(&mut self, (p, o, f): (P, usize, usize), x: &J) {
    unsafe {
      let a = s(x, "a");
      let buf = o + lay("slice.buffer");
      let len = o + lay("slice.len");
      let w = s(x, "w");
      match w {
        "null" => wp(p, o, std::ptr::null_mut()),
        "buf" => wp(p, buf, std::ptr::null_mut()),
        "kind" => w32(p, o + lay("slice.kind"), a.parse().unwrap()),
        "elem" => wp(rp(p, buf), (a.parse::<usize>().unwrap() - 1) * 8, std::ptr::null_mut()),
        "len0" => w32(p, len, 0),
        "drop" => w32(p, len, r32(p, len) - 1),
        "add" => {
          let k = r32(p, len) as usize;
          let mut v: Vec<P> = (0..k).map(|i| rp(rp(p, buf), i * 8)).collect();
          let e = if a == "arg" {
            let e = self.value("FUNC_ARG_REF", "i32", "");
            w64(e, val("func_arg_ref.index"), k as u64);
            e
          } else {
            self.konst(f, a)
          };
          v.push(e);
          self.fill(p, o, "VALUE", &v);
        }
        "ty" => {
          let t = self.ty(a);
          wp(p, o, t);
        }
        "op" => {
          let e = self.op(f, a, p);
          wp(p, o, e);
        }
        "name" => wp(p, o, CString::new(b"%\xff\xfe".to_vec()).unwrap().into_raw() as P),
        w => {
          let k: usize = w.strip_prefix("set").unwrap().parse().unwrap();
          let e = self.op(f, a, p);
          wp(rp(p, buf), (k - 1) * 8, e);
        }
      }
    }
  }

  fn raw(&self) -> RawProg {
    unsafe { (self.raw as *const RawProg).read_unaligned() }
  }
}

/// The type of a constant, by its listing.
fn const_ty(o: &str) -> String {
  if o.starts_with('#') {
    "i32".into()
  } else if let Some((_, t)) = o.split_once(':').filter(|_| !o.starts_with("agg")) {
    t.into()
  } else {
    let es = split_agg(o);
    format!("[{}, {}]", const_ty(es[0]), es.len())
  }
}

// ----------------------------------------------------------------- children
pub type Found = (Vec<&'static str>, String, String);

/// Runs `f` on the items in child processes.  A child that dies is a finding.
/// `last(i)`: nothing may follow item i in the same process.
pub fn children(o: &mut Out, n: usize, tmp: &str, dead: &[&'static str], last: impl Fn(usize) -> bool, mut f: impl FnMut(usize, &mut Vec<Found>, &mut BTreeMap<String, usize>)) {
  let mut next = 0;
  let mut deaths = 0;
  while next < n && deaths < 10 {
    unsafe {
      let mut fd = [0; 2];
      assert!(pipe(fd.as_mut_ptr()) == 0);
      let err = std::fs::File::create(format!("{tmp}.err")).unwrap();
      let pid = fork();
      assert!(pid >= 0);
      if pid == 0 {
        dup2(err.as_raw_fd(), 2);
        mallopt(-6, 0xa5);
        let mut out = std::fs::File::from_raw_fd(fd[1]);
        for i in next..n {
          let mut found = vec![];
          let mut cnt = BTreeMap::new();
          let r = guard(|| f(i, &mut found, &mut cnt));
          if let Err(e) = r {
            let _ = writeln!(out, "{}", json!({"harness": e}));
            _exit(7);
          }
          let fs: Vec<J> = found.iter().map(|(p, m, t)| json!({"p": p, "m": m, "t": t})).collect();
          let _ = writeln!(out, "{}", json!({"i": i, "f": fs, "n": cnt}));
          if last(i) {
            break;
          }
        }
        _exit(0);
      }
      drop(std::fs::File::from_raw_fd(fd[1]));
      let mut text = String::new();
      std::fs::File::from_raw_fd(fd[0]).read_to_string(&mut text).unwrap();
      let mut st = 0;
      waitpid(pid, &mut st, 0);
      for l in text.lines() {
        let j: J = serde_json::from_str(l).unwrap();
        if let Some(e) = j.get("harness") {
          panic!("harness: {e}");
        }
        let i = j["i"].as_u64().unwrap() as usize;
        for (k, v) in j["n"].as_object().unwrap() {
          o.add(k, v.as_u64().unwrap() as usize);
        }
        for x in j["f"].as_array().unwrap() {
          let ps: Vec<&str> = x["p"].as_array().unwrap().iter().map(|s| s.as_str().unwrap()).collect();
          o.hit(i, &ps, s(x, "m").into(), s(x, "t"));
        }
        next = i + 1;
      }
      if st != 0 {
        let e = std::fs::read_to_string(format!("{tmp}.err")).unwrap_or_default();
        let e: String = e.chars().take(600).collect();
        o.hit(next, dead, format!("the process died (status {st}): {e}"), "");
        next += 1;
        deaths += 1;
      }
    }
  }
}

// -------------------------------------------------------------------- modes
/// Programs through the raw form and back.
fn m_raw(path: &str, lib: &Lib) {
  let mut o = Out::new();
  let lines = lines_of(path);
  children(&mut o, lines.len(), path, &["C17", "C18"], |_| false, |i, found, cnt| {
    let j = &lines[i];
    let want = norm(&j["p"]);
    let users = norm(&j["users"]);
    let tmpl = strs(j, "text");
    *cnt.entry("programs".into()).or_default() += 1;
    let mut hit = |p: &[&'static str], m: String, t: &str| found.push((p.to_vec(), m, t.into()));
    let src = strs(j, "src");
    let mut raws: Vec<(&str, RawProg, P)> = vec![];
    unsafe {
      if !src.is_empty() {
        let text = render(&src, &names_of(j), &[]);
        let (r, p) = lib.parse(&text);
        if r != 0 {
          return hit(&["C10", "C20"], format!("a well-formed program was rejected: {r}"), &text);
        }
        let b = (lib.newb)();
        let raw = (lib.build)(b, p);
        let again = (lib.build)(b, p);
        (lib.delete)(p);
        for (k, r) in [("raw form", &raw), ("raw form built again", &again)] {
          if let Some(d) = compare(r, &want, Some(&users)) {
            return hit(&["C17"], format!("{k}: {d}"), &text);
          }
        }
        raws.push(("built raw form", raw, b));
      } else {
        for v in 0..2 {
          let bit = |k: usize| (i >> k) & 1 == v;
          let m = Make::new(&want, Opts { share_ty: bit(0), share_const: bit(1), users: bit(2) });
          raws.push(("raw form", m.raw(), std::ptr::null_mut()));
        }
      }
      for (k, raw, b) in raws {
        *cnt.entry("generated".into()).or_default() += 1;
        let (r, q) = lib.gen_raw(&raw);
        let text = format!("{want}");
        if r != 0 {
          return hit(&["C18"], format!("generating from a {k} gives {r}"), &text);
        }
        if !b.is_null() {
          (lib.delb)(b);
        }
        match lib.text(q, 0) {
          Err(e) => return hit(&["C20"], e, &text),
          Ok(t) => {
            if let Err(e) = match_text(&t, &tmpl) {
              return hit(&["C18"], format!("the program generated from a {k} is another: {e}"), &t);
            }
          }
        }
        let b = (lib.newb)();
        let raw2 = (lib.build)(b, q);
        (lib.delete)(q);
        if let Some(d) = compare(&raw2, &want, Some(&users)) {
          return hit(&["C18", "C17"], format!("through the {k}: {d}"), &text);
        }
        let (r, q) = lib.gen_raw(&raw2);
        if r != 0 {
          return hit(&["C18"], format!("generating from its own raw form gives {r}"), &text);
        }
        (lib.delb)(b);
        (lib.delete)(q);
      }
    }
  });
  o.end();
}

/// Raw programs with faults must be refused with the right code.
fn m_fault(path: &str, lib: &Lib) {
  let mut o = Out::new();
  let lines = lines_of(path);
  let wants: Vec<J> = lines.iter().map(|j| norm(&j["p"])).collect();
  // one item per fault, so that a crash tells which
  let items: Vec<(usize, Option<&J>)> = lines
    .iter()
    .enumerate()
    .flat_map(|(i, j)| std::iter::once((i, None)).chain(arr(j, "faults").iter().map(move |f| (i, Some(f)))))
    .collect();
  let plain = Opts { share_ty: false, share_const: false, users: false };
  children(&mut o, items.len(), path, &["C19"], |_| false, |k, found, cnt| {
    let (i, fault) = items[k];
    let mut m = Make::new(&wants[i], plain);
    let Some(fs) = fault else {
      *cnt.entry("programs".into()).or_default() += 1;
      let (r, q) = lib.gen_raw(&m.raw());
      if r != 0 {
        found.push((vec!["C18"], format!("generating gives {r}"), format!("{}", wants[i])));
      } else {
        unsafe { (lib.delete)(q) };
      }
      return;
    };
    let fs = fs.as_array().unwrap();
    let mut codes = BTreeSet::new();
    unsafe {
      let sites: Vec<_> = fs.iter().map(|x| m.site(arr(x, "at"))).collect();
      for (x, st) in fs.iter().zip(sites) {
        m.fault(st, x);
        codes.extend(nums(x, "e").into_iter().map(code));
        *cnt.entry(format!("fault {}", s(x, "w").trim_end_matches(|c: char| c.is_ascii_digit()))).or_default() += 1;
      }
    }
    *cnt.entry("faults".into()).or_default() += 1;
    let (r, q) = lib.gen_raw(&m.raw());
    let what = || format!("{}", J::Array(fs.clone()));
    if !codes.contains(&r) {
      found.push((vec!["C19"], format!("fault {} gives {r}, expected {codes:?}", what()), format!("{}", wants[i])));
    } else if q != UNTOUCHED {
      found.push((vec!["C19"], format!("fault {} is reported, but the output is written", what()), format!("{}", wants[i])));
    }
  });
  // which program
  for x in &mut o.found {
    let k = x["i"].as_u64().unwrap() as usize;
    if let Some(f) = items[k].1 {
      x["msg"] = json!(format!("{} [{f}]", x["msg"].as_str().unwrap()));
    }
    x["i"] = json!(items[k].0);
  }
  o.end();
}

/// Codes by the names that koopa.h gives them.
fn code(n: usize) -> c_int {
  const NAMES: [&str; 11] = [
    "SUCCESS",
    "INVALID_UTF8_STRING",
    "INVALID_FILE",
    "INVALID_KOOPA_PROGRAM",
    "IO_ERROR",
    "NULL_BYTE_ERROR",
    "INSUFFICIENT_BUFFER_LENGTH",
    "RAW_SLICE_ITEM_KIND_MISMATCH",
    "NULL_POINTER_ERROR",
    "TYPE_MISMATCH",
    "FUNC_PARAM_NUM_MISMATCH",
  ];
  lay(&format!("EC_{}", NAMES[n])) as c_int
}

struct Text {
  src: Vec<u8>,
  listing: J,
  users: J,
  /// nothing where the library does not answer either
  out: [Option<String>; 2],
}

/// Histories of calls.
fn m_capi(path: &str, lib: &Lib, texts: &str, bad: &str) {
  let mut o = Out::new();
  let lines = lines_of(path);
  let mut pool: Vec<Text> = lines_of(texts)
    .iter()
    .map(|j| {
      let t = render(&strs(j, "src"), &names_of(j), &[]);
      let p = parse(&t).ok().and_then(|r| r.ok());
      let k = p.as_ref().and_then(|p| print(p).ok());
      let l = crate::exec::to_llvm(&t).ok();
      Text { src: t.into_bytes(), listing: norm(&j["p"]), users: norm(&j["users"]), out: [k, l] }
    })
    .collect();
  for j in lines_of(bad) {
    let src = if j.get("b").is_some() { crate::lexm::bytes_of(&j) } else { token_text(&j).into_bytes() };
    pool.push(Text { src, listing: json!(0), users: json!([]), out: Default::default() });
  }
  let dir = format!("{path}.d");
  std::fs::create_dir_all(&dir).unwrap();
  // standard input is read ahead
  let reads = |i: usize| arr(&lines[i], "h").iter().any(|e| s(e, "via") == "stdio" && s(e, "op") == "parse");
  children(&mut o, lines.len(), path, &["C17", "C20"], reads, |i, found, cnt| {
    *cnt.entry("histories".into()).or_default() += 1;
    let j = &lines[i];
    let mut c = Run { lib, pool: &pool, dir: &dir, progs: HashMap::new(), bld: HashMap::new(), raws: HashMap::new(), spare: vec![] };
    for (k, e) in arr(j, "h").iter().enumerate() {
      *cnt.entry(format!("call {} {}", s(e, "op"), s(e, "via"))).or_default() += 1;
      if let Err((ps, m)) = unsafe { c.step(e) } {
        found.push((ps, format!("step {}: {e}: {m}", k + 1), format!("{}", j["h"])));
        return;
      }
    }
    // what is alive in the end
    let end = &j["end"];
    for (r, t) in nums(end, "raws").iter().enumerate() {
      if *t > 0
        && let Err((ps, m)) = c.read(r + 1, *t)
      {
        found.push((ps, format!("at the end, raw form {}: {m}", r + 1), format!("{}", j["h"])));
        return;
      }
    }
    for (p, t) in nums(end, "progs").iter().enumerate() {
      if *t > 0 {
        let (h, x) = c.progs[&(p + 1)];
        let got = lib.text(h, 0);
        if x != *t || got.as_ref().ok() != pool[*t - 1].out[0].as_ref() {
          found.push((vec!["C20", "C18"], format!("at the end, program {}: {got:?}", p + 1), format!("{}", j["h"])));
          return;
        }
        unsafe { (lib.delete)(h) };
      }
    }
    for b in c.bld.values() {
      unsafe { (lib.delb)(*b) };
    }
  });
  std::fs::remove_dir_all(&dir).unwrap();
  o.end();
}

/// The incoming values of a phi have no order.
fn no_order(t: &str) -> String {
  let line = |l: &str| match l.split_once(" = phi ") {
    None => l.to_string(),
    Some((a, b)) => {
      let mut ws: Vec<&str> = b.split(|c: char| " ,[]".contains(c)).collect();
      ws.sort();
      format!("{a} = phi {}", ws.join(" "))
    }
  };
  t.lines().map(line).collect::<Vec<_>>().join("\n")
}

struct Run<'a> {
  lib: &'a Lib,
  pool: &'a [Text],
  dir: &'a str,
  progs: HashMap<usize, (P, usize)>,
  bld: HashMap<usize, P>,
  raws: HashMap<usize, RawProg>,
  spare: Vec<Vec<u8>>,
}
type Bad = (Vec<&'static str>, String);
fn c20(m: String) -> Bad {
  (vec!["C20"], m)
}

fn fd_of(p: &str, write: bool) -> c_int {
  let f = if write { std::fs::File::create(p) } else { std::fs::File::open(p) };
  f.unwrap().into_raw_fd()
}

impl Run<'_> {
  fn read(&self, r: usize, t: usize) -> Result<(), Bad> {
    let x = &self.pool[t - 1];
    match compare(&self.raws[&r], &x.listing, Some(&x.users)) {
      Some(d) => Err((vec!["C17"], d)),
      None => Ok(()),
    }
  }

  unsafe fn step(&mut self, e: &J) -> Result<(), Bad> {
    unsafe {
      let codes: Vec<c_int> = nums(e, "e").into_iter().map(code).collect();
      let (a, b) = (n(e, "a"), n(e, "b"));
      let path = format!("{}/f", self.dir);
      let cpath = CString::new(path.clone()).unwrap();
      let check = |r: c_int| if codes.contains(&r) { Ok(()) } else { Err(c20(format!("returns {r}"))) };
      match s(e, "op") {
        "parse" | "badparse" => {
          let mut out = UNTOUCHED;
          let src: &[u8] = if a > 0 { &self.pool[a - 1].src } else { b"" };
          let good = "fun @f() {\n%e:\n  ret\n}\n";
          let r = match s(e, "via") {
            "str" => {
              // the string may go away right after the call
              let c = CString::new(src).unwrap();
              let r = (self.lib.parse_str)(c.as_ptr(), &mut out);
              let mut v = c.into_bytes();
              v.fill(b'#');
              self.spare.push(v);
              r
            }
            "file" => {
              std::fs::write(&path, src).unwrap();
              (self.lib.parse_file)(cpath.as_ptr(), &mut out)
            }
            "raw" => {
              std::fs::write(&path, src).unwrap();
              (self.lib.parse_raw)(fd_of(&path, false), &mut out)
            }
            "stdio" => {
              std::fs::write(&path, src).unwrap();
              let f = std::fs::File::open(&path).unwrap();
              dup2(f.as_raw_fd(), 0);
              (self.lib.parse_stdin)(&mut out)
            }
            "path8" => {
              let c = CString::new([self.dir.as_bytes(), b"/\xff"].concat()).unwrap();
              (self.lib.parse_file)(c.as_ptr(), &mut out)
            }
            "str8" => {
              let c = CString::new([good.as_bytes(), b"// \xff\xfe\n"].concat()).unwrap();
              (self.lib.parse_str)(c.as_ptr(), &mut out)
            }
            "missing" => {
              let c = CString::new(format!("{}/none", self.dir)).unwrap();
              (self.lib.parse_file)(c.as_ptr(), &mut out)
            }
            "dir" => {
              let c = CString::new(self.dir).unwrap();
              (self.lib.parse_file)(c.as_ptr(), &mut out)
            }
            _ => (self.lib.parse_raw)(fd_of(&path, true), &mut out),
          };
          check(r)?;
          if r == code(0) {
            if out == UNTOUCHED || out.is_null() {
              return Err(c20("success without a program".into()));
            }
            self.progs.insert(b, (out, a));
          } else if out != UNTOUCHED {
            return Err(c20("the output is written although the call fails".into()));
          }
        }
        "dump" => {
          let (h, t) = self.progs[&a];
          let Some(want) = &self.pool[t - 1].out[b] else { return Ok(()) };
          let k = want.len();
          let got: Vec<u8> = match s(e, "via") {
            "str" => {
              let size = match s(e, "c") {
                "null" => None,
                "0" => Some(0),
                "1" => Some(1),
                "half" => Some(k / 2),
                "n-1" => Some(k.max(1) - 1),
                "n" => Some(k),
                "n+1" => Some(k + 1),
                "n+2" => Some(k + 2),
                _ => Some(k + 100),
              };
              let Some(size) = size else {
                let mut len = 0xdead_beefusize;
                let r = (self.lib.dump_str[b])(h, std::ptr::null_mut(), &mut len);
                check(r)?;
                return if len == k { Ok(()) } else { Err(c20(format!("the length is said to be {len}, not {k}"))) };
              };
              let mut buf = vec![0xa5u8; size + 64];
              let mut len = size;
              let r = (self.lib.dump_str[b])(h, buf.as_mut_ptr().add(32) as *mut c_char, &mut len);
              if buf[..32].iter().chain(&buf[32 + size..]).any(|x| *x != 0xa5) {
                return Err(c20("the buffer is overrun".into()));
              }
              if k == 0 && size > k && r == code(0) {
                return Ok(()); // "1" has room for the empty text
              }
              if size > k { if r != code(0) { return Err(c20(format!("returns {r}"))) } } else { return check(r) }
              if buf[32 + k] != 0 {
                return Err(c20("no terminator after the text".into()));
              }
              buf[32..32 + k].to_vec()
            }
            "file" => {
              std::fs::write(&path, vec![b'x'; k + 50]).unwrap();
              check((self.lib.dump_file[b])(h, cpath.as_ptr()))?;
              std::fs::read(&path).unwrap()
            }
            "raw" => {
              check((self.lib.dump_raw[b])(h, fd_of(&path, true)))?;
              std::fs::read(&path).unwrap()
            }
            _ => {
              let f = std::fs::File::create(&path).unwrap();
              dup2(f.as_raw_fd(), 1);
              check((self.lib.dump_out[b])(h))?;
              std::fs::read(&path).unwrap()
            }
          };
          if got.len() != k || got != want.as_bytes() && no_order(&String::from_utf8_lossy(&got)) != no_order(want) {
            return Err(c20(format!("the text is not the library's: {}", String::from_utf8_lossy(&got))));
          }
        }
        "baddump" => {
          let (h, t) = self.progs[&a];
          if self.pool[t - 1].out[b].as_ref().is_none_or(|x| x.is_empty()) {
            return Ok(());
          }
          let r = match s(e, "via") {
            "path8" => {
              let c = CString::new([self.dir.as_bytes(), b"/\xff"].concat()).unwrap();
              let r = (self.lib.dump_file[b])(h, c.as_ptr());
              if std::fs::read_dir(self.dir).unwrap().any(|f| f.unwrap().file_name().to_str().is_none()) {
                return Err(c20("a file was made".into()));
              }
              r
            }
            "nodir" => {
              let c = CString::new(format!("{}/none/f", self.dir)).unwrap();
              (self.lib.dump_file[b])(h, c.as_ptr())
            }
            "isdir" => {
              let c = CString::new(self.dir).unwrap();
              (self.lib.dump_file[b])(h, c.as_ptr())
            }
            "full" => (self.lib.dump_file[b])(h, c"/dev/full".as_ptr()),
            _ => {
              std::fs::write(&path, "x").unwrap();
              (self.lib.dump_raw[b])(h, fd_of(&path, false))
            }
          };
          check(r)?;
        }
        "delete" => {
          let (h, _) = self.progs.remove(&a).unwrap();
          (self.lib.delete)(h);
        }
        "newb" => {
          let h = (self.lib.newb)();
          self.bld.insert(a, h);
        }
        "delb" => {
          let h = self.bld.remove(&a).unwrap();
          (self.lib.delb)(h);
        }
        "build" => {
          let r = (self.lib.build)(self.bld[&a], self.progs[&b].0);
          self.raws.insert(n(e, "c"), r);
        }
        "read" => self.read(a, b)?,
        "gen" => {
          let (r, q) = self.lib.gen_raw(&self.raws[&a]);
          if r != 0 {
            return Err((vec!["C18"], format!("generating gives {r}")));
          }
          self.progs.insert(b, (q, n(e, "c")));
        }
        x => panic!("event {x}"),
      }
      Ok(())
    }
  }
}

pub fn main(mode: &str, a: &[String]) {
  load_layout(&a[1]);
  let lib = Lib::open(&a[2]);
  match mode {
    "raw" => m_raw(&a[0], &lib),
    "fault" => m_fault(&a[0], &lib),
    _ => m_capi(&a[0], &lib, &a[3], &a[4]),
  }
}
