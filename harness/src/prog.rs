//! Whole programs: listing, building, parsing, printing.
use crate::util::*;
use koopa::back::KoopaGenerator;
use koopa::front::Driver;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::FunctionData;
use koopa::ir::*;
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, HashMap};

// ------------------------------------------------------------------ listing
struct Lister<'a> {
  p: &'a Program,
  g: HashMap<Value, usize>,
  f: HashMap<Function, usize>,
}

/// What a program is, in the shape of `PJ` of spec/Prog.tla.
pub fn listing(p: &Program) -> J {
  let g: HashMap<_, _> = p.inst_layout().iter().enumerate().map(|(i, v)| (*v, i + 1)).collect();
  let f = p.func_layout().iter().enumerate().map(|(i, v)| (*v, i + 1)).collect();
  let l = Lister { p, g, f };
  let none = HashMap::new();
  let gs: Vec<J> = p
    .inst_layout()
    .iter()
    .map(|v| {
      let d = p.borrow_value(*v);
      let init = match d.kind() {
        ValueKind::GlobalAlloc(a) => l.op(None, &none, a.init()),
        _ => "?not an allocation".into(),
      };
      json!({"nm": nm(d.name()), "init": init})
    })
    .collect();
  let fs: Vec<J> = p.func_layout().iter().map(|f| l.func(p.func(*f))).collect();
  json!({"gs": gs, "fs": fs})
}

fn nm(n: &Option<String>) -> String {
  n.clone().unwrap_or_default()
}

impl Lister<'_> {
  fn op(&self, f: Option<&FunctionData>, m: &HashMap<Value, String>, v: Value) -> String {
    if let Some(i) = self.g.get(&v) {
      return format!("g{i}");
    }
    if let Some(s) = m.get(&v) {
      return s.clone();
    }
    if v.is_global() {
      let Some(d) = self.p.borrow_values().get(&v).cloned() else { return "?gone".into() };
      self.konst(f, m, d.kind(), d.ty())
    } else {
      match f.and_then(|f| f.dfg().values().get(&v)) {
        Some(d) => self.konst(f, m, d.kind(), d.ty()),
        None => "?gone".into(),
      }
    }
  }

  fn konst(&self, f: Option<&FunctionData>, m: &HashMap<Value, String>, k: &ValueKind, ty: &Type) -> String {
    match k {
      ValueKind::Integer(i) if matches!(ty.kind(), TypeKind::Int32) => format!("#{}", i.value()),
      ValueKind::ZeroInit(_) => format!("zero:{}", ty_str(ty)),
      ValueKind::Undef(_) => format!("undef:{}", ty_str(ty)),
      ValueKind::Aggregate(a) => {
        let es: Vec<_> = a.elems().iter().map(|e| self.op(f, m, *e)).collect();
        format!("agg{{{}}}", es.join("; "))
      }
      _ => "?not placed".into(),
    }
  }

  fn func(&self, f: &FunctionData) -> J {
    let (pts, rt) = match f.ty().kind() {
      TypeKind::Function(p, r) => (p.iter().map(ty_str).collect::<Vec<_>>(), ty_str(r)),
      _ => (vec![], "?".into()),
    };
    let decl = f.layout().bbs().is_empty();
    let mut m = HashMap::new();
    let mut bad = vec![];
    for (i, p) in f.params().iter().enumerate() {
      m.insert(*p, format!("p{}", i + 1));
      let d = f.dfg().value(*p);
      if !matches!(d.kind(), ValueKind::FuncArgRef(a) if a.index() == i) || Some(&ty_str(d.ty())) != pts.get(i) {
        bad.push(format!("parameter {}", i + 1));
      }
    }
    let bbs: Vec<BasicBlock> = f.layout().bbs().iter().map(|(b, _)| *b).collect();
    let bn: HashMap<BasicBlock, usize> = bbs.iter().enumerate().map(|(i, b)| (*b, i + 1)).collect();
    if f.layout().entry_bb() != bbs.first().copied() {
      bad.push("entry".into());
    }
    for b in &bbs {
      for (i, p) in f.dfg().bb(*b).params().iter().enumerate() {
        m.insert(*p, format!("b{}.{}", bn[b], i + 1));
        if !matches!(f.dfg().value(*p).kind(), ValueKind::BlockArgRef(a) if a.index() == i) {
          bad.push(format!("block parameter {}.{}", bn[b], i + 1));
        }
      }
      for (i, (v, _)) in f.layout().bbs().node(b).unwrap().insts().iter().enumerate() {
        m.insert(*v, format!("i{}.{}", bn[b], i + 1));
        if f.layout().parent_bb(*v) != Some(*b) {
          bad.push(format!("parent of {}.{}", bn[b], i + 1));
        }
      }
    }
    let bs: Vec<J> = bbs
      .iter()
      .map(|b| {
        let d = f.dfg().bb(*b);
        let pts: Vec<_> = d.params().iter().map(|p| ty_str(f.dfg().value(*p).ty())).collect();
        let pnm: Vec<_> = d.params().iter().map(|p| nm(f.dfg().value(*p).name())).collect();
        let is: Vec<J> = f
          .layout()
          .bbs()
          .node(b)
          .unwrap()
          .insts()
          .iter()
          .map(|(v, _)| self.inst(f, &m, &bn, *v))
          .collect();
        json!({"nm": nm(d.name()), "pts": pts, "pnm": pnm, "is": is})
      })
      .collect();
    let pnm: Vec<_> = f.params().iter().map(|p| nm(f.dfg().value(*p).name())).collect();
    let mut r = json!({"nm": f.name(), "decl": decl, "pts": pts, "pnm": pnm, "rt": rt, "bs": bs});
    if !bad.is_empty() {
      r["bad"] = json!(bad);
    }
    r
  }

  fn inst(&self, f: &FunctionData, m: &HashMap<Value, String>, bn: &HashMap<BasicBlock, usize>, v: Value) -> J {
    let d = f.dfg().value(v);
    let o = |v: Value| self.op(Some(f), m, v);
    let os = |vs: &[Value]| vs.iter().map(|v| o(*v)).collect::<Vec<_>>();
    let b = |b: BasicBlock| bn.get(&b).copied().unwrap_or(0);
    let (mut x, mut fnc, mut bbs, mut nt) = ("", 0, vec![], 0);
    let (k, ops) = match d.kind() {
      ValueKind::Alloc(_) => ("alloc", vec![]),
      ValueKind::Load(i) => ("load", vec![o(i.src())]),
      ValueKind::Store(i) => ("store", vec![o(i.value()), o(i.dest())]),
      ValueKind::GetPtr(i) => ("getptr", vec![o(i.src()), o(i.index())]),
      ValueKind::GetElemPtr(i) => ("getelemptr", vec![o(i.src()), o(i.index())]),
      ValueKind::Binary(i) => {
        x = opstr(i.op());
        ("binary", vec![o(i.lhs()), o(i.rhs())])
      }
      ValueKind::Branch(i) => {
        bbs = vec![b(i.true_bb()), b(i.false_bb())];
        nt = i.true_args().len();
        let mut r = vec![o(i.cond())];
        r.extend(os(i.true_args()));
        r.extend(os(i.false_args()));
        ("branch", r)
      }
      ValueKind::Jump(i) => {
        bbs = vec![b(i.target())];
        ("jump", os(i.args()))
      }
      ValueKind::Call(i) => {
        fnc = self.f.get(&i.callee()).copied().unwrap_or(0);
        ("call", os(i.args()))
      }
      ValueKind::Return(i) => ("ret", i.value().map(o).into_iter().collect()),
      _ => ("?", vec![]),
    };
    json!({"k": k, "ty": ty_str(d.ty()), "nm": nm(d.name()), "ops": ops, "x": x, "fn": fnc, "bbs": bbs, "n": nt})
  }
}

pub fn opname(x: &str) -> BinaryOp {
  crate::ir::opname(x)
}
pub fn opstr(o: BinaryOp) -> &'static str {
  crate::ir::opstr(o)
}

/// TLC prints empty sequences as {} or [].
pub fn norm(j: &J) -> J {
  match j {
    J::Object(o) if o.is_empty() => json!([]),
    J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
    J::Array(a) => J::Array(a.iter().map(norm).collect()),
    x => x.clone(),
  }
}

/// First difference between two JSON values.
pub fn diff(a: &J, b: &J, path: &str) -> Option<String> {
  if a == b {
    return None;
  }
  match (a, b) {
    (J::Object(x), J::Object(y)) => {
      for (k, v) in x {
        match y.get(k) {
          Some(w) => {
            if let Some(d) = diff(v, w, &format!("{path}.{k}")) {
              return Some(d);
            }
          }
          None => return Some(format!("{path}.{k}: expected {v}, got nothing")),
        }
      }
      Some(format!("{path}: got {b}"))
    }
    (J::Array(x), J::Array(y)) if x.len() == y.len() => {
      x.iter().zip(y).enumerate().find_map(|(i, (v, w))| diff(v, w, &format!("{path}[{}]", i + 1)))
    }
    _ => Some(format!("{path}: expected {a}, got {b}")),
  }
}

/// The listing without names.
pub fn no_names(j: &J) -> J {
  match j {
    J::Object(o) => J::Object(
      o.iter().filter(|(k, _)| *k != "nm" && *k != "pnm").map(|(k, v)| (k.clone(), no_names(v))).collect(),
    ),
    J::Array(a) => J::Array(a.iter().map(no_names).collect()),
    x => x.clone(),
  }
}

// ----------------------------------------------------------------- building
/// Builds a program from its listing through the API.  With `share`, equal
/// constants of a function are one value.
pub fn build(l: &J, share: bool) -> Program {
  let mut p = Program::new();
  let opt = |s: &str| (!s.is_empty()).then(|| s.to_string());
  let mut gv = vec![];
  for g in arr(l, "gs") {
    let init = gconst(&mut p, s(g, "init"));
    let v = p.new_value().global_alloc(init);
    p.set_value_name(v, opt(s(g, "nm")));
    gv.push(v);
  }
  let mut fh = vec![];
  for f in arr(l, "fs") {
    let pts: Vec<Type> = strs(f, "pts").iter().map(|t| parse_ty(t)).collect();
    let rt = parse_ty(s(f, "rt"));
    let h = if f["decl"].as_bool().unwrap() {
      p.new_func_decl(s(f, "nm").into(), pts, rt)
    } else {
      let ps = strs(f, "pnm").iter().map(|n| opt(n)).zip(pts).collect();
      p.new_func_def_with_param_names(s(f, "nm").into(), ps, rt)
    };
    fh.push(h);
  }
  for (fi, f) in arr(l, "fs").iter().enumerate() {
    if f["decl"].as_bool().unwrap() {
      continue;
    }
    let fd = p.func_mut(fh[fi]);
    let mut bh = vec![];
    for b in arr(f, "bs") {
      let ps: Vec<_> =
        strs(b, "pnm").iter().map(|n| opt(n)).zip(strs(b, "pts").iter().map(|t| parse_ty(t))).collect();
      let b = if ps.is_empty() {
        fd.dfg_mut().new_bb().basic_block(opt(s(b, "nm")))
      } else if ps.iter().all(|p| p.0.is_none()) {
        fd.dfg_mut().new_bb().basic_block_with_params(opt(s(b, "nm")), ps.into_iter().map(|p| p.1).collect())
      } else {
        fd.dfg_mut().new_bb().basic_block_with_param_names(opt(s(b, "nm")), ps)
      };
      bh.push(b);
    }
    let params = fd.params().to_vec();
    let bps: Vec<Vec<Value>> = bh.iter().map(|b| fd.dfg().bb(*b).params().to_vec()).collect();
    let mut fb = FBuild {
      f,
      fd,
      gv: &gv,
      fh: &fh,
      bh: &bh,
      params,
      bps,
      memo: HashMap::new(),
      consts: HashMap::new(),
      share,
    };
    for (bi, b) in arr(f, "bs").iter().enumerate() {
      fb.fd.layout_mut().bbs_mut().push_key_back(bh[bi]).ok().unwrap();
      for ii in 0..arr(b, "is").len() {
        let v = fb.inst(bi, ii);
        fb.fd.layout_mut().bb_mut(bh[bi]).insts_mut().push_key_back(v).ok().unwrap();
      }
    }
  }
  p
}

pub fn split_agg(s: &str) -> Vec<&str> {
  let inner = &s[4..s.len() - 1];
  let (mut d, mut st, mut r) = (0, 0, vec![]);
  for (i, c) in inner.char_indices() {
    match c {
      '{' => d += 1,
      '}' => d -= 1,
      ';' if d == 0 => {
        r.push(inner[st..i].trim());
        st = i + 1;
      }
      _ => {}
    }
  }
  r.push(inner[st..].trim());
  r
}

fn gconst(p: &mut Program, o: &str) -> Value {
  if let Some(n) = o.strip_prefix('#') {
    p.new_value().integer(n.parse().unwrap())
  } else if let Some(t) = o.strip_prefix("undef:") {
    p.new_value().undef(parse_ty(t))
  } else if let Some(t) = o.strip_prefix("zero:") {
    p.new_value().zero_init(parse_ty(t))
  } else {
    let es = split_agg(o).iter().map(|e| gconst(p, e)).collect();
    p.new_value().aggregate(es)
  }
}

struct FBuild<'a> {
  f: &'a J,
  fd: &'a mut FunctionData,
  gv: &'a [Value],
  fh: &'a [Function],
  bh: &'a [BasicBlock],
  params: Vec<Value>,
  bps: Vec<Vec<Value>>,
  memo: HashMap<(usize, usize), Value>,
  consts: HashMap<String, Value>,
  share: bool,
}

impl FBuild<'_> {
  fn op(&mut self, o: &str) -> Value {
    let two = |s: &str| {
      let (a, b) = s.split_once('.').unwrap();
      (a.parse::<usize>().unwrap() - 1, b.parse::<usize>().unwrap() - 1)
    };
    let c = o.as_bytes()[0];
    if c == b'g' {
      return self.gv[o[1..].parse::<usize>().unwrap() - 1];
    }
    if c == b'p' {
      return self.params[o[1..].parse::<usize>().unwrap() - 1];
    }
    if c == b'b' {
      let (b, i) = two(&o[1..]);
      return self.bps[b][i];
    }
    if c == b'i' {
      let (b, i) = two(&o[1..]);
      return self.inst(b, i);
    }
    if self.share
      && let Some(v) = self.consts.get(o)
    {
      return *v;
    }
    let v = if let Some(n) = o.strip_prefix('#') {
      self.fd.dfg_mut().new_value().integer(n.parse().unwrap())
    } else if let Some(t) = o.strip_prefix("undef:") {
      self.fd.dfg_mut().new_value().undef(parse_ty(t))
    } else if let Some(t) = o.strip_prefix("zero:") {
      self.fd.dfg_mut().new_value().zero_init(parse_ty(t))
    } else {
      let es = split_agg(o).iter().map(|e| self.op(e)).collect();
      self.fd.dfg_mut().new_value().aggregate(es)
    };
    self.consts.insert(o.to_string(), v);
    v
  }

  fn inst(&mut self, b: usize, i: usize) -> Value {
    if let Some(v) = self.memo.get(&(b, i)) {
      return *v;
    }
    let j = &arr(&arr(self.f, "bs")[b], "is")[i];
    let ops: Vec<Value> = strs(j, "ops").iter().map(|o| self.op(o)).collect();
    let bbs: Vec<BasicBlock> = nums(j, "bbs").iter().map(|b| self.bh[*b - 1]).collect();
    let nt = n(j, "n");
    let ty = parse_ty(s(j, "ty"));
    let callee = (n(j, "fn") > 0).then(|| self.fh[n(j, "fn") - 1]);
    let nv = self.fd.dfg_mut().new_value();
    let v = match s(j, "k") {
      "alloc" => match ty.kind() {
        TypeKind::Pointer(t) => nv.alloc(t.clone()),
        _ => panic!(),
      },
      "load" => nv.load(ops[0]),
      "store" => nv.store(ops[0], ops[1]),
      "getptr" => nv.get_ptr(ops[0], ops[1]),
      "getelemptr" => nv.get_elem_ptr(ops[0], ops[1]),
      "binary" => nv.binary(opname(s(j, "x")), ops[0], ops[1]),
      "branch" => {
        if ops.len() == 1 && i % 2 == 0 {
          nv.branch(ops[0], bbs[0], bbs[1])
        } else {
          nv.branch_with_args(ops[0], bbs[0], bbs[1], ops[1..1 + nt].to_vec(), ops[1 + nt..].to_vec())
        }
      }
      "jump" => {
        if ops.is_empty() && i % 2 == 0 {
          nv.jump(bbs[0])
        } else {
          nv.jump_with_args(bbs[0], ops)
        }
      }
      "call" => nv.call(callee.unwrap(), ops),
      "ret" => nv.ret(ops.first().copied()),
      k => panic!("kind {k}"),
    };
    let nm = s(j, "nm");
    if !nm.is_empty() {
      self.fd.dfg_mut().set_value_name(v, Some(nm.into()));
    }
    self.memo.insert((b, i), v);
    v
  }
}

// ------------------------------------------------------------------- tokens
/// Splits text (or a template) into tokens; independent of the library.
pub fn tokens(t: &str) -> Vec<String> {
  let c: Vec<char> = t.chars().collect();
  let mut i = 0;
  let mut r = vec![];
  while i < c.len() {
    if c[i].is_whitespace() {
      i += 1;
      continue;
    }
    let st = i;
    let word = |x: char| x.is_alphanumeric() || x == '_' || x == '$';
    i += 1;
    if "@%$-".contains(c[st]) || word(c[st]) {
      while i < c.len() && word(c[i]) {
        i += 1;
      }
    }
    r.push(c[st..i].iter().collect());
  }
  r
}

/// Fills names into the lines of a template; `seps` are put between tokens
/// wherever that is allowed.
pub fn render(lines: &[String], names: &HashMap<String, String>, seps: &[String]) -> String {
  let mut out = String::new();
  let mut k = 0;
  for l in lines {
    let ts = tokens(l);
    for (i, t) in ts.iter().enumerate() {
      let x = names.get(t).map(|s| s.as_str()).unwrap_or(t);
      if i > 0 {
        if seps.is_empty() || ts[i - 1] == "ret" {
          out.push(' ');
        } else {
          out.push_str(&seps[k % seps.len()]);
          k += 1;
        }
      }
      out.push_str(x);
    }
    if seps.is_empty() || ts[0] == "ret" {
      out.push('\n');
    } else {
      out.push_str(&seps[k % seps.len()]);
      k += 1;
    }
  }
  out
}

pub fn parse(text: &str) -> Result<Result<Program, String>, String> {
  guard(|| {
    let d: Driver<_> = text.to_string().into();
    d.generate_program().map_err(|e| format!("{e:?}"))
  })
}

pub fn print(p: &Program) -> Result<String, String> {
  guard(|| {
    let mut g = KoopaGenerator::new(Vec::new());
    g.generate_on(p).unwrap();
    String::from_utf8(g.writer()).unwrap()
  })
}

pub struct Out {
  pub found: Vec<J>,
  pub n: BTreeMap<String, usize>,
}
impl Out {
  pub fn new() -> Self {
    Out { found: vec![], n: BTreeMap::new() }
  }
  pub fn hit(&mut self, i: usize, props: &[&str], msg: String, text: &str) {
    self.add("found", 1);
    if self.found.len() < 20 {
      let m: String = msg.chars().take(1200).collect();
      self.found.push(json!({"i": i, "props": props, "msg": m, "text": text}));
    }
  }
  pub fn add(&mut self, k: &str, n: usize) {
    *self.n.entry(k.into()).or_default() += n;
  }
  pub fn end(self) {
    println!("{}", json!({"found": self.found, "n": self.n}));
  }
}

pub fn names_of(j: &J) -> HashMap<String, String> {
  arr(j, "names")
    .iter()
    .map(|e| (e[0].as_str().unwrap().to_string(), e[1].as_str().unwrap().to_string()))
    .collect()
}

pub fn lines_of(path: &str) -> Vec<J> {
  std::fs::read_to_string(path).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}

/// Block structure only: names of blocks in order, and their targets.
fn shape(l: &J) -> J {
  J::Array(
    arr(l, "fs")
      .iter()
      .map(|f| {
        J::Array(
          arr(f, "bs")
            .iter()
            .map(|b| json!([b["nm"], b["pts"], arr(b, "is").last().map(|i| i["bbs"].clone())]))
            .collect(),
        )
      })
      .collect(),
  )
}

/// Texts of well-formed programs must be accepted and mean their listing.
fn m_parse(path: &str) {
  let mut o = Out::new();
  for (i, j) in lines_of(path).iter().enumerate() {
    let want = norm(&j["p"]);
    let names = names_of(j);
    let src = strs(j, "src");
    let seps = strs(j, "seps");
    o.add("programs", 1);
    for (wild, sp) in [(false, &[][..]), (true, &seps[..])] {
      let text = render(&src, &names, sp);
      o.add("tokens", src.iter().map(|l| tokens(l).len()).sum());
      // odd separators alone can not change anything
      let (rej, oth, blk): (&[&str], &[&str], &[&str]) =
        if wild { (&["C25", "C10"], &["C25", "C10"], &["C25", "C10"]) } else { (&["C10", "C14"], &["C10"], &["C10", "C14"]) };
      match parse(&text) {
        Err(e) => {
          o.hit(i, &["C12", rej[0]], format!("parsing a well-formed program panicked: {e}"), &text);
          break;
        }
        Ok(Err(e)) => {
          o.hit(i, rej, format!("a well-formed program was rejected: {e}"), &text);
          break;
        }
        Ok(Ok(p)) => {
          let got = listing(&p);
          if let Some(d) = diff(&shape(&want), &shape(&got), "blocks") {
            o.hit(i, blk, format!("wrong blocks: {d}"), &text);
            break;
          }
          if let Some(d) = diff(&want, &got, "p") {
            o.hit(i, oth, format!("the program is not what the text says: {d}"), &text);
            break;
          }
        }
      }
    }
  }
  o.end();
}

pub fn token_text(j: &J) -> String {
  let mut text = String::new();
  for (t, n) in strs(j, "t").iter().zip(nums(j, "nl")) {
    text.push(if n == 1 { '\n' } else { ' ' });
    text.push_str(t);
  }
  text.push('\n');
  text
}

/// Any text: the outcome must be the one the specification gives it.
fn m_front(path: &str, plain: bool) {
  let mut o = Out::new();
  for (i, j) in lines_of(path).iter().enumerate() {
    // tokens, or characters
    let spelled = j.get("b").is_some();
    let raw = if spelled { crate::lexm::bytes_of(j) } else { token_text(j).into_bytes() };
    let text = crate::lexm::show(&raw);
    o.add("texts", 1);
    o.add(&format!("{} {}", s(j, "v"), s(j, "why")), 1);
    let verdict = s(j, "v");
    match crate::lexm::parse_bytes(&raw) {
      Err(e) => o.hit(i, &["C12"], format!("parsing panicked: {e}"), &text),
      Ok(Err(e)) => {
        if verdict == "ok" {
          o.hit(i, &["C10", "C14"], format!("a well-formed text was rejected: {e}"), &text);
        }
      }
      Ok(Ok(p)) => {
        if verdict == "reject" {
          let props: &[&str] = if s(j, "why") == "entry" { &["C11", "C14"] } else { &["C11"] };
          o.hit(i, props, format!("an ill-formed text was accepted ({})", s(j, "why")), &text);
          continue;
        }
        if verdict == "ok" {
          let want = norm(&j["p"]);
          let got = listing(&p);
          if let Some(d) = diff(&shape(&want), &shape(&got), "blocks") {
            o.hit(i, &["C10", "C14"], format!("wrong blocks: {d}"), &text);
            continue;
          }
          if let Some(d) = diff(&want, &got, "p") {
            o.hit(i, &["C10"], format!("the program is not what the text says: {d}"), &text);
            continue;
          }
        }
        if let Err(e) = print(&p) {
          o.hit(i, &["C12"], format!("an accepted program can not be printed: {e}"), &text);
        }
      }
    }
    if !plain {
      crate::lexm::total(&mut o, i, &raw);
    }
    // the same tokens with plain separators mean the same
    if spelled && j.get("t").is_some() {
      let plain = token_text(j);
      let lst = |r: &Result<Result<Program, String>, String>| match r {
        Ok(Ok(p)) => listing(p),
        Ok(Err(_)) => json!("error"),
        Err(_) => json!("panic"),
      };
      let (a, b) = (lst(&crate::lexm::parse_bytes(&raw)), lst(&crate::lexm::parse_bytes(plain.as_bytes())));
      if let Some(d) = diff(&b, &a, "p") {
        o.hit(i, &["C25"], format!("other separators change the meaning: {d}"), &text);
      }
    }
  }
  o.end();
}

/// Matches generated text with its template; gives the names.
pub fn match_text(text: &str, tmpl: &[String]) -> Result<BTreeMap<String, String>, String> {
  let got = tokens(text);
  let want: Vec<String> = tmpl.iter().flat_map(|l| tokens(l)).collect();
  let mut m: BTreeMap<String, String> = BTreeMap::new();
  for (i, w) in want.iter().enumerate() {
    let g = got.get(i).ok_or_else(|| format!("text ends at token {i}, expected {w}"))?;
    if w.starts_with('$') {
      if !valid_symbol(g) {
        return Err(format!("token {i}: '{g}' is not a valid symbol"));
      }
      match m.get(w) {
        Some(x) if x != g => return Err(format!("token {i}: {w} was '{x}' and is now '{g}'")),
        _ => {
          m.insert(w.clone(), g.clone());
        }
      }
    } else if w != g {
      return Err(format!("token {i}: expected '{w}', got '{g}'"));
    }
  }
  if got.len() > want.len() {
    return Err(format!("surplus token '{}'", got[want.len()]));
  }
  Ok(m)
}

/// `@name`, `%name` or `%number`.
fn valid_symbol(s: &str) -> bool {
  let mut c = s.chars();
  let h = c.next();
  let r: Vec<char> = c.collect();
  if r.is_empty() {
    return false;
  }
  if r[0].is_ascii_digit() {
    h == Some('%') && r.iter().all(|c| c.is_ascii_digit()) && (r.len() == 1 || r[0] != '0')
  } else {
    (h == Some('@') || h == Some('%')) && r.iter().all(|c| c.is_alphanumeric() || *c == '_')
  }
}

fn check_names(j: &J, m: &BTreeMap<String, String>) -> Option<String> {
  let scope: HashMap<String, u64> =
    arr(j, "names").iter().map(|e| (e[0].as_str().unwrap().to_string(), e[2].as_u64().unwrap())).collect();
  let given = names_of(j);
  let ents: Vec<_> = m.iter().collect();
  for (i, (a, x)) in ents.iter().enumerate() {
    for (b, y) in &ents[i + 1..] {
      let (sa, sb) = (scope[*a], scope[*b]);
      if x == y && (sa == sb || sa == 0 || sb == 0) {
        return Some(format!("{a} and {b} are both printed as '{x}'"));
      }
    }
  }
  for e in strs(j, "stable") {
    if let Some(x) = m.get(&e)
      && *x != given[&e]
    {
      return Some(format!("{e} clashes with nothing but is printed as '{x}' instead of '{}'", given[&e]));
    }
  }
  None
}

/// Programs built through the API must print as their template says.
fn m_print(path: &str) {
  let mut o = Out::new();
  let mut prev: Option<Program> = None;
  for (i, j) in lines_of(path).iter().enumerate() {
    let l = norm(&j["p"]);
    o.add("programs", 1);
    let p = build(&l, i % 2 == 0);
    if let Some(d) = diff(&l, &listing(&p), "p") {
      // not what was asked for: left to the checks of the builders
      o.add("not built", 1);
      o.hit(i, &["build"], format!("the built program is not the requested one: {d}"), "");
      continue;
    }
    let tmpl = strs(j, "text");
    let text = match print(&p) {
      Ok(t) => t,
      Err(e) => {
        o.hit(i, &["C08", "C09"], format!("printing panicked: {e}"), &format!("{l}"));
        continue;
      }
    };
    match match_text(&text, &tmpl) {
      Err(e) => {
        o.hit(i, &["C08"], format!("the text does not denote the program: {e}"), &text);
        continue;
      }
      Ok(m) => {
        o.add("names", m.len());
        if let Some(e) = check_names(j, &m) {
          o.hit(i, &["C08"], e, &text);
          continue;
        }
      }
    }
    // one generator, several programs: the earlier ones leave no trace
    let again = guard(|| {
      let mut g = KoopaGenerator::new(Vec::new());
      if let Some(q) = &prev {
        g.generate_on(q).unwrap();
      }
      g.generate_on(&p).unwrap();
      String::from_utf8(g.writer()).unwrap()
    });
    match again {
      Ok(t) if t.ends_with(&text) => {}
      Ok(t) => {
        let m = match_text(&t[t.len().min(print(prev.as_ref().unwrap()).unwrap().len())..], &tmpl)
          .and_then(|m| check_names(j, &m).map_or(Ok(()), Err));
        if let Err(e) = m {
          o.hit(i, &["C08"], format!("printed after another program, the text is wrong: {e}"), &t);
        }
      }
      Err(e) => o.hit(i, &["C08"], format!("printing a second program panicked: {e}"), &text),
    }
    prev = Some(p);
  }
  o.end();
}

/// print . parse = identity on programs.
fn m_rt(path: &str) {
  let mut o = Out::new();
  for (i, j) in lines_of(path).iter().enumerate() {
    let l = norm(&j["p"]);
    o.add("programs", 1);
    let p = build(&l, i % 2 == 0);
    let Ok(t1) = print(&p) else {
      o.hit(i, &["C09"], "printing panicked".into(), &format!("{l}"));
      continue;
    };
    match parse(&t1) {
      Err(e) => o.hit(i, &["C09", "C12"], format!("parsing generated text panicked: {e}"), &t1),
      Ok(Err(e)) => o.hit(i, &["C09"], format!("generated text is rejected: {e}"), &t1),
      Ok(Ok(q)) => {
        if let Some(d) = diff(&no_names(&l), &no_names(&listing(&q)), "p") {
          o.hit(i, &["C09"], format!("parsing generated text gives another program: {d}"), &t1);
          continue;
        }
        // a name that is kept must be kept, a temporary must be dropped
        let m = match_text(&t1, &strs(j, "text")).unwrap_or_default();
        let want = named(&l, j, &m);
        if let Some(d) = want.and_then(|w| diff(&w, &listing(&q), "p")) {
          o.hit(i, &["C09"], format!("names are not those of the text: {d}"), &t1);
          continue;
        }
        let t2 = print(&q).unwrap_or_default();
        let numeric = arr(j, "names").iter().any(|e| {
          let s = e[1].as_str().unwrap();
          s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit())
        });
        if !numeric && t1 != t2 {
          o.hit(i, &["C09"], format!("printing again gives another text:\n{t2}"), &t1);
          continue;
        }
        match parse(&t2) {
          Ok(Ok(r)) => {
            let t3 = print(&r).unwrap_or_default();
            if t3 != t2 {
              o.hit(i, &["C09"], format!("text is not stable:\n{t3}"), &t2);
            }
          }
          _ => o.hit(i, &["C09"], "text printed from a parsed program is rejected".into(), &t2),
        }
      }
    }
  }
  o.end();
}

/// The listing with the names of the text (temporaries dropped).
fn named(l: &J, j: &J, m: &BTreeMap<String, String>) -> Option<J> {
  let mut l = l.clone();
  let get = |k: String| -> J {
    let s = m.get(&k).cloned().unwrap_or_default();
    let temp = s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit());
    json!(if temp { String::new() } else { s })
  };
  if m.is_empty() {
    return None;
  }
  let _ = j;
  for (i, g) in l["gs"].as_array_mut()?.iter_mut().enumerate() {
    g["nm"] = get(format!("$g{}", i + 1));
  }
  for (fi, f) in l["fs"].as_array_mut()?.iter_mut().enumerate() {
    let fk = format!("$f{}", fi + 1);
    f["nm"] = json!(m.get(&fk).cloned().unwrap_or_default());
    for (i, p) in f["pnm"].as_array_mut()?.iter_mut().enumerate() {
      *p = get(format!("{fk}p{}", i + 1));
    }
    for (bi, b) in f["bs"].as_array_mut()?.iter_mut().enumerate() {
      let bk = format!("{fk}b{}", bi + 1);
      b["nm"] = get(bk.clone());
      for (i, p) in b["pnm"].as_array_mut()?.iter_mut().enumerate() {
        *p = get(format!("{bk}p{}", i + 1));
      }
      for (i, x) in b["is"].as_array_mut()?.iter_mut().enumerate() {
        let unit = x["ty"] == "unit";
        x["nm"] = if unit { json!("") } else { get(format!("{bk}i{}", i + 1)) };
      }
    }
  }
  Some(l)
}

pub fn main(mode: &str, a: &[String]) {
  match mode {
    "parse" => m_parse(&a[0]),
    "front" => m_front(&a[0], a.get(1).is_some_and(|x| x == "plain")),
    "print" => m_print(&a[0]),
    "rt" => m_rt(&a[0]),
    _ => panic!("unknown mode"),
  }
}
