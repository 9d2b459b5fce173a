//! Replays behaviours of spec/IRSim.tla on the real IR and compares the
//! whole projected state after every step.
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::*;
use serde_json::{Value as J, json};
use std::collections::{BTreeSet, HashMap};

#[derive(Default)]
struct World {
  p: Program,
  v: Vec<Option<Value>>, // model handle -> real handle (slot 0 unused)
  b: Vec<Option<BasicBlock>>,
  f: Vec<Option<Function>>,
  vown: Vec<usize>,
  bown: Vec<usize>,
  rv: HashMap<Value, usize>,
  rb: HashMap<BasicBlock, usize>,
  rf: HashMap<Function, usize>,
}

pub fn opname(x: &str) -> BinaryOp {
  match x {
    "ne" => BinaryOp::NotEq, "eq" => BinaryOp::Eq, "gt" => BinaryOp::Gt, "lt" => BinaryOp::Lt,
    "ge" => BinaryOp::Ge, "le" => BinaryOp::Le, "add" => BinaryOp::Add, "sub" => BinaryOp::Sub,
    "mul" => BinaryOp::Mul, "div" => BinaryOp::Div, "mod" => BinaryOp::Mod, "and" => BinaryOp::And,
    "or" => BinaryOp::Or, "xor" => BinaryOp::Xor, "shl" => BinaryOp::Shl, "shr" => BinaryOp::Shr,
    "sar" => BinaryOp::Sar,
    _ => panic!("op {x}"),
  }
}
pub fn opstr(o: BinaryOp) -> &'static str {
  match o {
    BinaryOp::NotEq => "ne", BinaryOp::Eq => "eq", BinaryOp::Gt => "gt", BinaryOp::Lt => "lt",
    BinaryOp::Ge => "ge", BinaryOp::Le => "le", BinaryOp::Add => "add", BinaryOp::Sub => "sub",
    BinaryOp::Mul => "mul", BinaryOp::Div => "div", BinaryOp::Mod => "mod", BinaryOp::And => "and",
    BinaryOp::Or => "or", BinaryOp::Xor => "xor", BinaryOp::Shl => "shl", BinaryOp::Shr => "shr",
    BinaryOp::Sar => "sar",
  }
}

/// The parts of a value that the model knows.
#[derive(PartialEq, Debug)]
struct Shape {
  k: String,
  ty: String,
  ops: Vec<usize>,
  bbs: Vec<usize>,
  x: String,
  fnc: usize,
  n: usize,
}

/// Which of two ways is taken: as the behaviour says, or some way if it says nothing.
fn via(e: &J, default: bool, way: &str) -> bool {
  e["via"].as_str().filter(|v| !v.is_empty()).map_or(default, |v| v == way)
}

fn local<B: LocalInstBuilder>(w: &Maps, b: B, e: &J) -> Value {
  let k = s(e, "k");
  let ops: Vec<Value> = nums(e, "ops").iter().map(|i| w.v[*i].unwrap()).collect();
  let bbs: Vec<BasicBlock> = nums(e, "bbs").iter().map(|i| w.b[*i].unwrap()).collect();
  let nt = n(e, "n");
  match k {
    "int" | "zero" | "undef" | "agg" => consts(w, b, e),
    "alloc" => b.alloc(parse_ty(s(e, "ty"))),
    "load" => b.load(ops[0]),
    "store" => b.store(ops[0], ops[1]),
    "getptr" => b.get_ptr(ops[0], ops[1]),
    "getelemptr" => b.get_elem_ptr(ops[0], ops[1]),
    "binary" => b.binary(opname(s(e, "x")), ops[0], ops[1]),
    "branch" => {
      // both ways of making a branch without arguments
      if ops.len() == 1 && via(e, nums(e, "ops")[0] % 2 == 1, "plain") {
        b.branch(ops[0], bbs[0], bbs[1])
      } else {
        b.branch_with_args(ops[0], bbs[0], bbs[1], ops[1..1 + nt].to_vec(), ops[1 + nt..].to_vec())
      }
    }
    "jump" => {
      if ops.is_empty() && via(e, nums(e, "bbs")[0] % 2 == 1, "plain") {
        b.jump(bbs[0])
      } else {
        b.jump_with_args(bbs[0], ops)
      }
    }
    "call" => b.call(w.f[n(e, "fn")].unwrap(), ops),
    "ret" => b.ret(ops.first().copied()),
    _ => panic!("kind {k}"),
  }
}
fn consts<B: ValueBuilder>(w: &Maps, b: B, e: &J) -> Value {
  let ops: Vec<Value> = nums(e, "ops").iter().map(|i| w.v[*i].unwrap()).collect();
  match s(e, "k") {
    "int" => b.integer(s(e, "x").parse().unwrap()),
    "zero" => b.zero_init(parse_ty(s(e, "ty"))),
    "undef" => b.undef(parse_ty(s(e, "ty"))),
    "agg" => b.aggregate(ops),
    k => panic!("const kind {k}"),
  }
}
struct Maps {
  v: Vec<Option<Value>>,
  b: Vec<Option<BasicBlock>>,
  f: Vec<Option<Function>>,
}

impl World {
  fn new() -> Self {
    let mut w = World::default();
    w.v.push(None);
    w.b.push(None);
    w.f.push(None);
    w.vown.push(0);
    w.bown.push(0);
    w
  }
  fn maps(&self) -> Maps {
    Maps { v: self.v.clone(), b: self.b.clone(), f: self.f.clone() }
  }
  fn add_v(&mut self, v: Value, own: usize) {
    self.rv.insert(v, self.v.len());
    self.v.push(Some(v));
    self.vown.push(own);
  }
  fn fd(&self, f: usize) -> &FunctionData {
    self.p.func(self.f[f].unwrap())
  }
  fn fdm(&mut self, f: usize) -> &mut FunctionData {
    let h = self.f[f].unwrap();
    self.p.func_mut(h)
  }
  fn data(&self, v: usize) -> ValueData {
    if self.vown[v] == 0 {
      self.p.borrow_value(self.v[v].unwrap()).clone()
    } else {
      self.fd(self.vown[v]).dfg().value(self.v[v].unwrap()).clone()
    }
  }
  fn shape(&self, d: &ValueData) -> Shape {
    let id = |v: &Value| self.rv.get(v).copied().unwrap_or(0);
    let bid = |b: &BasicBlock| self.rb.get(b).copied().unwrap_or(0);
    let ids = |v: &[Value]| v.iter().map(id).collect::<Vec<_>>();
    let mut sh = Shape { k: String::new(), ty: ty_str(d.ty()), ops: vec![], bbs: vec![], x: String::new(), fnc: 0, n: 0 };
    let k = match d.kind() {
      ValueKind::Integer(i) => {
        sh.x = i.value().to_string();
        "int"
      }
      ValueKind::ZeroInit(_) => "zero",
      ValueKind::Undef(_) => "undef",
      ValueKind::Aggregate(a) => {
        sh.ops = ids(a.elems());
        "agg"
      }
      ValueKind::FuncArgRef(a) => {
        sh.x = a.index().to_string();
        "farg"
      }
      ValueKind::BlockArgRef(a) => {
        sh.x = a.index().to_string();
        "barg"
      }
      ValueKind::Alloc(_) => "alloc",
      ValueKind::GlobalAlloc(g) => {
        sh.ops = vec![id(&g.init())];
        "galloc"
      }
      ValueKind::Load(l) => {
        sh.ops = vec![id(&l.src())];
        "load"
      }
      ValueKind::Store(l) => {
        sh.ops = vec![id(&l.value()), id(&l.dest())];
        "store"
      }
      ValueKind::GetPtr(l) => {
        sh.ops = vec![id(&l.src()), id(&l.index())];
        "getptr"
      }
      ValueKind::GetElemPtr(l) => {
        sh.ops = vec![id(&l.src()), id(&l.index())];
        "getelemptr"
      }
      ValueKind::Binary(l) => {
        sh.ops = vec![id(&l.lhs()), id(&l.rhs())];
        sh.x = opstr(l.op()).into();
        "binary"
      }
      ValueKind::Branch(l) => {
        sh.ops = vec![id(&l.cond())];
        sh.ops.extend(ids(l.true_args()));
        sh.ops.extend(ids(l.false_args()));
        sh.n = l.true_args().len();
        sh.bbs = vec![bid(&l.true_bb()), bid(&l.false_bb())];
        "branch"
      }
      ValueKind::Jump(l) => {
        sh.ops = ids(l.args());
        sh.bbs = vec![bid(&l.target())];
        "jump"
      }
      ValueKind::Call(l) => {
        sh.ops = ids(l.args());
        sh.fnc = self.rf.get(&l.callee()).copied().unwrap_or(0);
        "call"
      }
      ValueKind::Return(l) => {
        sh.ops = l.value().iter().map(id).collect();
        "ret"
      }
    };
    sh.k = k.into();
    sh
  }

  /// Performs one call of the model on the real program.
  fn apply(&mut self, e: &J) -> Result<(), String> {
    let op = s(e, "op");
    let opt = |x: &str| (!x.is_empty()).then(|| x.to_string());
    match op {
      "newfunc" => {
        let pts: Vec<Type> = strs(e, "pts").iter().map(|t| parse_ty(t)).collect();
        let pns = strs(e, "pns");
        let rt = parse_ty(s(e, "rt"));
        let nm = s(e, "nm").to_string();
        let h = if e["decl"] == json!(true) {
          self.p.new_func_decl(nm, pts, rt)
        } else if pns.iter().all(|x| x.is_empty()) && via(e, pts.len() % 2 == 0, "def") {
          self.p.new_func_def(nm, pts, rt)
        } else {
          self.p.new_func_def_with_param_names(nm, pns.iter().map(|x| opt(x)).zip(pts).collect(), rt)
        };
        let f = self.f.len();
        self.rf.insert(h, f);
        self.f.push(Some(h));
        for v in self.p.func(h).params().to_vec() {
          self.add_v(v, f);
        }
      }
      "new" => {
        let f = n(e, "f");
        let m = self.maps();
        let v = if f == 0 {
          let b = self.p.new_value();
          if s(e, "k") == "galloc" {
            b.global_alloc(m.v[nums(e, "ops")[0]].unwrap())
          } else {
            consts(&m, b, e)
          }
        } else {
          local(&m, self.fdm(f).dfg_mut().new_value(), e)
        };
        self.add_v(v, f);
      }
      "raw" => {
        let d = self.data(n(e, "src"));
        let f = n(e, "f");
        let v = self.fdm(f).dfg_mut().new_value().raw(d);
        self.add_v(v, f);
      }
      "replace" => {
        let m = self.maps();
        let v = self.v[n(e, "v")].unwrap();
        let r = local(&m, self.fdm(n(e, "f")).dfg_mut().replace_value_with(v), e);
        if r != v {
          return Err("replacement changed the handle".into());
        }
      }
      "replraw" => {
        let d = self.data(n(e, "src"));
        let v = self.v[n(e, "v")].unwrap();
        let r = self.fdm(n(e, "f")).dfg_mut().replace_value_with(v).raw(d);
        if r != v {
          return Err("replacement changed the handle".into());
        }
      }
      "update" => {
        let m = self.maps();
        let v = m.v[n(e, "v")].unwrap();
        let (what, i, to) = (s(e, "what").to_string(), n(e, "i"), s(e, "to").to_string());
        self.fdm(n(e, "f")).dfg_mut().update_value(v, |d| {
          let num = || to.parse::<usize>().unwrap();
          match (what.as_str(), d.kind_mut()) {
            ("op", k) => {
              let x = m.v[num()].unwrap();
              match k {
                ValueKind::Aggregate(a) => a.elems_mut()[i - 1] = x,
                ValueKind::Load(a) => *a.src_mut() = x,
                ValueKind::Store(a) => *(if i == 1 { a.value_mut() } else { a.dest_mut() }) = x,
                ValueKind::GetPtr(a) => *(if i == 1 { a.src_mut() } else { a.index_mut() }) = x,
                ValueKind::GetElemPtr(a) => *(if i == 1 { a.src_mut() } else { a.index_mut() }) = x,
                ValueKind::Binary(a) => *(if i == 1 { a.lhs_mut() } else { a.rhs_mut() }) = x,
                ValueKind::Branch(a) => {
                  let nt = a.true_args().len();
                  if i == 1 {
                    *a.cond_mut() = x
                  } else if i <= 1 + nt {
                    a.true_args_mut()[i - 2] = x
                  } else {
                    a.false_args_mut()[i - 2 - nt] = x
                  }
                }
                ValueKind::Jump(a) => a.args_mut()[i - 1] = x,
                ValueKind::Call(a) => a.args_mut()[i - 1] = x,
                ValueKind::Return(a) => *a.value_mut() = Some(x),
                _ => panic!("harness: update"),
              }
            }
            ("bb", ValueKind::Branch(a)) => {
              let x = m.b[num()].unwrap();
              *(if i == 1 { a.true_bb_mut() } else { a.false_bb_mut() }) = x
            }
            ("bb", ValueKind::Jump(a)) => *a.target_mut() = m.b[num()].unwrap(),
            ("x", ValueKind::Binary(a)) => *a.op_mut() = opname(&to),
            ("x", ValueKind::Integer(a)) => *a.value_mut() = to.parse().unwrap(),
            ("fn", ValueKind::Call(a)) => *a.callee_mut() = m.f[num()].unwrap(),
            ("none", ValueKind::Return(a)) => *a.value_mut() = None,
            ("some", ValueKind::Return(a)) => *a.value_mut() = Some(m.v[num()].unwrap()),
            ("pop", ValueKind::Aggregate(a)) => drop(a.elems_mut().pop()),
            ("pop", ValueKind::Jump(a)) => drop(a.args_mut().pop()),
            ("pop", ValueKind::Call(a)) => drop(a.args_mut().pop()),
            ("pop", ValueKind::Branch(a)) => {
              if a.false_args_mut().pop().is_none() {
                a.true_args_mut().pop();
              }
            }
            ("shift", ValueKind::Branch(a)) => {
              let x = a.true_args_mut().pop().unwrap();
              a.false_args_mut().insert(0, x);
            }
            ("unshift", ValueKind::Branch(a)) => {
              let x = a.false_args_mut().remove(0);
              a.true_args_mut().push(x);
            }
            _ => panic!("harness: update"),
          }
        });
      }
      "name" => {
        let v = n(e, "v");
        let nm = s(e, "nm");
        let nm = if nm == "-" { None } else { Some(nm.to_string()) };
        let h = self.v[v].unwrap();
        if self.vown[v] == 0 {
          self.p.set_value_name(h, nm);
        } else {
          self.fdm(self.vown[v]).dfg_mut().set_value_name(h, nm);
        }
      }
      "rmval" => {
        let v = n(e, "v");
        let h = self.v[v].unwrap();
        let old = guard(|| self.data(v)).ok();
        let d = if self.vown[v] == 0 {
          self.p.remove_value(h)
        } else {
          let o = self.vown[v];
          self.fdm(o).dfg_mut().remove_value(h)
        };
        let Some(old) = old else { return Ok(()) };
        if self.shape(&old) != self.shape(&d) || old.name() != d.name() {
          return Err(format!("remove_value handed back other data: {:?} instead of {:?}", self.shape(&d), self.shape(&old)));
        }
      }
      "newbb" => {
        let pts: Vec<Type> = strs(e, "pts").iter().map(|t| parse_ty(t)).collect();
        let pns = strs(e, "pns");
        let nm = opt(s(e, "nm"));
        let f = n(e, "f");
        let bld = self.fdm(f).dfg_mut().new_bb();
        let b = if pts.is_empty() && via(e, true, "plain") {
          bld.basic_block(nm)
        } else if pns.iter().all(|x| x.is_empty()) && via(e, true, "types") {
          bld.basic_block_with_params(nm, pts)
        } else {
          bld.basic_block_with_param_names(nm, pns.iter().map(|x| opt(x)).zip(pts).collect())
        };
        self.rb.insert(b, self.b.len());
        self.b.push(Some(b));
        self.bown.push(f);
        for v in self.fd(f).dfg().bb(b).params().to_vec() {
          self.add_v(v, f);
        }
      }
      "rmbb" => {
        let b = self.b[n(e, "b")].unwrap();
        let old = self.fd(n(e, "f")).dfg().bbs().get(&b).map(|d| (d.name().clone(), d.params().to_vec()));
        let d = self.fdm(n(e, "f")).dfg_mut().remove_bb(b);
        if old != Some((d.name().clone(), d.params().to_vec())) {
          return Err("remove_bb handed back other data".into());
        }
      }
      "namebb" => {
        let b = self.b[n(e, "b")].unwrap();
        let nm = opt(s(e, "nm"));
        self.fdm(n(e, "f")).dfg_mut().bb_mut(b).set_name(nm);
      }
      "rmfunc" => {
        let h = self.f[n(e, "f")].unwrap();
        let there = self.p.funcs().get(&h).map(|d| (d.name().to_string(), d.params().to_vec(), ty_str(d.ty())));
        let r = self.p.remove_func(h).map(|d| (d.name().to_string(), d.params().to_vec(), ty_str(d.ty())));
        if r != there {
          return Err(format!("remove_func answered {r:?} instead of {there:?}"));
        }
      }
      "bbins" => {
        let b = self.b[n(e, "b")].unwrap();
        let r = n(e, "ref");
        let rb = self.b[r];
        let l = self.fdm(n(e, "f")).layout_mut().bbs_mut();
        let res = match s(e, "how") {
          "back" => l.push_key_back(b),
          "front" => l.push_key_front(b),
          "before" => l.cursor_mut(rb.unwrap()).insert_key_before(b),
          _ => l.cursor_mut(rb.unwrap()).insert_key_after(b),
        };
        let dup = e["dup"] == json!(true);
        if res != if dup { Err(b) } else { Ok(()) } {
          return Err(format!("insertion answered {res:?}"));
        }
      }
      "bbrm" => {
        let b = self.b[n(e, "b")].unwrap();
        let l = self.fdm(n(e, "f")).layout_mut().bbs_mut();
        let r = match s(e, "how") {
          "key" => l.remove(&b),
          "popf" => l.pop_front(),
          "popb" => l.pop_back(),
          _ => l.cursor_mut(b).remove_current(),
        };
        let got = r.map(|(k, _)| k);
        let want = if e["absent"] == json!(true) { None } else { Some(b) };
        if got != want {
          return Err("removal from the layout answered the wrong block".into());
        }
      }
      "bbclear" => self.fdm(n(e, "f")).layout_mut().bbs_mut().clear(),
      "ins" => {
        let (v, b, rf) = (self.v[n(e, "v")].unwrap(), self.b[n(e, "b")].unwrap(), n(e, "ref"));
        let rv = self.v[rf];
        let l = self.fdm(n(e, "f")).layout_mut().bb_mut(b).insts_mut();
        let res = match s(e, "how") {
          "back" => l.push_key_back(v),
          "front" => l.push_key_front(v),
          "before" => l.cursor_mut(rv.unwrap()).insert_key_before(v),
          _ => l.cursor_mut(rv.unwrap()).insert_key_after(v),
        };
        let dup = e["dup"] == json!(true);
        if res != if dup { Err(v) } else { Ok(()) } {
          return Err(format!("insertion answered {res:?}"));
        }
      }
      "irm" => {
        let (v, b) = (self.v[n(e, "v")].unwrap(), self.b[n(e, "b")].unwrap());
        let l = self.fdm(n(e, "f")).layout_mut().bb_mut(b).insts_mut();
        let r = match s(e, "how") {
          "key" => l.remove(&v),
          "popf" => l.pop_front(),
          "popb" => l.pop_back(),
          _ => l.cursor_mut(v).remove_current(),
        };
        let got = r.map(|(k, _)| k);
        let want = if e["absent"] == json!(true) { None } else { Some(v) };
        if got != want {
          return Err("removal from the layout answered the wrong instruction".into());
        }
      }
      "imove" => {
        let (v, b1, b2) = (self.v[n(e, "v")].unwrap(), self.b[n(e, "b")].unwrap(), self.b[n(e, "to")].unwrap());
        let l = self.fdm(n(e, "f")).layout_mut();
        if s(e, "how") == "insert-first" {
          l.bb_mut(b2).insts_mut().push_key_back(v).unwrap();
          l.bb_mut(b1).insts_mut().remove(&v);
        } else {
          l.bb_mut(b1).insts_mut().remove(&v);
          l.bb_mut(b2).insts_mut().push_key_back(v).unwrap();
        }
      }
      "iclear" => {
        let b = self.b[n(e, "b")].unwrap();
        self.fdm(n(e, "f")).layout_mut().bb_mut(b).insts_mut().clear();
      }
      "eq" => {
        let f = n(e, "f");
        let vs = nums(e, "vs");
        let m = arr(e, "m");
        for (i, a) in vs.iter().enumerate() {
          for (j, b) in vs.iter().enumerate() {
            let want = m[i][j].as_bool().unwrap();
            let (ha, hb) = (self.v[*a].unwrap(), self.v[*b].unwrap());
            let got = self.fd(f).dfg().value_eq(ha, hb);
            let got2 = self.fd(f).dfg().data_eq(&self.data(*a), &self.data(*b));
            if got != want || got2 != want {
              return Err(format!(
                "value_eq({:?}, {:?}) = {got}, data_eq = {got2}, expected {want}",
                self.shape(&self.data(*a)),
                self.shape(&self.data(*b))
              ));
            }
          }
        }
      }
      _ => panic!("harness: unknown op {op}"),
    }
    Ok(())
  }
}

/// Expected state, built from the deltas of the behaviour.
#[derive(Default)]
struct Exp {
  v: Vec<J>,
  b: Vec<J>,
  f: Vec<J>,
  gl: Vec<usize>,
  fl: Vec<usize>,
}
impl Exp {
  fn apply(&mut self, d: &J) {
    for (list, k) in [(&mut self.v, "dv"), (&mut self.b, "db"), (&mut self.f, "df")] {
      for r in arr(d, k) {
        let i = n(r, "i");
        while list.len() <= i {
          list.push(J::Null);
        }
        list[i] = r.clone();
      }
    }
    self.gl = nums(d, "gl");
    self.fl = nums(d, "fl");
  }
}

type Diff = (&'static str, String);

fn compare(w: &World, x: &Exp) -> Vec<Diff> {
  let mut out: Vec<Diff> = vec![];
  let mut bad = |c: &'static str, m: String| out.push((c, m));
  let set = |v: Vec<usize>| v.into_iter().collect::<BTreeSet<_>>();
  // program level
  let gl: Vec<usize> = w.p.inst_layout().iter().map(|v| w.rv.get(v).copied().unwrap_or(0)).collect();
  if gl != x.gl {
    bad("exist", format!("global order {gl:?}, expected {:?}", x.gl));
  }
  let fl: Vec<usize> = w.p.func_layout().iter().map(|v| w.rf.get(v).copied().unwrap_or(0)).collect();
  if fl != x.fl {
    bad("exist", format!("function order {fl:?}, expected {:?}", x.fl));
  }
  let live_of = |list: &Vec<J>, own: Option<usize>| -> BTreeSet<usize> {
    list.iter().filter(|r| !r.is_null() && r["live"] == json!(true) && own.is_none_or(|o| n(r, "own") == o)).map(|r| n(r, "i")).collect()
  };
  let funcs: BTreeSet<usize> = w.p.funcs().keys().map(|f| w.rf.get(f).copied().unwrap_or(0)).collect();
  let mut expf: BTreeSet<usize> = BTreeSet::new();
  for r in &x.f {
    if !r.is_null() && r["live"] == json!(true) {
      expf.insert(n(r, "i"));
    }
  }
  if funcs != expf {
    bad("exist", format!("functions {funcs:?}, expected {expf:?}"));
    return out;
  }
  let gv: BTreeSet<usize> = w.p.borrow_values().keys().map(|v| w.rv.get(v).copied().unwrap_or(0)).collect();
  if gv != live_of(&x.v, Some(0)) {
    bad("exist", format!("global values {gv:?}, expected {:?}", live_of(&x.v, Some(0))));
    return out;
  }
  for f in &expf {
    let fd = w.fd(*f);
    let r = &x.f[*f];
    let lv: BTreeSet<usize> = fd.dfg().values().keys().map(|v| w.rv.get(v).copied().unwrap_or(0)).collect();
    if lv != live_of(&x.v, Some(*f)) {
      bad("exist", format!("values of function {f}: {lv:?}, expected {:?}", live_of(&x.v, Some(*f))));
      return out;
    }
    let lb: BTreeSet<usize> = fd.dfg().bbs().keys().map(|v| w.rb.get(v).copied().unwrap_or(0)).collect();
    if lb != live_of(&x.b, Some(*f)) {
      bad("exist", format!("blocks of function {f}: {lb:?}, expected {:?}", live_of(&x.b, Some(*f))));
      return out;
    }
    if fd.name() != s(r, "nm") {
      bad("content", format!("function {f} is named {}", fd.name()));
    }
    if ty_str(fd.ty()) != s(r, "ty") {
      bad("content", format!("function {f} has type {}, expected {}", ty_str(fd.ty()), s(r, "ty")));
    }
    let ps: Vec<usize> = fd.params().iter().map(|v| w.rv.get(v).copied().unwrap_or(0)).collect();
    if ps != nums(r, "ps") {
      bad("content", format!("function {f} has parameters {ps:?}"));
    }
    // layout, forwards and backwards
    let lay = arr(r, "lay");
    let want: Vec<usize> = lay.iter().map(|l| n(l, "b")).collect();
    let l = fd.layout();
    let id = |b: &BasicBlock| w.rb.get(b).copied().unwrap_or(0);
    let vid = |v: &Value| w.rv.get(v).copied().unwrap_or(0);
    let fwd: Vec<usize> = l.bbs().keys().map(id).take(10000).collect();
    let mut bwd = vec![];
    let mut c = l.bbs().cursor_back();
    while let Some(k) = c.key() {
      bwd.push(id(k));
      if bwd.len() > 1000 {
        break;
      }
      c.move_prev();
    }
    bwd.reverse();
    if fwd != want || bwd != want || l.bbs().len() != want.len() {
      let cat = if fwd == want && l.bbs().len() == want.len() { "back" } else { "layout" };
      bad(cat, format!("block order of function {f}: forwards {fwd:?}, backwards {bwd:?}, length {}, expected {want:?}", l.bbs().len()));
      continue;
    }
    if l.entry_bb().map(|b| id(&b)) != want.first().copied() {
      bad(if want.is_empty() { "back" } else { "layout" }, format!("entry of function {f} is {:?}", l.entry_bb().map(|b| id(&b))));
    }
    if l.bbs().back_key().map(id) != want.last().copied() {
      bad("back", format!("last block of function {f} is wrong"));
    }
    let mut par: HashMap<usize, usize> = HashMap::new();
    for ln in lay {
      let b = n(ln, "b");
      let want = nums(ln, "is");
      let node = l.bbs().node(&w.b[b].unwrap()).unwrap();
      let fwd: Vec<usize> = node.insts().keys().map(vid).take(10000).collect();
      let mut bwd = vec![];
      let mut c = node.insts().cursor_back();
      while let Some(k) = c.key() {
        bwd.push(vid(k));
        if bwd.len() > 10000 {
          break;
        }
        c.move_prev();
      }
      bwd.reverse();
      if fwd != want || bwd != want || node.insts().len() != want.len() {
        let cat = if fwd == want && node.insts().len() == want.len() { "back" } else { "layout" };
        bad(cat, format!("instructions of block {b}: forwards {fwd:?}, backwards {bwd:?}, expected {want:?}"));
      }
      for i in want {
        par.insert(i, b);
      }
    }
    // every handle this function ever owned, removed ones included
    for (i, h) in w.v.iter().enumerate().skip(1) {
      if w.vown[i] == *f {
        let got = l.parent_bb(h.unwrap()).map(|b| id(&b));
        if got != par.get(&i).copied() {
          bad("layout", format!("parent of instruction {i} is {got:?}, expected {:?}", par.get(&i)));
        }
      }
    }
    for i in live_of(&x.b, Some(*f)) {
      let d = fd.dfg().bb(w.b[i].unwrap());
      let r = &x.b[i];
      if d.name().as_deref().unwrap_or("") != s(r, "nm") {
        bad("content", format!("block {i} is named {:?}", d.name()));
      }
      let ps: Vec<usize> = d.params().iter().map(vid).collect();
      if ps != nums(r, "ps") {
        bad("content", format!("block {i} has parameters {ps:?}, expected {:?}", nums(r, "ps")));
      }
      let us = set(d.used_by().iter().map(vid).collect());
      if us != set(nums(r, "uses")) || d.used_by().len() != us.len() {
        bad("uses", format!("block {i} has users {us:?}, expected {:?}", nums(r, "uses")));
      }
    }
  }
  for i in live_of(&x.v, None) {
    let r = &x.v[i];
    let gvals = w.p.borrow_values();
    let d = if w.vown[i] == 0 { &gvals[&w.v[i].unwrap()] } else { w.fd(w.vown[i]).dfg().value(w.v[i].unwrap()) };
    let sh = w.shape(d);
    let want = Shape {
      k: s(r, "k").into(),
      ty: s(r, "ty").into(),
      ops: nums(r, "ops"),
      bbs: nums(r, "bbs"),
      x: s(r, "x").into(),
      fnc: n(r, "fn"),
      n: n(r, "n"),
    };
    if sh != want {
      bad("content", format!("value {i} is {sh:?}, expected {want:?}"));
    }
    if d.name().as_deref().unwrap_or("") != s(r, "nm") {
      bad("name", format!("value {i} is named {:?}, expected {:?}", d.name(), s(r, "nm")));
    }
    let us: BTreeSet<usize> = d.used_by().iter().map(|v| w.rv.get(v).copied().unwrap_or(0)).collect();
    if us != set(nums(r, "uses")) || d.used_by().len() != us.len() {
      bad("uses", format!("value {i} has users {us:?}, expected {:?}", nums(r, "uses")));
    }
    if w.v[i].unwrap().is_global() != (w.vown[i] == 0) {
      bad("class", format!("value {i}: is_global is wrong"));
    }
    // operand enumeration agrees with the operands themselves
    let en: Vec<usize> = d.kind().value_uses().map(|v| w.rv.get(&v).copied().unwrap_or(0)).collect();
    let eb: Vec<usize> = d.kind().bb_uses().map(|v| w.rb.get(&v).copied().unwrap_or(0)).collect();
    if en != want.ops || eb != want.bbs {
      bad("uses", format!("value {i} enumerates operands {en:?} {eb:?}, expected {:?} {:?}", want.ops, want.bbs));
    }
  }
  out
}

/// The properties a difference speaks about.
fn props_of(op: &str, cat: &str) -> Vec<&'static str> {
  let mut ps = vec![];
  match cat {
    "uses" => ps.push("C01"),
    "layout" | "back" => ps.push("C02"),
    "class" => ps.push("C05"),
    _ => {}
  }
  match op {
    "rmval" | "rmbb" | "rmfunc" => ps.push("C04"),
    "eq" => ps.push("C07"),
    "update" if !matches!(cat, "uses" | "layout" | "back") => ps.push("C01"),
    "bbins" | "bbrm" | "bbclear" | "ins" | "irm" | "imove" | "iclear" if !matches!(cat, "layout" | "back") => ps.push("C02"),
    "replace" | "replraw" if cat == "call" => ps.extend(["C01", "C03"]),
    "new" | "newbb" | "newfunc" | "raw" | "replace" | "replraw" | "name" | "namebb" if ps.is_empty() => ps.push("C03"),
    _ => {}
  }
  ps
}

pub fn main(args: &[String]) {
  let text = std::fs::read_to_string(&args[0]).unwrap();
  let mut found: Vec<J> = vec![];
  let (mut beh, mut steps, mut probes) = (0u64, 0u64, 0u64);
  let mut ops: HashMap<String, u64> = HashMap::new();
  let mut base: Vec<J> = vec![];
  let mut checked = false;
  for (bi, line) in text.lines().enumerate() {
    let tr: J = serde_json::from_str(line).unwrap();
    if tr.get("base").is_some() {
      base = arr(&tr, "base").to_vec();
      continue;
    }
    let mut all = base.clone();
    all.extend(tr.as_array().unwrap().iter().cloned());
    let tr = &all;
    // what behaviours have in common is compared once
    let quiet = if checked { base.len() } else { 0 };
    checked = true;
    beh += 1;
    let mut popped = false;
    let mut w = World::new();
    let mut x = Exp { v: vec![J::Null], b: vec![J::Null], f: vec![J::Null], ..Default::default() };
    for (si, st) in tr.iter().enumerate() {
      let e = &st["e"];
      let op = s(e, "op").to_string();
      *ops.entry(op.clone()).or_default() += 1;
      // known: a list is unusable, except forwards, once something was popped from it
      let pop = e["how"].as_str().is_some_and(|h| h.starts_with("pop"));
      let before = popped;
      popped |= pop;
      let mut note = |props: Vec<&str>, cat: &str, msg: String| {
        let key = if before || (pop && cat == "back") { json!("pop") } else { J::Null };
        found.push(json!({"props": props, "behaviour": bi, "step": si, "event": e, "msg": msg, "key": key}))
      };
      if st["rej"] == json!(true) {
        probes += 1;
        // on a copy of the program, made by the same calls
        let mut c = World::new();
        let again = guard(|| {
          for p in &tr[..si] {
            if p["rej"] != json!(true) {
              let _ = c.apply(&p["e"]);
            }
          }
        });
        if again.is_err() {
          break;
        }
        if guard(|| c.apply(e)).is_ok() {
          note(props_of(&op, "call"), "call", "an illegal call was accepted".into());
          break;
        }
        if matches!(op.as_str(), "new" | "replace") {
          // nothing was made by the refused call
          if let Ok(Some((_, m))) = guard(|| compare(&c, &x).into_iter().find(|(k, _)| *k == "exist")) {
            note(vec!["C03"], "exist", format!("after a refused call: {m}"));
            break;
          }
        }
        continue;
      }
      steps += 1;
      match guard(|| w.apply(e)) {
        Err(p) => {
          if p.starts_with("harness") {
            eprintln!("{p}");
            std::process::exit(3);
          }
          note(props_of(&op, "call"), "call", format!("a legal call panicked: {p}"));
          break;
        }
        Ok(Err(m)) => {
          note(props_of(&op, "call"), "call", m);
          break;
        }
        Ok(Ok(())) => {}
      }
      x.apply(&st["d"]);
      if si < quiet {
        continue;
      }
      match guard(|| compare(&w, &x)) {
        Err(p) => {
          note(props_of(&op, "call"), "back", format!("reading the program back panicked: {p}"));
          break;
        }
        Ok(ds) if !ds.is_empty() => {
          for (c, m) in &ds {
            note(props_of(&op, c), c, m.clone());
          }
          break;
        }
        _ => {}
      }
    }
  }
  println!("{}", json!({"behaviours": beh, "steps": steps, "probes": probes, "ops": ops, "found": found}));
}
