//! Histories of parsers (C13), types (C06), handles (C05) and passes (C21).
use crate::lexm::Slow;
use crate::prog::{Out, diff, lines_of, listing, norm};
use crate::util::*;
use koopa::front::Driver;
use koopa::front::span::{Error, FileType};
use koopa::ir::builder_traits::*;
use koopa::ir::entities::FunctionData;
use koopa::ir::*;
use koopa::opt::*;
use serde_json::{Value as J, json};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, RandomState};
use std::io::{Cursor, Read};
use std::rc::Rc;
use std::sync::mpsc::channel;
use std::sync::{Arc, Barrier};

// ------------------------------------------------------------------- parsers
struct Faulty {
  d: Vec<u8>,
  at: usize,
  pos: usize,
  failed: bool,
  again: String,
  kind: std::io::ErrorKind,
}
impl Read for Faulty {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if self.pos == self.at && (!self.failed || self.again == "fails") {
      self.failed = true;
      return Err(std::io::Error::new(self.kind, "planned fault"));
    }
    if b.is_empty() || self.pos == self.d.len() || (self.failed && self.again == "ends") {
      return Ok(0);
    }
    // never past the fault, not always as much as asked for
    let lim = if self.pos < self.at { self.at } else { self.d.len() };
    let n = b.len().min(lim - self.pos).min(1 + self.pos % 7);
    b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

type Job = Box<dyn FnOnce() -> Result<Program, Error>>;

fn driver(text: &str, e: &J, tmp: &str) -> Job {
  let bytes = text.as_bytes().to_vec();
  match s(e, "how") {
    "string" => {
      let d: Driver<_> = text.to_string().into();
      Box::new(move || d.generate_program())
    }
    "str" => {
      let t: &'static str = Box::leak(text.to_string().into_boxed_str());
      let d: Driver<_> = t.into();
      Box::new(move || d.generate_program())
    }
    "bytes" => {
      let d = Driver::new(FileType::Buffer, Cursor::new(bytes));
      Box::new(move || d.generate_program())
    }
    "file" => {
      let path = format!("{tmp}-{}", n(e, "d"));
      std::fs::write(&path, bytes).unwrap();
      let d = Driver::from_path(&path).unwrap();
      Box::new(move || {
        let r = d.generate_program();
        let _ = std::fs::remove_file(&path);
        r
      })
    }
    "path" => {
      let d = Driver::new(FileType::File("/nonexistent/no.koopa".into()), Cursor::new(bytes));
      Box::new(move || d.generate_program())
    }
    "slow" | "stdin" => {
      let t: &'static [u8] = Box::leak(bytes.into_boxed_slice());
      let d = Driver::new(if s(e, "how") == "slow" { FileType::Buffer } else { FileType::Stdin }, Slow(t));
      Box::new(move || d.generate_program())
    }
    "faulty" => {
      use std::io::ErrorKind::*;
      let kinds = [Other, UnexpectedEof, WouldBlock, BrokenPipe, InvalidData, TimedOut];
      let f = Faulty {
        at: bytes.len() * n(e, "at") / 1000,
        pos: 0,
        failed: false,
        again: s(e, "again").into(),
        kind: kinds[n(e, "d") % kinds.len()],
        d: bytes,
      };
      let ft = if n(e, "d") % 2 == 0 { FileType::Buffer } else { FileType::Stdin };
      let d = Driver::new(ft, f);
      Box::new(move || d.generate_program())
    }
    h => panic!("how {h}"),
  }
}

fn outcome(r: Result<Result<Program, Error>, String>) -> String {
  match r {
    Err(e) => format!("panic: {e}"),
    Ok(Err(_)) => "error".into(),
    Ok(Ok(p)) => listing(&p).to_string(),
  }
}

/// Outcome of parsing in a thread that parsed nothing before.
fn fresh(text: &str) -> String {
  let t = text.to_string();
  std::thread::Builder::new()
    .stack_size(1 << 26)
    .spawn(move || outcome(guard(|| Driver::from(t).generate_program())))
    .unwrap()
    .join()
    .unwrap()
}

pub fn m_one(path: &str) {
  println!("{}", outcome(guard(|| Driver::from(std::fs::read_to_string(path).unwrap()).generate_program())));
}

pub fn m_driver(texts: &str, hist: &str) {
  let mut o = Out::new();
  let tmp = format!("{}/kvd-{}", std::env::temp_dir().display(), std::process::id());
  let mut ts = vec![];
  for j in lines_of(texts) {
    let mut t = crate::prog::token_text(&j);
    if let Some(k) = j.get("times") {
      t = t.repeat(k.as_u64().unwrap() as usize);
    }
    let mut got = fresh(&t);
    let agrees = match s(&j, "v") {
      "ok" => serde_json::from_str::<J>(&got).is_ok_and(|g| diff(&norm(&j["p"]), &g, "").is_none()),
      "reject" => got == "error",
      _ => true,
    };
    if !agrees {
      // a fault of its own, or of what was parsed before?
      std::fs::write(&tmp, &t).unwrap();
      let r = std::process::Command::new(std::env::current_exe().unwrap()).args(["one", &tmp]).output().unwrap();
      let alone = String::from_utf8_lossy(&r.stdout).trim().to_string();
      let _ = std::fs::remove_file(&tmp);
      if alone != got {
        o.hit(0, &["C13"], format!("alone: {alone:.300}; after other parses: {got:.300}"), &t);
      }
      got = alone;
    }
    ts.push((t, got));
  }
  let ts = Arc::new(ts);
  for (i, h) in lines_of(hist).iter().enumerate() {
    o.add("histories", 1);
    let ev: Arc<Vec<J>> = Arc::new(h.as_array().unwrap().clone());
    let nt = ev.iter().map(|e| n(e, "t")).max().unwrap_or(1);
    for free in [false, true] {
      // in the order of the specification, or each thread at its own pace
      let mut go = vec![];
      let mut hs = vec![];
      let (done_tx, done_rx) = channel::<()>();
      for t in 1..=nt {
        let (tx, rx) = channel::<usize>();
        go.push(tx);
        let (ev, ts, dtx, tmp) = (ev.clone(), ts.clone(), done_tx.clone(), format!("{tmp}-{i}-{t}"));
        hs.push(
          std::thread::Builder::new()
            .stack_size(1 << 26)
            .spawn(move || {
              let mut ds: HashMap<usize, Job> = HashMap::new();
              let mut bad = vec![];
              let mut runs = 0;
              let mut step = |k: usize| {
                let e = &ev[k];
                let d = n(e, "d");
                match s(e, "op") {
                  "new" => {
                    let j = guard(|| driver(&ts[n(e, "x") % ts.len()].0, e, &tmp));
                    match j {
                      Ok(j) => drop(ds.insert(d, j)),
                      Err(m) => bad.push((k, format!("creating a driver panicked: {m}"))),
                    }
                  }
                  "drop" => drop(ds.remove(&d)),
                  _ => {
                    let Some(j) = ds.remove(&d) else { return };
                    let got = outcome(guard(j));
                    runs += 1;
                    let x = ev.iter().find(|c| s(c, "op") == "new" && n(c, "d") == d).unwrap();
                    let own = &ts[n(x, "x") % ts.len()].1;
                    let want = if s(e, "want") == "fail" { "error" } else { own };
                    if got != *want {
                      bad.push((k, format!("driver {d} ({}): got {got:.300}, expected {want:.300}", x)));
                    }
                  }
                }
              };
              if free {
                rx.recv().ok();
                for k in 0..ev.len() {
                  if n(&ev[k], "t") == t {
                    step(k);
                  }
                }
              } else {
                while let Ok(k) = rx.recv() {
                  step(k);
                  dtx.send(()).unwrap();
                }
              }
              (bad, runs)
            })
            .unwrap(),
        );
      }
      if free {
        for g in &go {
          g.send(0).unwrap();
        }
      } else {
        for (k, e) in ev.iter().enumerate() {
          if go[n(e, "t") - 1].send(k).is_err() || done_rx.recv().is_err() {
            break;
          }
        }
      }
      drop(go);
      let mut found = vec![];
      for h in hs {
        match h.join() {
          Ok((b, r)) => {
            found.extend(b);
            o.add("runs", r);
          }
          Err(_) => found.push((0, "a thread died".to_string())),
        }
      }
      if let Some((k, m)) = found.into_iter().min() {
        o.hit(i, &["C13"], format!("step {k}{}: {m}", if free { " (free running)" } else { "" }), &h.to_string());
        break;
      }
    }
  }
  o.end();
}

// --------------------------------------------------------------------- types
/// Reads a type back from text.
fn read_ty(t: &str) -> Result<Type, String> {
  let r = crate::prog::parse(&format!("decl @f(*{t})\n"))?;
  let p = r.map_err(|_| format!("type '{t}' is not read"))?;
  let f = p.func(p.func_layout()[0]).ty().clone();
  match f.kind() {
    TypeKind::Function(ps, _) => match ps[0].kind() {
      TypeKind::Pointer(b) => Ok(b.clone()),
      _ => Err("not a pointer".into()),
    },
    _ => Err("not a function".into()),
  }
}

fn types_run(h: &J) -> Result<usize, String> {
  let ev = h.as_array().unwrap();
  let ns = ev.first().map_or(0, |e| arr(e, "cl").len());
  let mut sl: Vec<Option<Type>> = vec![None; ns];
  Type::set_ptr_size(8);
  let hs = RandomState::new();
  let mut cmp = 0;
  for (k, e) in ev.iter().enumerate() {
    let a = strs(e, "a");
    let d = n(e, "d") - 1;
    let slot = |x: &str| sl[x.parse::<usize>().unwrap() - 1].clone().unwrap();
    let at = |m: String| format!("step {k} ({}): {m}", s(e, "op"));
    let r = guard(|| -> Result<Option<Option<Type>>, String> {
      let kind = a.first().is_some_and(|x| x == "kind");
      Ok(Some(Some(match s(e, "op") {
        "i32" if kind => Type::get(TypeKind::Int32),
        "i32" => Type::get_i32(),
        "unit" if kind => Type::get(TypeKind::Unit),
        "unit" => Type::get_unit(),
        "arr" if kind => Type::get(TypeKind::Array(slot(&a[1]), a[2].parse().unwrap())),
        "arr" => Type::get_array(slot(&a[1]), a[2].parse().unwrap()),
        "ptr" if kind => Type::get(TypeKind::Pointer(slot(&a[1]))),
        "ptr" => Type::get_pointer(slot(&a[1])),
        "fun" => {
          let v: Vec<Type> = a[1..a.len() - 1].iter().map(|x| slot(x)).collect();
          let r = slot(a.last().unwrap());
          if kind { Type::get(TypeKind::Function(v, r)) } else { Type::get_function(v, r) }
        }
        "copy" => slot(&a[0]),
        "read" => read_ty(&a[0])?,
        "drop" => return Ok(Some(None)),
        "dropall" => return Ok(None),
        "psize" => {
          Type::set_ptr_size(a[0].parse().unwrap());
          return Ok(Some(sl[d].clone()));
        }
        "arr0" => {
          if guard(|| Type::get_array(slot(&a[0]), 0)).is_ok() {
            return Err("an array of length 0 was made".into());
          }
          return Ok(Some(sl[d].clone()));
        }
        x => panic!("op {x}"),
      })))
    });
    match r.map_err(|m| at(format!("panicked: {m}")))?.map_err(&at)? {
      None => sl = vec![None; ns],
      Some(t) => sl[d] = t,
    }
    let cl = nums(e, "cl");
    let tx = strs(e, "tx");
    let sz = strs(e, "sz");
    let rd = nums(e, "rd");
    for i in 0..ns {
      let Some(t) = &sl[i] else {
        if cl[i] != 0 {
          return Err(at("slot without a type".into()));
        }
        continue;
      };
      cmp += 1;
      let shown = (t.to_string(), format!("{t:?}"), t.kind().to_string());
      if shown != (tx[i].clone(), tx[i].clone(), tx[i].clone()) {
        return Err(at(format!("'{}' prints as {shown:?}", tx[i])));
      }
      if ty_str(t) != tx[i] {
        return Err(at(format!("'{}' has the structure '{}'", tx[i], ty_str(t))));
      }
      if t.size().to_string() != sz[i] {
        return Err(at(format!("size of '{}' is {} instead of {}", tx[i], t.size(), sz[i])));
      }
      if (t.is_i32(), t.is_unit()) != (tx[i] == "i32", tx[i] == "unit") {
        return Err(at(format!("is_i32 or is_unit of '{}' is wrong", tx[i])));
      }
      if i == d && rd[i] == 1 {
        let r = guard(|| read_ty(&t.to_string())).and_then(|r| r).map_err(&at)?;
        if r != *t {
          return Err(at(format!("'{}' read back is another type", tx[i])));
        }
      }
      for j in 0..ns {
        if let Some(u) = &sl[j] {
          if (t == u) != (cl[i] == cl[j]) || (t != u) == (cl[i] == cl[j]) || (t.kind() == u.kind()) != (cl[i] == cl[j]) {
            return Err(at(format!("'{}' and '{}' compare wrongly", tx[i], tx[j])));
          }
          if cl[i] == cl[j] && hs.hash_one(t) != hs.hash_one(u) {
            return Err(at(format!("two equal types '{}' hash differently", tx[i])));
          }
        }
      }
    }
  }
  Type::set_ptr_size(8);
  Ok(cmp)
}

pub fn m_types(path: &str) {
  let mut o = Out::new();
  for (i, h) in lines_of(path).iter().enumerate() {
    o.add("histories", 1);
    // in this thread, after all that was made before, or in a new one
    let r = if i % 3 != 0 {
      types_run(h)
    } else {
      let h = h.clone();
      std::thread::spawn(move || types_run(&h)).join().unwrap_or(Err("thread died".into()))
    };
    match r {
      Ok(n) => o.add("types compared", n),
      Err(m) => o.hit(i, &["C06"], m, &h.to_string()),
    }
  }
  o.end();
}

// ------------------------------------------------------------------- handles
/// (class, handle as it hashes and compares, is_global)
#[derive(Default)]
struct Bag {
  v: Vec<(Value, bool)>,
  b: Vec<BasicBlock>,
  f: Vec<Function>,
}

struct Maker {
  p: Program,
  f: Function,
  n: usize,
}
impl Maker {
  fn new(bag: &mut Bag) -> Self {
    let mut p = Program::new();
    let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
    bag.f.push(f);
    Maker { p, f, n: 0 }
  }
  fn make(&mut self, k: &str, bag: &mut Bag) -> Result<(), String> {
    self.n += 1;
    let n = self.n;
    match k {
      "g" => {
        let v = match n % 4 {
          0 => self.p.new_value().integer(n as i32),
          1 => self.p.new_value().zero_init(Type::get_i32()),
          2 => self.p.new_value().undef(Type::get_i32()),
          _ => {
            let z = self.p.new_value().integer(0);
            bag.v.push((z, true));
            self.p.new_value().global_alloc(z)
          }
        };
        if !v.is_global() {
          return Err("a global value does not say it is global".into());
        }
        bag.v.push((v, true));
      }
      "l" => {
        let fd = self.p.func_mut(self.f);
        match n % 4 {
          0 => bag.v.push((fd.dfg_mut().new_value().integer(n as i32), false)),
          1 => bag.v.push((fd.dfg_mut().new_value().alloc(Type::get_i32()), false)),
          2 => bag.v.push((fd.dfg_mut().new_value().undef(Type::get_i32()), false)),
          _ => {
            let b = fd.dfg_mut().new_bb().basic_block_with_params(None, vec![Type::get_i32(), Type::get_i32()]);
            bag.b.push(b);
            bag.v.extend(fd.dfg().bb(b).params().iter().map(|v| (*v, false)));
          }
        }
        if bag.v.last().unwrap().0.is_global() {
          return Err("a local value says it is global".into());
        }
      }
      "b" => {
        let fd = self.p.func_mut(self.f);
        bag.b.push(fd.dfg_mut().new_bb().basic_block(None));
      }
      _ => {
        let (t, u) = (vec![Type::get_i32()], Type::get_unit());
        let f = match n % 3 {
          0 => self.p.new_func_def("@g".into(), t, u),
          1 => self.p.new_func_def_with_param_names("@h".into(), vec![(None, Type::get_i32())], u),
          _ => self.p.new_func_decl("@d".into(), t, u),
        };
        bag.v.extend(self.p.func(f).params().iter().map(|v| (*v, false)));
        bag.f.push(f);
      }
    }
    Ok(())
  }
}

fn distinct(bags: &[Bag]) -> Result<usize, String> {
  let mut vs = HashMap::new();
  let (mut bs, mut fs) = (HashSet::new(), HashSet::new());
  let mut n = 0;
  for bag in bags {
    for (v, g) in &bag.v {
      n += 1;
      if vs.insert(*v, *g).is_some() {
        return Err(format!("{v:?} was given twice"));
      }
      if v.is_global() != *g {
        return Err(format!("{v:?} changed its class"));
      }
    }
    for b in &bag.b {
      n += 1;
      if !bs.insert(*b) {
        return Err(format!("{b:?} was given twice"));
      }
    }
    for f in &bag.f {
      n += 1;
      if !fs.insert(*f) {
        return Err(format!("{f:?} was given twice"));
      }
    }
  }
  Ok(n)
}

/// The interleavings of the specification, one step at a time; then all
/// threads at once, `many` creations each.
pub fn m_ids(path: &str, many: usize) {
  let mut o = Out::new();
  for (i, h) in lines_of(path).iter().enumerate() {
    o.add("histories", 1);
    let ev: Vec<(usize, String)> =
      h.as_array().unwrap().iter().map(|e| (e[0].as_u64().unwrap() as usize, e[1].as_str().unwrap().to_string())).collect();
    let nt = ev.iter().map(|e| e.0).max().unwrap_or(1);
    let (dtx, drx) = channel::<()>();
    let mut go = vec![];
    let mut hs = vec![];
    for _ in 0..nt {
      let (tx, rx) = channel::<String>();
      let dtx = dtx.clone();
      go.push(tx);
      hs.push(std::thread::spawn(move || {
        let mut bag = Bag::default();
        let mut m = Maker::new(&mut bag);
        let mut bad = None;
        while let Ok(k) = rx.recv() {
          if let Err(e) = m.make(&k, &mut bag) {
            bad = Some(e);
          }
          dtx.send(()).unwrap();
        }
        (bag, bad)
      }));
    }
    for (t, k) in &ev {
      if go[t - 1].send(k.clone()).is_err() || drx.recv().is_err() {
        break;
      }
    }
    drop(go);
    let mut bags = vec![];
    let mut bad = None;
    for h in hs {
      match h.join() {
        Ok((b, e)) => {
          bags.push(b);
          bad = bad.or(e);
        }
        Err(_) => bad = Some("a thread died".into()),
      }
    }
    match bad.map_or_else(|| distinct(&bags), Err) {
      Ok(n) => o.add("handles", n),
      Err(m) => o.hit(i, &["C05"], m, &h.to_string()),
    }
  }
  for round in 0..4 {
    let bar = Arc::new(Barrier::new(8));
    let hs: Vec<_> = (0..8usize)
      .map(|t| {
        let bar = bar.clone();
        std::thread::spawn(move || {
          let mut bag = Bag::default();
          let mut m = Maker::new(&mut bag);
          let mut bad = None;
          bar.wait();
          for n in 0..many {
            // rounds: all kinds mixed, then one kind at a time
            let k = match round {
              0 => ["g", "l", "b", "l", "g"][(n + t) % 5],
              1 => "g",
              2 => "l",
              _ => if n % 3 == 0 { "f" } else { "b" },
            };
            if let Err(e) = m.make(k, &mut bag) {
              bad = Some(e);
            }
          }
          (bag, bad)
        })
      })
      .collect();
    let mut bags = vec![];
    let mut bad = None;
    for h in hs {
      match h.join() {
        Ok((b, e)) => {
          bags.push(b);
          bad = bad.or(e);
        }
        Err(_) => bad = Some("a thread died".into()),
      }
    }
    match bad.map_or_else(|| distinct(&bags), Err) {
      Ok(n) => o.add("handles of free runs", n),
      Err(m) => o.hit(0, &["C05"], format!("free running, round {round}: {m}"), ""),
    }
  }
  o.end();
}

// -------------------------------------------------------------------- passes
#[derive(Default)]
struct World {
  ids: HashMap<Function, u64>,
  next: u64,
  log: Vec<J>,
}
type W = Rc<RefCell<World>>;

fn see(w: &World, p: &Program) -> J {
  J::Array(
    p.func_layout()
      .iter()
      .map(|f| json!({"id": w.ids.get(f).copied().unwrap_or(0), "nm": p.func(*f).name()}))
      .collect(),
  )
}
fn add(w: &W, p: &mut Program, nm: String) {
  let f = p.new_func_def(nm, vec![], Type::get_unit());
  let mut w = w.borrow_mut();
  let id = w.next;
  w.next += 1;
  w.ids.insert(f, id);
}

struct M {
  w: W,
  k: String,
  p: usize,
  r: usize,
}
impl ModulePass for M {
  fn run_on(&mut self, p: &mut Program) {
    let saw = see(&self.w.borrow(), p);
    self.w.borrow_mut().log.push(json!({"p": self.p, "m": true, "r": self.r, "saw": saw}));
    let tag = |x: &str| format!("{x}_{}_{}", self.p, self.r);
    match self.k.as_str() {
      "madd" => add(&self.w, p, tag("@n")),
      "mdel" | "mrev" => {
        if let Some(f) = p.func_layout().first().copied() {
          p.remove_func(f);
          if self.k == "mrev" {
            add(&self.w, p, tag("@r"));
          }
        }
      }
      "mren" => {
        for d in p.funcs_mut().values_mut() {
          d.set_name(tag(d.name()));
        }
      }
      _ => {}
    }
    self.r += 1;
  }
}
/// One entry for each function it is given; folded by the harness.
struct F {
  w: W,
  k: String,
  p: usize,
  run: Rc<RefCell<usize>>,
  at: usize,
}
impl FunctionPass for F {
  fn run_on(&mut self, f: Function, d: &mut FunctionData) {
    let r = *self.run.borrow() - self.at;
    let id = self.w.borrow().ids.get(&f).copied().unwrap_or(0);
    self.w.borrow_mut().log.push(json!({"p": self.p, "m": false, "r": r, "saw": [{"id": id, "nm": d.name()}]}));
    if self.k == "fren" {
      d.set_name(format!("{}_{}_{r}", d.name(), self.p));
    }
  }
}

fn pass(w: &W, k: &str, p: usize, run: &Rc<RefCell<usize>>) -> Pass {
  if k.starts_with('m') {
    Pass::Module(Box::new(M { w: w.clone(), k: k.into(), p, r: 0 }))
  } else {
    Pass::Function(Box::new(F { w: w.clone(), k: k.into(), p, run: run.clone(), at: *run.borrow() }))
  }
}

/// Entries of a function pass in order of identifiers, put together.
fn fold(log: &[J]) -> J {
  let mut r: Vec<J> = vec![];
  for e in log {
    let fun = e["m"] == false;
    match r.last_mut() {
      Some(l) if fun && l["m"] == false && l["p"] == e["p"] && l["r"] == e["r"] => {
        let x = e["saw"][0].clone();
        l["saw"].as_array_mut().unwrap().push(x);
      }
      _ => r.push(e.clone()),
    }
  }
  for e in &mut r {
    if e["m"] == false {
      e["saw"].as_array_mut().unwrap().sort_by_key(|x| x["id"].as_u64());
    }
  }
  // a function pass over no function leaves no entry
  J::Array(r.into_iter().filter(|e| e["m"] == true || !arr(e, "saw").is_empty()).collect())
}

fn passes_run(h: &J) -> Result<usize, String> {
  let ev = h.as_array().unwrap();
  let w: W = Rc::default();
  w.borrow_mut().next = 1;
  let run = Rc::new(RefCell::new(0));
  let mut p = Program::new();
  let mut pm = PassManager::new();
  let mut np = 0;
  let mut ran = 0;
  for (k, e) in ev.iter().enumerate() {
    match s(e, "op") {
      "init" => {
        for f in arr(e, "fs") {
          add(&w, &mut p, s(f, "nm").into());
        }
        let from = strs(e, "from");
        if !from.is_empty() {
          let v: Vec<Pass> = from.iter().enumerate().map(|(i, k)| pass(&w, k, i + 1, &run)).collect();
          np = v.len();
          pm = v.into();
        }
      }
      "reg" => {
        np += 1;
        pm.register(pass(&w, s(e, "k"), np, &run));
      }
      "func" => add(&w, &mut p, s(&e["f"], "nm").into()),
      _ => {
        w.borrow_mut().log.clear();
        guard(|| pm.run_passes(&mut p)).map_err(|m| format!("step {k}: running panicked: {m}"))?;
        *run.borrow_mut() += 1;
        ran += np;
        let got = fold(&w.borrow().log);
        let want = fold(norm(&e["log"]).as_array().unwrap());
        if let Some(d) = diff(&want, &got, "log") {
          return Err(format!("step {k}: {d}"));
        }
        let left = see(&w.borrow(), &p);
        if let Some(d) = diff(&norm(&e["left"]), &left, "left") {
          return Err(format!("step {k}: {d}"));
        }
      }
    }
  }
  Ok(ran)
}

pub fn m_pass(path: &str) {
  let mut o = Out::new();
  for (i, h) in lines_of(path).iter().enumerate() {
    o.add("histories", 1);
    match passes_run(h) {
      Ok(n) => o.add("passes run", n),
      Err(m) => o.hit(i, &["C21"], m, &h.to_string()),
    }
  }
  o.end();
}

