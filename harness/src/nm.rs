//! Histories of the name manager (C27) and of failing writers (C28).
use crate::prog::{Out, lines_of};
use crate::util::*;
use koopa::back::{NameManager, Prefix};
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use serde_json::{Value as J, json};
use std::num::NonZeroUsize;

#[derive(Clone, Copy)]
enum E {
  G(Value),
  F(Function),
  B(Function, BasicBlock),
  V(Function, Value),
}

/// `#` in a name stands for a letter of two bytes.
fn enc(s: &str) -> String {
  s.replace('#', "é")
}
fn opt(s: &str) -> Option<String> {
  (!s.is_empty()).then(|| enc(s))
}

fn build(ents: &[J]) -> (Program, Vec<E>, (Function, Value)) {
  let mut p = Program::new();
  let k = |e: &J| s(e, "k").to_string();
  let of = |e: &J, f: usize, kd: &str| k(e) == kd && n(e, "f") == f;
  let mut out: Vec<Option<E>> = vec![None; ents.len()];
  let mut konst = None;
  for (i, e) in ents.iter().enumerate() {
    match s(e, "k") {
      "g" => {
        let z = p.new_value().zero_init(Type::get_i32());
        let g = p.new_value().global_alloc(z);
        p.set_value_name(g, opt(s(e, "nm")));
        out[i] = Some(E::G(g));
      }
      "f" => {
        let np = ents.iter().filter(|e| of(e, i + 1, "p")).count();
        let f = p.new_func_def(enc(s(e, "nm")), vec![Type::get_i32(); np], Type::get_unit());
        out[i] = Some(E::F(f));
        let fd = p.func_mut(f);
        let mut ps = fd.params().to_vec().into_iter();
        let nq = ents.iter().filter(|e| of(e, i + 1, "q")).count();
        let bb0 = fd.dfg_mut().new_bb().basic_block_with_params(None, vec![Type::get_i32(); nq]);
        fd.layout_mut().bbs_mut().push_key_back(bb0).ok().unwrap();
        let mut qs = fd.dfg().bb(bb0).params().to_vec().into_iter();
        for (j, e) in ents.iter().enumerate() {
          if !matches!(s(e, "k"), "b" | "v" | "p" | "q") || n(e, "f") != i + 1 {
            continue;
          }
          let nm = opt(s(e, "nm"));
          out[j] = Some(match s(e, "k") {
            "b" => {
              let bb = fd.dfg_mut().new_bb().basic_block(nm);
              fd.layout_mut().bbs_mut().push_key_back(bb).ok().unwrap();
              E::B(f, bb)
            }
            kd => {
              let v = match kd {
                "p" => ps.next().unwrap(),
                "q" => qs.next().unwrap(),
                _ => {
                  let v = fd.dfg_mut().new_value().alloc(Type::get_i32());
                  fd.layout_mut().bb_mut(bb0).insts_mut().push_key_back(v).ok().unwrap();
                  v
                }
              };
              fd.dfg_mut().set_value_name(v, nm);
              E::V(f, v)
            }
          });
        }
        konst = Some((f, fd.dfg_mut().new_value().integer(7)));
      }
      _ => {}
    }
  }
  (p, out.into_iter().map(|e| e.unwrap()).collect(), konst.unwrap())
}

fn play(p: &Program, ents: &[E], konst: (Function, Value), ops: &[J]) -> Vec<String> {
  let mut nm = NameManager::new();
  ops
    .iter()
    .map(|o| {
      let r = guard(|| match s(o, "o") {
        "enter" => {
          nm.enter_func_scope();
          String::new()
        }
        "exit" => {
          nm.exit_func_scope();
          String::new()
        }
        "pre" => {
          let q = &o["p"];
          nm.set_prefix(if q["d"] == true {
            Prefix::Default
          } else {
            Prefix::Custom {
              named: enc(s(q, "named")),
              temp: enc(s(q, "temp")),
              max_len: NonZeroUsize::new(n(q, "max")),
            }
          });
          String::new()
        }
        "temp" => nm.temp_value_name().to_string(),
        "const" => nm.value_name(p.func(konst.0).dfg().value(konst.1)).to_string(),
        "name" => match ents[n(o, "e") - 1] {
          E::G(g) => nm.value_name(&p.borrow_value(g)).to_string(),
          E::F(f) => nm.func_name(p.func(f)).to_string(),
          E::B(f, b) => nm.bb_name(p.func(f).dfg().bb(b)).to_string(),
          E::V(f, v) => nm.value_name(p.func(f).dfg().value(v)).to_string(),
        },
        x => panic!("unknown step {x}"),
      });
      r.unwrap_or_else(|_| "!panic".into()).replace('é', "#")
    })
    .collect()
}

pub fn m_names(file: &str) {
  let mut o = Out::new();
  let mut recs = String::new();
  for (i, j) in lines_of(file).iter().enumerate() {
    let (p, ents, konst) = build(arr(j, "ents"));
    let ops = arr(j, "ops");
    let a = play(&p, &ents, konst, ops);
    o.add("histories", 1);
    o.add("steps", ops.len());
    // the answers are a function of the history
    let b = play(&p, &ents, konst, ops);
    if let Some(k) = (0..ops.len()).find(|k| a[*k] != b[*k]) {
      o.hit(i, &["C27"], format!("step {} is answered differently the second time", k + 1), &j.to_string());
    }
    let ops: Vec<J> = ops
      .iter()
      .zip(&a)
      .map(|(x, r)| {
        let mut x = x.clone();
        x["r"] = json!(r);
        x
      })
      .collect();
    recs += &(json!({"i": i, "ents": j["ents"], "ops": ops}).to_string() + "\n");
  }
  std::fs::write(format!("{file}.opt"), recs).unwrap();
  o.end();
}

// ------------------------------------------------------------------- writers
use crate::prog::{build as build_prog, diff, listing, norm};
use koopa::back::{Generator, KoopaGenerator, LlvmGenerator, Visitor};
use std::io::{Error, ErrorKind, Write};

struct Gated {
  gates: Vec<(usize, String)>,
  next: usize,
  step: usize,
  data: Vec<u8>,
  calls: usize,
}
fn kind(s: &str) -> ErrorKind {
  use ErrorKind::*;
  *[
    NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData,
    TimedOut, WriteZero, StorageFull, Unsupported, UnexpectedEof, OutOfMemory, Other, Interrupted,
  ]
  .iter()
  .find(|k| format!("{k:?}") == s)
  .unwrap()
}
impl Write for &mut Gated {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if b.is_empty() {
      return Ok(0);
    }
    self.calls += 1;
    let mut room = if self.step == 0 { b.len() } else { self.step };
    if let Some((at, w)) = self.gates.get(self.next).cloned() {
      if at == self.data.len() {
        self.next += 1;
        return if w == "zero" { Ok(0) } else { Err(Error::new(kind(&w), "planned")) };
      }
      room = room.min(at - self.data.len());
    }
    let n = room.min(b.len());
    self.data.extend_from_slice(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

fn sink<'a, V: Visitor<&'a mut Gated, Output = ()> + Default>(
  p: &Program, text: &str, j: &J, m: usize, g: &'a mut Gated,
) -> Option<String> {
  let len = text.len();
  let at = |k: usize| k * len / m;
  g.gates = arr(j, "plan").iter().map(|x| (at(n(x, "at")), s(x, "w").to_string())).collect();
  g.step = n(j, "step");
  let gp: *const Gated = g;
  let mut gen_ = Generator::<_, V>::new(g);
  let mut want: Vec<u8> = vec![];
  for (k, r) in arr(j, "res").iter().enumerate() {
    want.extend_from_slice(&text.as_bytes()[..at(n(r, "to")) - at(n(r, "from"))]);
    let got = match guard(|| gen_.generate_on(p)) {
      Err(e) => format!("a panic: {e}"),
      Ok(Ok(())) => "ok".into(),
      Ok(Err(e)) => format!("{:?}", e.kind()),
    };
    // the generator holds the only reference, and is not writing now
    let data = unsafe { &(*gp).data };
    if got != s(r, "r") {
      return Some(format!("attempt {}: expected {}, got {got}", k + 1, s(r, "r")));
    }
    if data != &want {
      let same = data.iter().zip(&want).take_while(|(a, b)| a == b).count();
      return Some(format!("attempt {} ({got}): {} bytes written, expected {}; they differ from byte {same} on", k + 1, data.len(), want.len()));
    }
  }
  None
}

/// file: plans; progs: programs to write, taken in turn.
pub fn m_sink(file: &str, progs: &str, m: usize) {
  let mut o = Out::new();
  let ps: Vec<_> = lines_of(progs)
    .iter()
    .filter_map(|j| {
      let l = norm(&j["p"]);
      let p = build_prog(&l, true);
      if diff(&l, &listing(&p), "p").is_some() {
        return None;
      }
      let k = guard(|| {
        let mut g = KoopaGenerator::new(Vec::new());
        g.generate_on(&p).unwrap();
        String::from_utf8(g.writer()).unwrap()
      })
      .ok()?;
      let ll = guard(|| {
        let mut g = LlvmGenerator::new(Vec::new());
        g.generate_on(&p).unwrap();
        String::from_utf8(g.writer()).unwrap()
      })
      .ok()?;
      (k.len() >= 2 * m && ll.len() >= 2 * m).then_some((p, k, ll))
    })
    .collect();
  o.add("texts written", ps.len() * 2);
  if ps.is_empty() {
    o.add("no programs", 1);
    o.end();
    return;
  }
  for (i, j) in lines_of(file).iter().enumerate() {
    let (p, k, ll) = &ps[i % ps.len()];
    for (llvm, text) in [(false, k), (true, ll)] {
      let mut g = Gated { gates: vec![], next: 0, step: 0, data: vec![], calls: 0 };
      let r = if llvm {
        sink::<koopa::back::llvm::Visitor>(p, text, j, m, &mut g)
      } else {
        sink::<koopa::back::koopa::Visitor>(p, text, j, m, &mut g)
      };
      o.add("calls of write", g.calls);
      if let Some(e) = r {
        o.hit(i, &["C28"], format!("{}: {e}", if llvm { "LLVM IR" } else { "Koopa IR" }), text);
      }
    }
    o.add("plans", 1);
  }
  // files
  let dir = crate::exec::scratch(file);
  for (i, (p, k, ll)) in ps.iter().enumerate().take(50) {
    let f = dir.join("out");
    std::fs::write(&f, "x".repeat(k.len() + ll.len() + 10)).unwrap();
    let r = guard(|| KoopaGenerator::from_path(&f).and_then(|mut g| g.generate_on(p)));
    if !matches!(r, Ok(Ok(()))) || std::fs::read_to_string(&f).unwrap() != *k {
      o.hit(i, &["C28"], format!("to a file: {r:?}, or other text than to memory"), k);
    }
    let r = guard(|| LlvmGenerator::from_path(&f).and_then(|mut g| g.generate_on(p)));
    if !matches!(r, Ok(Ok(()))) || std::fs::read_to_string(&f).unwrap() != *ll {
      o.hit(i, &["C28"], format!("to a file: {r:?}, or other text than to memory"), ll);
    }
    let r = guard(|| KoopaGenerator::from_path("/dev/full").and_then(|mut g| g.generate_on(p)));
    if !matches!(&r, Ok(Err(e)) if e.kind() == ErrorKind::StorageFull) {
      o.hit(i, &["C28"], format!("to a full device: {r:?}"), k);
    }
    let r = guard(|| LlvmGenerator::from_path("/dev/full").and_then(|mut g| g.generate_on(p)));
    if !matches!(&r, Ok(Err(e)) if e.kind() == ErrorKind::StorageFull) {
      o.hit(i, &["C28"], format!("to a full device: {r:?}"), ll);
    }
    for (bad, want) in [(dir.join("missing/out"), ErrorKind::NotFound), (dir.clone(), ErrorKind::IsADirectory)] {
      let r = guard(|| KoopaGenerator::from_path(&bad).map(|_| ()));
      if !matches!(&r, Ok(Err(e)) if e.kind() == want) {
        o.hit(i, &["C28"], format!("a generator for {bad:?}: {r:?}, expected {want:?}"), "");
      }
    }
    o.add("files", 2);
  }
  let _ = std::fs::remove_dir_all(&dir);
  o.end();
}
