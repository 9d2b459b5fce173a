//! Large texts: schemes with repeated pieces, written out with many repetitions
//! and read on a small stack, in child processes.
use crate::prog::*;
use crate::raw::{Lib, children, load_layout};
use crate::util::*;
use koopa::back::LlvmGenerator;
use koopa::ir::{Program, ValueKind};
use serde_json::{Value as J, json};

unsafe extern "C" {
  fn alarm(s: u32) -> u32;
}

fn fill(s: &str, i: usize, n: usize, out: &mut String) {
  let mut cs = s.chars();
  let mut before = ' ';
  while let Some(c) = cs.next() {
    if c != '#' {
      out.push(c);
      before = c;
      continue;
    }
    match cs.next().unwrap() {
      '0' => out.push_str(&i.to_string()),
      '1' => out.push_str(&(i + 1).to_string()),
      'p' => out.push_str(&(i - 1).to_string()),
      'n' => out.push_str(&n.to_string()),
      'm' => out.push_str(&(n + 1).to_string()),
      ',' => out.push_str(if i < n { ", " } else { "" }),
      ';' => out.push_str(if i > 1 { ", " } else { "" }),
      _ => (0..n).for_each(|_| out.push(before)),
    }
  }
}
/// The text of a scheme with n repetitions.
pub fn whole(ps: &J, n: usize) -> String {
  let mut out = String::new();
  for p in ps.as_array().unwrap() {
    let t = p[1].as_str().unwrap();
    if p[0] == 0 {
      fill(t, 1, n, &mut out);
    } else {
      (1..=n).for_each(|i| fill(t, i, n, &mut out));
    }
  }
  out
}

fn count(p: &Program) -> J {
  let (mut bs, mut is, mut ps) = (0, 0, 0);
  for f in p.func_layout() {
    let d = p.func(*f);
    ps += match d.ty().kind() {
      koopa::ir::TypeKind::Function(a, _) => a.len(),
      _ => 0,
    };
    for (b, n) in d.layout().bbs() {
      bs += 1;
      ps += d.dfg().bb(*b).params().len();
      is += n.insts().len();
    }
  }
  let gs = p.inst_layout().iter().filter(|v| matches!(p.borrow_value(**v).kind(), ValueKind::GlobalAlloc(_))).count();
  json!([gs, p.func_layout().len(), bs, is, ps])
}

type Bad = Option<(Vec<&'static str>, String)>;
fn bad(p: &[&'static str], m: impl Into<String>) -> Bad {
  Some((p.to_vec(), m.into()))
}

fn front(text: &str, verdict: &str, want: &J) -> Result<Option<Program>, Bad> {
  match parse(text) {
    Err(e) => Err(bad(&["C12"], format!("parsing panicked: {e}"))),
    Ok(Err(e)) if verdict == "ok" => Err(bad(&["C10"], format!("a well-formed text was rejected: {e}"))),
    Ok(Ok(_)) if verdict != "ok" => Err(bad(&["C11"], "an ill-formed text was accepted")),
    Ok(Err(_)) => Ok(None),
    Ok(Ok(p)) => {
      if &count(&p) != want {
        return Err(bad(&["C10", "C14"], format!("globals, functions, blocks, instructions, parameters: {} instead of {want}", count(&p))));
      }
      Ok(Some(p))
    }
  }
}

fn same(a: &str, b: &str) -> Option<String> {
  let (a, b) = (tokens(a), tokens(b));
  let i = a.iter().zip(&b).position(|(x, y)| x != y);
  if i.is_none() && a.len() == b.len() {
    return None;
  }
  let i = i.unwrap_or(a.len().min(b.len()));
  let at = |t: &[String]| t[i.saturating_sub(5).min(t.len())..(i + 5).min(t.len())].join(" ");
  Some(format!("token {i}: {} instead of {}", at(&b), at(&a)))
}

fn one(stage: &str, j: &J, n: usize, want: &J, lib: Option<&Lib>) -> Bad {
  let text = whole(&j["ps"], n);
  let p = match front(&text, s(j, "v"), want) {
    Err(b) => return b,
    Ok(None) => {
      if let Some(l) = lib {
        let (r, _) = l.parse(&text);
        if r != 3 {
          return bad(&["C20"], format!("an ill-formed text gives {r}"));
        }
      }
      return None;
    }
    Ok(Some(p)) => p,
  };
  match stage {
    "print" => {
      let t = match print(&p) {
        Err(e) => return bad(&["C12", "C09"], format!("printing panicked: {e}")),
        Ok(t) => t,
      };
      if j["canon"] == 1 {
        if let Some(d) = same(&text, &t) {
          return bad(&["C09", "C08"], format!("printed with other tokens: {d}"));
        }
      }
      drop(p);
      match front(&t, "ok", want) {
        Err(b) => return bad(&["C09"], format!("read back: {}", b.unwrap().1)),
        Ok(q) => {
          if let Some(d) = print(&q.unwrap()).map_or_else(Some, |u| same(&t, &u)) {
            return bad(&["C09"], format!("printed again with other tokens: {d}"));
          }
        }
      }
    }
    "llvm" => {
      let mut g = LlvmGenerator::new(Vec::new());
      if let Err(e) = guard(|| g.generate_on(&p).unwrap()) {
        return bad(&["C15"], format!("no LLVM IR: {e}"));
      }
    }
    "raw" => {
      let Ok(t) = print(&p) else { return None };
      let l = lib.unwrap();
      let (r, q) = l.parse(&text);
      if r != 0 {
        return bad(&["C20"], format!("parsing a well-formed text gives {r}"));
      }
      if let Some(d) = l.text(q, 0).map_or_else(Some, |u| same(&t, &u)) {
        return bad(&["C20"], format!("dumped otherwise than printed: {d}"));
      }
      match l.rebuilt(q) {
        Err(e) => return bad(&["C18"], e),
        Ok(u) => {
          if let Some(d) = same(&t, &u) {
            return bad(&["C17", "C18"], format!("through its raw form: {d}"));
          }
        }
      }
    }
    _ => {}
  }
  None
}

pub fn main(a: &[String]) {
  let (path, stage) = (&a[0], a[1].as_str());
  let lib = a.get(2).map(|l| {
    load_layout(l);
    Lib::open(&a[3])
  });
  let dead: &[&'static str] = match stage {
    "front" => &["C12", "C10", "C11", "C14", "C25"],
    "print" => &["C08", "C09"],
    "llvm" => &["C15", "C16"],
    _ => &["C17", "C18", "C20"],
  };
  let mut o = Out::new();
  let lines = lines_of(path);
  children(&mut o, lines.len(), path, dead, |_| true, |i, found, cnt| {
    let j = &lines[i];
    unsafe { alarm(120) };
    std::thread::scope(|sc| {
      let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || {
        let s = arr(j, "small");
        for (n, want) in [(&s[0], &s[1]), (&s[2], &s[3]), (&j["n"], &j["cnt"])] {
          let n = n.as_u64().unwrap() as usize;
          if let Some((p, m)) = one(stage, j, n, want, lib.as_ref()) {
            return Some((p, format!("{} with {n} repetitions: {m}", j["nm"])));
          }
        }
        None
      });
      *cnt.entry("schemes".into()).or_default() += 1;
      if let Some((p, m)) = h.unwrap().join().unwrap() {
        found.push((p, m, j["ps"].to_string()));
      }
    });
  });
  o.end();
}
