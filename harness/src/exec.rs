//! Running programs: the LLVM IR of the generator under `lli`, the interpreter
//! example, and the optimizer example.
use crate::util::*;
use koopa::back::LlvmGenerator;
use koopa::front::Driver;
use serde_json::{Value as J, json};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ran {
  pub out: String,
  pub err: String,
  /// exit code, or None for a signal or no end
  pub code: Option<i32>,
  pub how: String,
}

/// Runs a command with a time limit and captured output.
pub fn run(cmd: &mut Command, dir: &Path, secs: u64) -> Ran {
  run_in(cmd, dir, secs, Stdio::null())
}
pub fn run_in(cmd: &mut Command, dir: &Path, secs: u64, input: Stdio) -> Ran {
  let (o, e) = (dir.join("stdout"), dir.join("stderr"));
  let mut child = cmd
    .stdin(input)
    .stdout(fs::File::create(&o).unwrap())
    .stderr(fs::File::create(&e).unwrap())
    .spawn()
    .expect("cannot start a tool");
  let t = Instant::now();
  let st = loop {
    match child.try_wait().unwrap() {
      Some(s) => break Some(s),
      None if t.elapsed() > Duration::from_secs(secs) => {
        child.kill().ok();
        child.wait().ok();
        break None;
      }
      None => std::thread::sleep(Duration::from_micros(300)),
    }
  };
  // bytes as characters: outputs are compared byte by byte
  let rd = |p: &PathBuf| fs::read(p).unwrap().into_iter().map(|b| b as char).collect::<String>();
  Ran { out: rd(&o), err: rd(&e), code: st.and_then(|s| s.code()), how: st.map_or("no end".into(), |s| s.to_string()) }
}

pub fn text_of(j: &J) -> String {
  arr(j, "lines")
    .iter()
    .map(|l| l.as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect::<Vec<_>>().join(" ") + "\n")
    .collect()
}
fn word(j: &J) -> String {
  j.as_str().map_or_else(|| j.to_string(), |s| s.to_string())
}
pub fn expected(j: &J) -> String {
  arr(j, "out").iter().map(|c| c.as_array().unwrap().iter().map(word).collect::<Vec<_>>().join(" ") + "\n").collect()
}
fn inputs(j: &J) -> String {
  arr(j, "ins").iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// `calls`, then the exit code of the process, against what the specification says.
fn judge(j: &J, r: &Ran) -> Option<String> {
  let want = expected(j);
  let code = (j["ret"].as_i64().unwrap() & 0xff) as i32;
  let tail = |s: &str| s.chars().take(600).collect::<String>();
  if r.out != want {
    let n = r.out.lines().zip(want.lines()).take_while(|(a, b)| a == b).count();
    return Some(format!(
      "call {} must be {:?} but is {:?} ({}, {})",
      n + 1,
      want.lines().nth(n).unwrap_or("the end"),
      r.out.lines().nth(n).unwrap_or("missing"),
      r.how,
      tail(&r.err)
    ));
  }
  if r.code != Some(code) {
    return Some(format!("must end with {code}: {}, {}", r.how, tail(&r.err)));
  }
  None
}

pub fn to_llvm(text: &str) -> Result<String, String> {
  guard(|| {
    let d: Driver<_> = text.to_string().into();
    let p = d.generate_program().map_err(|e| format!("not accepted: {e:?}"))?;
    let mut g = LlvmGenerator::new(Vec::new());
    g.generate_on(&p).map_err(|e| format!("{e}"))?;
    String::from_utf8(g.writer()).map_err(|e| e.to_string())
  })
  .map_err(|e| format!("panic: {e}"))?
}

pub fn scratch(file: &str) -> PathBuf {
  let d = PathBuf::from(format!("{file}.dir"));
  fs::create_dir_all(&d).unwrap();
  d
}

pub fn m_exec(file: &str, what: &str, lib: &str, tool: &str) {
  let dir = scratch(file);
  let mut found = vec![];
  let (mut done, mut skipped) = (0, 0);
  let mut opt_out = vec![];
  for (i, line) in fs::read_to_string(file).unwrap().lines().enumerate() {
    let j: J = serde_json::from_str(line).unwrap();
    let internal = j["ip"].as_bool().unwrap_or(false);
    // nothing is promised about undefined behaviour; the interpreter can not
    // hand its own memory to external functions
    if s(&j, "st") != "done" || (what == "interp" && internal) {
      skipped += 1;
      continue;
    }
    done += 1;
    let text = text_of(&j);
    let mut bad = |props: &[&str], msg: String, more: &str| {
      found.push(json!({"i": i, "props": props, "msg": msg, "text": format!("{text}\n{more}")}));
    };
    match what {
      "lli" => match to_llvm(&text) {
        Err(e) => bad(&["C16"], format!("no LLVM IR: {e}"), ""),
        Ok(ll) => {
          let f = dir.join("p.ll");
          fs::write(&f, &ll).unwrap();
          let r = run(Command::new(tool).arg(format!("--load={lib}")).arg(&f).env("VK_IN", inputs(&j)), &dir, 60);
          if let Some(m) = judge(&j, &r) {
            bad(&["C16"], m, &ll);
          }
        }
      },
      "interp" => {
        let f = dir.join("p.koopa");
        fs::write(&f, &text).unwrap();
        let r = run(Command::new(tool).arg(&f).arg("-l").arg(lib).env("VK_IN", inputs(&j)), &dir, 60);
        if let Some(m) = judge(&j, &r) {
          bad(&["C23"], m, "");
        }
      }
      "opt" => {
        let (f, o) = (dir.join("p.koopa"), dir.join("o.koopa"));
        fs::write(&f, &text).unwrap();
        fs::remove_file(&o).ok();
        let r = run(Command::new(tool).arg(&f).arg(&o), &dir, 60);
        if r.code != Some(0) {
          bad(&["C22"], format!("the optimizer failed: {}, {}", r.how, r.err.chars().take(400).collect::<String>()), "");
          continue;
        }
        let t = String::from_utf8(fs::read(&o).unwrap()).unwrap();
        let (toks, nl) = cut(&t);
        opt_out.push(json!({"run": true, "i": i, "t": toks, "nl": nl, "out": j["out"], "ret": j["ret"], "ins": j["ins"], "text": t, "src": text}));
      }
      _ => panic!(),
    }
  }
  if what == "opt" {
    let s: String = opt_out.iter().map(|j| j.to_string() + "\n").collect();
    fs::write(format!("{file}.opt"), s).unwrap();
  }
  println!("{}", json!({"found": found, "n": {"programs": done, "skipped": skipped}}));
}

/// The Brainfuck compiler: rejects what must be rejected, and what it emits runs
/// with the calls of the program (interpreter) and with its bytes (LLVM IR).
pub fn m_bf(file: &str, lib: &str, tools: &str, lli: &str) {
  let dir = scratch(file);
  let (bf, interp) = (format!("{tools}/brainfuck"), format!("{tools}/interpreter"));
  let mut found = vec![];
  let (mut accepted, mut rejected, mut ran) = (0, 0, 0);
  let mut outs = String::new();
  let (src, ir, ll, inp) = (dir.join("p.bf"), dir.join("p.koopa"), dir.join("p.ll"), dir.join("in"));
  for (i, line) in fs::read_to_string(file).unwrap().lines().enumerate() {
    let j: J = serde_json::from_str(line).unwrap();
    let text: String = arr(&j, "s").iter().map(|c| c.as_str().unwrap()).collect();
    let mut bad = |msg: String| found.push(json!({"i": i, "props": ["C24"], "msg": msg, "text": text}));
    fs::write(&src, &text).unwrap();
    fs::remove_file(&ir).ok();
    let r = run(Command::new(&bf).arg("-i").arg(&src).arg("-o").arg(&ir), &dir, 60);
    if s(&j, "st") == "reject" {
      rejected += 1;
      if r.code != Some(1) {
        bad(format!("unbalanced brackets must be rejected: {} {}", r.how, r.err));
      }
      continue;
    }
    accepted += 1;
    if r.code != Some(0) {
      bad(format!("must be compiled: {} {}", r.how, r.err));
      continue;
    }
    let t = fs::read_to_string(&ir).unwrap();
    let (toks, nl) = cut(&t);
    let done = s(&j, "st") == "done";
    outs += &(json!({"i": i, "t": toks, "nl": nl, "run": done, "out": j["out"], "ret": 0, "ins": j["ins"]}).to_string() + "\n");
    if !done {
      continue;
    }
    ran += 1;
    let jj = json!({"out": j["out"], "ret": 0});
    let r = run(Command::new(&interp).arg(&ir).arg("-l").arg(lib).env("VK_IN", inputs(&j)), &dir, 60);
    if let Some(m) = judge(&jj, &r) {
      bad(format!("interpreted: {m}"));
    }
    let r = run(Command::new(&bf).arg("-i").arg(&src).arg("-o").arg(&ll).arg("-ll"), &dir, 60);
    if r.code != Some(0) {
      bad(format!("must be compiled to LLVM IR: {} {}", r.how, r.err));
      continue;
    }
    let bytes: Vec<u8> = arr(&j, "ins").iter().map(|x| x.as_i64().unwrap() as u8).collect();
    fs::write(&inp, bytes).unwrap();
    let r = run_in(Command::new(lli).arg(&ll), &dir, 60, fs::File::open(&inp).unwrap().into());
    let want: String = arr(&j, "out")
      .iter()
      .filter(|c| c[0] == "putchar")
      .map(|c| c[1].as_i64().unwrap() as u8 as char)
      .collect();
    if r.out != want || r.code != Some(0) {
      bad(format!("LLVM IR: must write {want:?} but writes {:?} ({} {})", r.out, r.how, r.err));
    }
  }
  fs::write(format!("{file}.opt"), outs).unwrap();
  println!("{}", json!({"found": found, "n": {"programs": accepted, "rejected": rejected, "executed": ran}}));
}

/// Tokens of generated text (which has no comments), and whether each starts a line.
pub fn cut(t: &str) -> (Vec<String>, Vec<i32>) {
  let (mut toks, mut nl) = (vec![], vec![]);
  for line in t.lines() {
    let mut first = 1;
    let b: Vec<char> = line.chars().collect();
    let mut k = 0;
    while k < b.len() {
      if b[k].is_whitespace() {
        k += 1;
        continue;
      }
      let st = k;
      let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
      k += 1;
      if b[st] == '@' || b[st] == '%' || b[st] == '-' || word(b[st]) {
        while k < b.len() && word(b[k]) {
          k += 1;
        }
      }
      toks.push(b[st..k].iter().collect());
      nl.push(first);
      first = 0;
    }
  }
  (toks, nl)
}

/// Tokens of LLVM IR, line by line.
pub fn ll_lines(t: &str) -> Vec<Vec<String>> {
  let word = |c: char| c.is_ascii_alphanumeric() || "_$.-".contains(c);
  t.lines()
    .map(|line| {
      let b: Vec<char> = line.chars().collect();
      let (mut k, mut out) = (0, vec![]);
      while k < b.len() {
        let st = k;
        k += 1;
        if b[st] == ';' {
          break;
        }
        if b[st].is_whitespace() {
          continue;
        }
        if b[st] == '@' || b[st] == '%' || word(b[st]) {
          while k < b.len() && word(b[k]) {
            k += 1;
          }
        }
        out.push(b[st..k].iter().collect());
      }
      out
    })
    .collect()
}

/// LLVM IR of built programs: recorded for the specification, and given to the
/// assembler, whose verdict is kept.
pub fn m_llvm(file: &str, assembler: &str) {
  use crate::prog::{build, diff, lines_of, listing, norm};
  let dir = scratch(file);
  let mut o = crate::prog::Out::new();
  let mut recs = String::new();
  let f = dir.join("m.ll");
  let mut prev: Option<koopa::ir::Program> = None;
  for (i, j) in lines_of(file).iter().enumerate() {
    let l = norm(&j["p"]);
    let p = build(&l, i % 2 == 0);
    if diff(&l, &listing(&p), "p").is_some() {
      o.add("not built", 1);
      continue;
    }
    o.add("programs", 1);
    // alone, and with a generator that was used before
    let gen2 = |q: Option<&koopa::ir::Program>| {
      guard(|| {
        let mut g = LlvmGenerator::new(Vec::new());
        let n = q.map_or(0, |q| {
          g.generate_on(q).unwrap();
          let mut h = LlvmGenerator::new(Vec::new());
          h.generate_on(q).unwrap();
          h.writer().len()
        });
        g.generate_on(&p).unwrap();
        let t = String::from_utf8(g.writer()).unwrap();
        t[n.min(t.len())..].to_string()
      })
    };
    for (again, q) in [(false, None), (true, prev.as_ref())] {
      if again && (q.is_none() || i % 5 != 0) {
        continue;
      }
      match gen2(q) {
        Err(e) => o.hit(i, &["C15"], format!("generating LLVM IR panicked: {e}"), ""),
        Ok(ll) => {
          fs::write(&f, &ll).unwrap();
          let r = run(Command::new(assembler).arg("-o").arg("/dev/null").arg(&f), &dir, 60);
          let asm = if r.code == Some(0) { String::new() } else { format!("{} {}", r.how, r.err) };
          recs += &(json!({"i": i, "ll": ll_lines(&ll), "asm": asm, "text": ll}).to_string() + "\n");
        }
      }
    }
    prev = Some(p);
  }
  fs::write(format!("{file}.opt"), recs).unwrap();
  o.end();
}
