//! Reports about texts (C26): their number, and where they point.
use crate::lexm::{bytes_of, parse_bytes, show};
use crate::prog::{Out, lines_of, token_text};
use crate::util::*;
use koopa::front::Driver;
use koopa::front::span::Span;
use koopa::ir::Program;
use serde_json::Value as J;
use std::fs::File;
use std::os::fd::AsRawFd;

unsafe extern "C" {
  fn dup2(a: i32, b: i32) -> i32;
}

/// What is written to the standard error of this process.
pub struct Err {
  f: File,
  path: std::path::PathBuf,
}
impl Err {
  pub fn new(path: std::path::PathBuf) -> Self {
    let f = std::fs::OpenOptions::new().create(true).append(true).open(&path).unwrap();
    assert!(unsafe { dup2(f.as_raw_fd(), 2) } == 2);
    Err { f, path }
  }
  pub fn take(&self) -> String {
    let r = String::from_utf8_lossy(&std::fs::read(&self.path).unwrap()).into_owned();
    self.f.set_len(0).unwrap();
    r
  }
}

#[derive(Debug, Clone, PartialEq)]
struct Report {
  error: bool,
  /// Line and column.
  at: Option<(usize, usize)>,
  excerpt: Vec<String>,
}

/// `error: message`, `  at <buffer>:line:column`, and for files some lines of it.
fn reports(err: &str, name: &str) -> Vec<Report> {
  let mut r: Vec<Report> = vec![];
  for l in err.lines() {
    if l.starts_with("error: ") || l.starts_with("warning: ") {
      r.push(Report { error: l.starts_with("error"), at: None, excerpt: vec![] });
    } else if let Some(x) = r.last_mut() {
      if x.at.is_none() {
        if let Some(p) = l.trim_start().strip_prefix("at ").and_then(|p| p.strip_prefix(name)).and_then(|p| p.strip_prefix(':')) {
          let mut n = p.split(':').map(|n| n.parse::<usize>());
          if let (Some(Ok(a)), Some(Ok(b)), None) = (n.next(), n.next(), n.next()) {
            x.at = Some((a, b));
          }
        }
      } else {
        x.excerpt.push(l.into());
      }
    }
  }
  r
}

/// The first lines of an excerpt show the line the report is about, and mark the column.
fn excerpt(r: &Report, lines: &[String]) -> Result<bool, String> {
  let Some((l, c)) = r.at else { return Ok(false) };
  let src = match lines.get(l.wrapping_sub(1)) {
    Some(s) if c > 0 => s,
    _ => return Ok(false),
  };
  if !src.is_ascii() || r.excerpt.iter().all(|l| l.is_empty()) {
    return Ok(false);
  }
  let bad = |m: &str| Err(format!("{m}, in the excerpt for line {l}, column {c}: {:?}", r.excerpt));
  // the line, with its number
  let Some(n) = r.excerpt.iter().position(|e| e.trim_start().starts_with(&format!("{l} |"))) else {
    return bad("the line does not appear");
  };
  let e = &r.excerpt[n];
  let shown = src.replace('\t', "  ");
  let Some(body) = e.find('|').map(|b| b + 1) else { return bad("no line") };
  let Some(text) = e[body..].find(&shown).map(|b| b + body).filter(|_| e.ends_with(&shown)) else {
    return bad("another text is shown");
  };
  let text = text.max(e.len() - shown.len());
  let col = text + src[..c.min(src.len()) - 1].replace('\t', "  ").len();
  let Some(mark) = r.excerpt.get(n + 1).and_then(|m| m.find('^')) else { return bad("nothing is marked") };
  // a tab is shown as two blanks
  let tab = src.as_bytes().get(c - 1) == Some(&b'\t');
  if mark != col && !(tab && mark == col + 1) {
    return bad(&format!("place {mark} is marked, not {col}"));
  }
  Ok(true)
}

/// Outcome, number of errors and warnings, reports.
type Seen = (Result<Program, String>, usize, usize, Vec<Report>);

fn account(what: &str, seen: &Seen, text: &str, err: &str) -> Option<String> {
  let (r, e, w, rs) = seen;
  let (re, rw) = (rs.iter().filter(|r| r.error).count(), rs.iter().filter(|r| !r.error).count());
  if r.is_ok() != (*e == 0) {
    return Some(format!("{what}: {e} errors, but the outcome is {}", if r.is_ok() { "a program" } else { "an error" }));
  }
  if (re, rw) != (*e, *w) {
    return Some(format!("{what}: {e} errors and {w} warnings are counted, {re} and {rw} are reported"));
  }
  let lines = text.matches('\n').count() + 1;
  if let Some(r) = rs.iter().find(|r| r.at.is_some_and(|a| a.0 == 0 || a.0 > lines)) {
    return Some(format!("{what}: a report points to line {}, of {lines}", r.at.unwrap().0));
  }
  if let Some(l) = err.lines().rev().find(|l| l.ends_with(" emitted")) {
    let part = |n: usize, s: &str| if n == 0 { String::new() } else { format!("{n} {s}{}", if n > 1 { "s" } else { "" }) };
    let (a, b) = (part(*e, "error"), part(*w, "warning"));
    let want = format!("{a}{}{b} emitted", if *e > 0 && *w > 0 { " and " } else { "" });
    if l != want {
      return Some(format!("{what}: the summary is '{l}', expected '{want}'"));
    }
  }
  None
}

fn marks(j: &J, k: &str) -> Vec<(usize, usize)> {
  arr(j, k).iter().map(|m| (m[0].as_u64().unwrap() as usize, m[1].as_u64().unwrap() as usize)).collect()
}

/// Where the first error may point, and where the warnings point.
fn places_of(j: &J) -> (Vec<(usize, usize)>, Vec<(usize, usize)>) {
  if j.get("b").is_some() {
    return (marks(j, "ms"), marks(j, "dms"));
  }
  // one token after the other, each after a blank or a line feed
  let (mut at, mut l, mut c) = (vec![], 1, 0);
  for (t, n) in strs(j, "t").iter().zip(nums(j, "nl")) {
    if n == 1 {
      l += 1;
      c = 0;
    } else {
      c += 1;
    }
    at.push((l, c + 1));
    c += t.len();
  }
  at.push((l + 1, 0));
  let get = |k: &str| nums(j, k).iter().map(|n| at[*n as usize - 1]).collect::<Vec<_>>();
  (get("at"), get("dead"))
}

/// The same without the logger: nothing is printed, the error says what is wrong and where.
#[cfg(feature = "quiet")]
pub fn m_quiet(path: &str) {
  let dir = crate::exec::scratch(path);
  let err = Err::new(dir.join("stderr"));
  let mut o = Out::new();
  for (i, j) in lines_of(path).iter().enumerate() {
    let raw = if j.get("b").is_some() { bytes_of(j) } else { token_text(j).into_bytes() };
    let text = show(&raw);
    let verdict = s(j, "v");
    o.add("texts", 1);
    o.add(&format!("{verdict} {}", s(j, "why")), 1);
    let (first, dead) = places_of(j);
    err.take();
    let r = guard(|| Driver::new(koopa::front::span::FileType::Buffer, &raw[..]).generate_program());
    let out = err.take();
    let (e, w) = (Span::error_num(), Span::warning_num());
    let mut bad = |m: String| o.hit(i, &["C29"], m, &text);
    let r = match r {
      Ok(r) => r,
      Err(m) => {
        bad(format!("parsing panicked: {m}"));
        continue;
      }
    };
    if !out.is_empty() {
      bad(format!("{out:?} is printed"));
    }
    if r.is_ok() != (e == 0) {
      bad(format!("{e} errors, but the outcome is {}", if r.is_ok() { "a program" } else { "an error" }));
    }
    if (verdict == "ok") != r.is_ok() && verdict != "any" {
      bad(format!("the text is {verdict}, but the outcome is {}", if r.is_ok() { "a program" } else { "an error" }));
    }
    match r {
      Ok(_) if verdict == "ok" && w != dead.len() => bad(format!("{w} warnings, for {} unreachable blocks", dead.len())),
      Ok(_) => {}
      Err(x) => {
        let m = crate::report::message(&x).unwrap_or_default();
        if m.is_empty() {
          bad(format!("the error has no message, after {e} errors"));
          continue;
        }
        // a message about a place names it
        let at = m.strip_prefix("<buffer>:").and_then(|m| {
          let mut p = m.splitn(3, ':').map(str::trim);
          Some((p.next()?.parse::<usize>().ok()?, p.next()?.parse::<usize>().ok()?, p.next()?.len()))
        });
        match at {
          Some((l, c, len)) if verdict == "reject" && e == 1 && (!first.contains(&(l, c)) || len == 0) => {
            bad(format!("the error is '{m}', what is wrong is at one of {first:?}"))
          }
          Some(_) => o.add("placed", 1),
          // only what is not about a place names none
          None if verdict == "reject" && e == 1 && std::str::from_utf8(&raw).is_ok() => bad(format!("the error is '{m}', without a place")),
          None => o.add("without place", 1),
        }
      }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  o.end();
}
#[cfg(not(feature = "quiet"))]
pub fn m_quiet(_: &str) {
  panic!("built with the logger");
}

pub fn m_diag(path: &str) {
  // no colors
  unsafe { std::env::set_var("NO_COLOR", "1") };
  let dir = crate::exec::scratch(path);
  let err = Err::new(dir.join("stderr"));
  let file = dir.join("text.koopa");
  let fname = file.display().to_string();
  let mut o = Out::new();
  for (i, j) in lines_of(path).iter().enumerate() {
    let spelled = j.get("b").is_some();
    let raw = if spelled { bytes_of(j) } else { token_text(j).into_bytes() };
    let text = show(&raw);
    let verdict = s(j, "v");
    o.add("texts", 1);
    o.add(&format!("{verdict} {}", s(j, "why")), 1);
    let (first, dead) = places_of(j);
    err.take();
    let r = match parse_bytes(&raw) {
      Ok(r) => r,
      Err(e) => {
        o.hit(i, &["C12"], format!("parsing panicked: {e}"), &text);
        continue;
      }
    };
    let out = err.take();
    let seen: Seen = (r, Span::error_num(), Span::warning_num(), reports(&out, "<buffer>"));
    if let Some(m) = account("from memory", &seen, &text, &out) {
      o.hit(i, &["C26"], m, &text);
      continue;
    }
    if verdict == "ok" && seen.0.is_ok() {
      let mut w: Vec<_> = seen.3.iter().map(|r| r.at).collect();
      let mut d: Vec<_> = dead.iter().map(|d| Some(*d)).collect();
      w.sort();
      d.sort();
      if w != d {
        o.hit(i, &["C26"], format!("warnings at {w:?}, but the unreachable blocks are at {d:?}"), &text);
      }
      o.add("warnings", w.len());
    }
    if verdict == "reject" && seen.0.is_err() {
      match seen.3.iter().find(|r| r.error).map(|r| r.at) {
        Some(Some(a)) if first.contains(&a) => o.add("placed", 1),
        Some(a) => o.hit(i, &["C26"], format!("the first error is reported at {a:?}, what is wrong is at one of {first:?}"), &text),
        None => {}
      }
    }
    // the same from a file, with an excerpt
    std::fs::write(&file, &raw).unwrap();
    let r = guard(|| Driver::from_path(&file).unwrap().generate_program().map_err(|e| format!("{e:?}")));
    let out = err.take();
    let seen2: Seen = match r {
      Ok(r) => (r, Span::error_num(), Span::warning_num(), reports(&out, &fname)),
      Err(e) => {
        o.hit(i, &["C12"], format!("parsing a file panicked: {e}"), &text);
        continue;
      }
    };
    if let Some(m) = account("from a file", &seen2, &text, &out) {
      o.hit(i, &["C26"], m, &text);
      continue;
    }
    // warnings come in any order
    let places = |s: &Seen| {
      let mut w: Vec<_> = s.3.iter().filter(|r| !r.error).map(|r| r.at).collect();
      w.sort();
      (s.3.iter().filter(|r| r.error).map(|r| r.at).collect::<Vec<_>>(), w)
    };
    let (a, b) = (places(&seen), places(&seen2));
    if a != b {
      o.hit(i, &["C26"], format!("reports at {b:?} for a file, at {a:?} for the same text in memory"), &text);
    }
    let src: Vec<String> = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l).to_string()).collect();
    if raw.is_ascii() {
      for r in &seen2.3 {
        match excerpt(r, &src) {
          Ok(false) => {}
          Ok(true) => o.add("excerpts", 1),
          Err(m) => {
            o.hit(i, &["C26"], m, &text);
            break;
          }
        }
      }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  o.end();
}
