//! Histories of the loggers of two threads (C26, and C29 without the logger).
use crate::diag::Err;
use crate::prog::{Out, lines_of};
use crate::util::*;
use koopa::front::span::{Error, FileType, Pos, Span};
use serde_json::Value as J;
use std::path::PathBuf;
use std::sync::mpsc::{Receiver, Sender, channel};

/// What a step did: kind and message of the answer, number of errors and warnings.
type Ans = (String, Option<String>, usize, usize);

#[cfg(feature = "quiet")]
pub fn message(e: &Error) -> Option<String> {
  match e {
    Error::Normal(m) | Error::Fatal(m) => Some(m.clone()),
  }
}
#[cfg(not(feature = "quiet"))]
pub fn message(_: &Error) -> Option<String> {
  None
}

fn pos(l: usize, c: usize) -> Pos {
  let mut p = Pos::new();
  for _ in 1..l {
    p.update('x');
    p.update('\n');
  }
  for _ in 0..c {
    p.update('\t');
  }
  p
}

fn step(op: &J, msg: &str, file: &PathBuf) -> Ans {
  let span = op.get("p").map(|p| Span::new(pos(n(p, "l"), n(p, "c"))).into_updated(pos(n(p, "m"), n(p, "d"))));
  let e = match s(op, "o") {
    "reset" => {
      Span::reset(match s(op, "kind") {
        "file" => FileType::File(file.clone()),
        "gone" => FileType::File(file.with_extension("gone")),
        "stdin" => FileType::Stdin,
        _ => FileType::Buffer,
      });
      None
    }
    "rawerror" => Some(Span::log_raw_error(format_args!("{msg}"))),
    "rawfatal" => Some(Span::log_raw_fatal_error(format_args!("{msg}"))),
    "rawwarn" => {
      Span::log_raw_warning(format_args!("{msg}"));
      None
    }
    "error" => Some(span.unwrap().log_error(format_args!("{msg}"))),
    "fatal" => Some(span.unwrap().log_fatal_error(format_args!("{msg}"))),
    "warn" => {
      span.unwrap().log_warning(format_args!("{msg}"));
      None
    }
    "global" => {
      Span::log_global();
      None
    }
    o => panic!("{o}"),
  };
  let kind = e.as_ref().map_or("", |e| if e.is_fatal() { "fatal" } else { "error" });
  (kind.into(), e.as_ref().and_then(message), Span::error_num(), Span::warning_num())
}

fn text(cs: &J) -> String {
  cs.as_array().map_or(String::new(), |a| a.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect())
}

/// Rows of an excerpt: number and what stands right of the bar.
fn rows(ls: &[&str]) -> Vec<(i64, String)> {
  ls.iter()
    .filter(|l| !l.is_empty())
    .map(|l| {
      let (g, b) = l.split_once('|').unwrap_or((l, ""));
      let g = g.trim();
      let n = if g.is_empty() {
        0
      } else if g.chars().all(|c| c == '.') {
        -1
      } else {
        g.parse().unwrap_or(-2)
      };
      (n, b.trim_end().to_string())
    })
    .collect()
}

fn judge(o: &J, a: &Ans, out: &str, msg: &str, name: &str) -> Option<String> {
  if (a.2, a.3) != (n(o, "e"), n(o, "w")) {
    return Some(format!("{} errors and {} warnings are counted, expected {} and {}", a.2, a.3, n(o, "e"), n(o, "w")));
  }
  if a.0 != s(o, "ans") {
    return Some(format!("the answer is '{}', expected '{}'", a.0, s(o, "ans")));
  }
  let (pr, at) = (&o["pr"], nums(&o["pr"], "at"));
  let place = (!at.is_empty()).then(|| format!("{name}:{}:{}", at[0], at[1]));
  if cfg!(feature = "quiet") {
    if !out.is_empty() {
      return Some(format!("{out:?} is printed"));
    }
    let want = (!a.0.is_empty()).then(|| place.map_or(msg.to_string(), |p| format!("{p}: {msg}")));
    return (a.1 != want).then(|| format!("the message is {:?}, expected {want:?}", a.1));
  }
  let ls: Vec<_> = out.lines().collect();
  let head = match s(pr, "head") {
    "" => return (!ls.is_empty()).then(|| format!("{out:?} is printed")),
    "total" => {
      let part = |n: usize, s: &str| if n == 0 { String::new() } else { format!("{n} {s}{}", if n > 1 { "s" } else { "" }) };
      format!("{}{}{} emitted", part(a.2, "error"), if a.2 * a.3 > 0 { " and " } else { "" }, part(a.3, "warning"))
    }
    h => format!("{h}: {msg}"),
  };
  if ls.first() != Some(&head.as_str()) {
    return Some(format!("the report is {out:?}, expected {head:?}"));
  }
  let Some(place) = place else {
    return (ls.len() > 1).then(|| format!("{out:?} is printed"));
  };
  if ls.get(1).map(|l| l.trim()) != Some(&format!("at {place}")) {
    return Some(format!("the report is at {:?}, expected {place}", ls.get(1)));
  }
  let want: Vec<_> = arr(pr, "rows").iter().map(|r| (r["n"].as_i64().unwrap(), text(&r["b"]).trim_end().to_string())).collect();
  let got = rows(&ls[2..]);
  (got != want).then(|| format!("the excerpt is {got:?}, expected {want:?}"))
}

pub fn m_report(path: &str) {
  // no colors
  unsafe { std::env::set_var("NO_COLOR", "1") };
  let dir = crate::exec::scratch(path);
  let err = Err::new(dir.join("stderr"));
  let file = dir.join("text.koopa");
  let mut o = Out::new();
  for (i, j) in lines_of(path).iter().enumerate() {
    let lines: Vec<_> = j["file"].as_array().unwrap().iter().map(text).collect();
    std::fs::write(&file, lines.join("\n")).unwrap();
    let shown = format!("{}\n// steps: {}", lines.join("\n"), j["ops"]);
    // the threads
    let (back, answers) = channel::<Option<Ans>>();
    let threads: Vec<Sender<(J, String)>> = (0..2)
      .map(|_| {
        let (tx, rx): (Sender<(J, String)>, Receiver<_>) = channel();
        let (back, file) = (back.clone(), file.clone());
        std::thread::spawn(move || {
          for (op, msg) in rx {
            let _ = back.send(guard(|| step(&op, &msg, &file)).ok());
          }
        });
        tx
      })
      .collect();
    err.take();
    for (k, x) in arr(j, "ops").iter().enumerate() {
      let msg = format!("message {k}");
      threads[n(x, "t") - 1].send((x["op"].clone(), msg.clone())).unwrap();
      let a = answers.recv().unwrap();
      let out = err.take();
      let name = match s(x, "kind") {
        "file" => file.display().to_string(),
        "gone" => file.with_extension("gone").display().to_string(),
        k => format!("<{k}>"),
      };
      let m = match a {
        Some(a) => judge(x, &a, &out, &msg, &name),
        None => Some("reporting panicked".into()),
      };
      o.add("steps", 1);
      o.add("excerpts", usize::from(!arr(&x["pr"], "rows").is_empty()));
      if let Some(m) = m {
        o.hit(i, &["C26", "C29"], format!("step {k}, {}: {m}", x["op"]), &shown);
        break;
      }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  o.end();
}
