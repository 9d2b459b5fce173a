//! Texts as characters: tokens (C25) and totality of parsing (C12).
use crate::prog::{Out, lines_of};
use crate::util::*;
use koopa::front::Driver;
use koopa::front::lexer::Lexer;
use koopa::front::span::{FileType, Span};
use koopa::front::token::TokenKind;
use koopa::ir::Program;
use serde_json::Value as J;
use std::io::{Cursor, Read};

/// One-character strings; `xNN` is a byte.
pub fn bytes_of(j: &J) -> Vec<u8> {
  let mut r = vec![];
  for c in strs(j, "b") {
    let b = c.as_bytes();
    match b.len() {
      1 => r.push(b[0]),
      3 => r.push(u8::from_str_radix(&c[1..], 16).unwrap()),
      _ => panic!("bad character {c}"),
    }
  }
  r
}

pub fn show(b: &[u8]) -> String {
  b.iter().map(|c| if *c < 128 { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect()
}

pub fn parse_bytes(b: &[u8]) -> Result<Result<Program, String>, String> {
  guard(|| {
    let d = Driver::new(FileType::Buffer, Cursor::new(b.to_vec()));
    d.generate_program().map_err(|e| format!("{e:?}"))
  })
}

/// A reader that hands out one byte at a time.
pub struct Slow<'a>(pub &'a [u8]);
impl Read for Slow<'_> {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if self.0.is_empty() || b.is_empty() {
      return Ok(0);
    }
    b[0] = self.0[0];
    self.0 = &self.0[1..];
    Ok(1)
  }
}

fn tok(k: &TokenKind) -> (&'static str, String) {
  match k {
    TokenKind::Int(i) => ("int", i.to_string()),
    TokenKind::Symbol(s) => ("sym", s.clone()),
    TokenKind::Keyword(k) => ("kw", k.to_string()),
    TokenKind::BinaryOp(o) => ("op", crate::prog::opstr(*o).to_string()),
    TokenKind::Other(c) => ("ch", c.to_string()),
    TokenKind::End => ("end", String::new()),
  }
}

/// `l:c-l:c`
fn span_of(m: &J, k: &J) -> String {
  format!("{}:{}-{}:{}", m[0], m[1], k[0], k[1])
}

/// The lexer must cut the text as the specification does, up to the first error.
pub fn m_lex(path: &str) {
  let mut o = Out::new();
  for (i, j) in lines_of(path).iter().enumerate() {
    let b = bytes_of(j);
    let want = arr(j, "t");
    let end = s(j, "e");
    let ms = arr(j, "m");
    let mut span = None;
    o.add("texts", 1);
    o.add(&format!("end {end}"), 1);
    let r = guard(|| {
      Span::reset(FileType::Buffer);
      let mut lx = Lexer::new(Slow(&b));
      for (n, w) in want.iter().enumerate() {
        let (c, x) = (w[0].as_str().unwrap(), w[1].as_str().unwrap());
        match lx.next_token() {
          Err(e) => return Err(format!("token {n}: error {e:?} instead of {c} '{x}'")),
          Ok(t) => {
            let g = tok(&t.kind);
            if g != (c, x.to_string()) {
              return Err(format!("token {n}: {} '{}' instead of {c} '{x}'", g.0, g.1));
            }
            let (at, want) = (format!("{:?}", t.span), span_of(&ms[n][0], &ms[n][1]));
            if at != want && span.is_none() {
              span = Some(format!("token {n} '{x}' is at {want}, its span is {at}"));
            }
          }
        }
      }
      let n = want.len();
      match end {
        "ok" => match lx.next_token() {
          Ok(t) if t.kind == TokenKind::End => {
            let (at, want) = (format!("{:?}", t.span), span_of(&j["x"], &j["x"]));
            if at != want && span.is_none() {
              span = Some(format!("the end is at {want}, its span is {at}"));
            }
          }
          Ok(t) => return Err(format!("token {n}: {} instead of the end", t.kind)),
          Err(e) => return Err(format!("token {n}: error {e:?} instead of the end")),
        },
        "err" => {
          if let Ok(t) = lx.next_token() {
            return Err(format!("token {n}: {} instead of an error", t.kind));
          }
        }
        _ => {}
      }
      // whatever is left can be read to the end
      for _ in 0..b.len() + 2 {
        if matches!(lx.next_token(), Ok(t) if t.kind == TokenKind::End) {
          return Ok(n);
        }
      }
      Err("the end is never reached".into())
    });
    match r {
      Err(e) => o.hit(i, &["C12", "C25"], format!("the lexer panicked: {e}"), &show(&b)),
      Ok(Err(e)) => o.hit(i, &["C25"], e, &show(&b)),
      Ok(Ok(n)) => o.add("tokens", n),
    }
    if let Some(m) = span {
      o.hit(i, &["C26"], m, &show(&b));
    }
    total(&mut o, i, &b);
  }
  o.end();
}

/// Parsing ends in a program or an error, whatever the reader is, and an
/// accepted program can be printed.
pub fn total(o: &mut Out, i: usize, b: &[u8]) {
  let path = format!("{}/kv-{}.koopa", std::env::temp_dir().display(), std::process::id());
  std::fs::write(&path, b).unwrap();
  let a = parse_bytes(b);
  let f = guard(|| Driver::from_path(&path).unwrap().generate_program().map_err(|e| format!("{e:?}")));
  let l = guard(|| Driver::new(FileType::Stdin, Slow(b)).generate_program().map_err(|e| format!("{e:?}")));
  let _ = std::fs::remove_file(&path);
  let mut acc = vec![];
  for r in [a, f, l] {
    match r {
      Err(e) => {
        o.hit(i, &["C12"], format!("parsing panicked: {e}"), &show(b));
        return;
      }
      Ok(Err(_)) => acc.push(None),
      Ok(Ok(p)) => match crate::prog::print(&p) {
        Err(e) => {
          o.hit(i, &["C12"], format!("an accepted program can not be printed: {e}"), &show(b));
          return;
        }
        Ok(t) => acc.push(Some(t)),
      },
    }
  }
  if acc[0] != acc[1] || acc[0] != acc[2] {
    o.hit(i, &["C13"], "the outcome depends on the kind of reader".into(), &show(b));
  }
}
