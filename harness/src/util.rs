use koopa::ir::Type;
use serde_json::Value as J;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Parses the concrete syntax of a type (our own reader, not the library's).
pub fn parse_ty(s: &str) -> Type {
  let b = s.as_bytes();
  let mut i = 0;
  let t = ty(b, &mut i);
  assert!(i == b.len(), "bad type {s}");
  t
}
fn ws(b: &[u8], i: &mut usize) {
  while *i < b.len() && b[*i] == b' ' {
    *i += 1;
  }
}
fn eat(b: &[u8], i: &mut usize, c: u8) {
  ws(b, i);
  assert!(b[*i] == c, "bad type at {i}");
  *i += 1;
}
fn ty(b: &[u8], i: &mut usize) -> Type {
  ws(b, i);
  match b[*i] {
    b'i' => {
      *i += 3;
      Type::get_i32()
    }
    b'u' => {
      *i += 4;
      Type::get_unit()
    }
    b'*' => {
      *i += 1;
      Type::get_pointer(ty(b, i))
    }
    b'[' => {
      *i += 1;
      let base = ty(b, i);
      eat(b, i, b',');
      ws(b, i);
      let st = *i;
      while b[*i].is_ascii_digit() {
        *i += 1;
      }
      let n: usize = std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap();
      eat(b, i, b']');
      Type::get_array(base, n)
    }
    b'(' => {
      *i += 1;
      let mut ps = vec![];
      ws(b, i);
      while b[*i] != b')' {
        ps.push(ty(b, i));
        ws(b, i);
        if b[*i] == b',' {
          *i += 1;
        }
        ws(b, i);
      }
      *i += 1;
      let mut r = Type::get_unit();
      if *i < b.len() && b[*i] == b':' {
        *i += 1;
        r = ty(b, i);
      }
      Type::get_function(ps, r)
    }
    c => panic!("bad type char {c}"),
  }
}

/// Prints a type by its structure (not by the library's `Display`).
pub fn ty_str(t: &Type) -> String {
  use koopa::ir::TypeKind::*;
  match t.kind() {
    Int32 => "i32".into(),
    Unit => "unit".into(),
    Pointer(b) => format!("*{}", ty_str(b)),
    Array(b, n) => format!("[{}, {}]", ty_str(b), n),
    Function(ps, r) => {
      let ps: Vec<_> = ps.iter().map(ty_str).collect();
      if matches!(r.kind(), Unit) {
        format!("({})", ps.join(", "))
      } else {
        format!("({}): {}", ps.join(", "), ty_str(r))
      }
    }
  }
}

/// Runs code under test; a panic is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
    if let Some(s) = e.downcast_ref::<String>() {
      s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
      s.to_string()
    } else {
      "panic".into()
    }
  })
}

pub fn s<'a>(j: &'a J, k: &str) -> &'a str {
  j[k].as_str().unwrap_or_else(|| panic!("no string {k} in {j}"))
}
pub fn n(j: &J, k: &str) -> usize {
  j[k].as_u64().unwrap_or_else(|| panic!("no number {k} in {j}")) as usize
}
/// TLC prints the empty function as {} or []; both are an empty list.
pub fn arr<'a>(j: &'a J, k: &str) -> &'a [J] {
  match &j[k] {
    J::Array(a) => a,
    J::Object(o) if o.is_empty() => &[],
    x => panic!("no array {k}: {x} in {j}"),
  }
}
pub fn nums(j: &J, k: &str) -> Vec<usize> {
  arr(j, k).iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
pub fn strs(j: &J, k: &str) -> Vec<String> {
  arr(j, k).iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
