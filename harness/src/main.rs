mod diag;
mod report;
mod exec;
mod ir;
mod lexm;
mod nm;
mod prog;
mod raw;
mod scale;
mod small;
mod util;

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let args: Vec<String> = std::env::args().collect();
  // deep recursion of the code under test must not be cut by a small stack
  let h = std::thread::Builder::new()
    .stack_size(1 << 28)
    .spawn(move || match args[1].as_str() {
      "ir" => ir::main(&args[2..]),
      "one" => small::m_one(&args[2]),
      "driver" => small::m_driver(&args[3], &args[2]),
      "types" => small::m_types(&args[2]),
      "ids" => small::m_ids(&args[2], args[3].parse().unwrap()),
      "pass" => small::m_pass(&args[2]),
      "exec" => exec::m_exec(&args[2], &args[3], &args[4], &args[5]),
      "bf" => exec::m_bf(&args[2], &args[3], &args[4], &args[5]),
      "llvm" => exec::m_llvm(&args[2], &args[3]),
      "tollvm" => print!("{}", exec::to_llvm(&std::fs::read_to_string(&args[2]).unwrap()).unwrap()),
      m @ ("raw" | "fault" | "capi") => raw::main(m, &args[2..]),
      "scale" => scale::main(&args[2..]),
      "names" => nm::m_names(&args[2]),
      "sink" => nm::m_sink(&args[2], &args[3], args[4].parse().unwrap()),
      "diag" => diag::m_diag(&args[2]),
      "report" => report::m_report(&args[2]),
      "quiet" => diag::m_quiet(&args[2]),
      "lex" => lexm::m_lex(&args[2]),
      m @ ("parse" | "front" | "print" | "rt") => prog::main(m, &args[2..]),
      m => panic!("unknown mode {m}"),
    })
    .unwrap();
  if h.join().is_err() {
    std::process::exit(3);
  }
}
