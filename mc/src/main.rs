mod capi;
mod checks;
mod extract;
mod r#gen;
mod llvm;
mod ltext;
mod mk;
mod run;
mod model;
mod reftext;
mod reftree;
mod render;
mod sup;
mod sys;

fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  let defs = checks::defs();
  let find = |id: &str| {
    defs.iter().find(|d| d.id == id).unwrap_or_else(|| {
      eprintln!("unknown property {id}");
      std::process::exit(2)
    })
  };
  let code = match a.first().map(|s| s.as_str()) {
    Some("run") => sup::run_main(find(&a[1]), &a[2]),
    Some("worker") => {
      sup::worker_main(find(&a[1]), &a[2..]);
      0
    }
    Some("one") => sup::one_main(find(&a[1]), &a[2..]),
    Some("replay") => sup::replay_main(defs, &a[1]),
    Some("list") => {
      for d in defs {
        println!("{} {}", d.id, d.level);
      }
      0
    }
    _ => {
      eprintln!("usage: kmc run|replay|list");
      2
    }
  };
  std::process::exit(code);
}
