//! Property checks for the browser crate, compiled natively against stand-ins for the browser.
mod fs;
mod paging;
use rv::engine::{self, def, Def};
use std::path::PathBuf;

fn all() -> Vec<Def> {
    vec![def::<fs::C29>(), def::<fs::C30>(), def::<paging::C31>()]
}
fn find(id: &str) -> Option<&'static Def> {
    all().into_iter().find(|d| d.id == id).map(|d| &*Box::leak(Box::new(d)))
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let verif = PathBuf::from(std::env::var("RV_VERIF").unwrap_or_else(|_| "/verif".into()));
    let prop = || find(a[2]).expect("unknown property");
    let code = match a.get(1).copied() {
        Some("check") => {
            let mut exes: Vec<PathBuf> = a[3..].iter().map(PathBuf::from).collect();
            if exes.is_empty() {
                exes.push(std::env::current_exe().unwrap());
            }
            engine::check(prop(), &verif, &exes, &|| vec![])
        }
        Some("worker") => {
            let (d, dir) = (prop(), PathBuf::from(a[3]));
            let n: Vec<u64> = a[4..8].iter().map(|s| s.parse().unwrap()).collect();
            engine::big_stack(move || engine::worker(d, dir, n[0], n[1], n[2], n[3]));
            0
        }
        Some("tryd") => {
            let d = prop();
            engine::big_stack(move || engine::tryd(d));
            0
        }
        Some("one") => {
            let d = prop();
            let (k, x) = (a[3].to_string(), a.get(4).copied().unwrap_or("").to_string());
            engine::big_stack(move || engine::one(d, &k, &x))
        }
        Some("replay") => {
            let f = PathBuf::from(a[2]);
            engine::big_stack(move || engine::replay(&f, find))
        }
        Some("list") => {
            for d in all() {
                println!("{} {} {:?}", d.id, d.level, d.cases);
            }
            0
        }
        _ => {
            eprintln!("usage: rvb check|worker|tryd|one|replay|list");
            2
        }
    };
    std::process::exit(code);
}
