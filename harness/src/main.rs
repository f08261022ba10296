use rv::{engine, props};
use std::path::PathBuf;

fn main() {
    // errors carry no backtraces
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    rv::alloc::set_quarantine(true);
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let verif = PathBuf::from(std::env::var("RV_VERIF").unwrap_or_else(|_| "/verif".into()));
    let code = match a.get(1).copied() {
        Some("check") => {
            let d = props::find(a[2]).expect("unknown property");
            let mut exes: Vec<PathBuf> = a[3..].iter().map(PathBuf::from).collect();
            if exes.is_empty() {
                exes.push(std::env::current_exe().unwrap());
            }
            if d.id == "C01" {
                deep_checks(d, &verif, &exes)
            } else {
                engine::check(d, &verif, &exes, &|| vec![])
            }
        }
        Some("worker") => {
            let d = props::find(a[2]).expect("unknown property");
            let n: Vec<u64> = a[4..8].iter().map(|s| s.parse().unwrap()).collect();
            let dir = PathBuf::from(a[3]);
            engine::big_stack(move || engine::worker(d, dir, n[0], n[1], n[2], n[3]));
            0
        }
        Some("tryd") => {
            let d = props::find(a[2]).expect("unknown property");
            engine::big_stack(move || engine::tryd(d));
            0
        }
        Some("one") => {
            let d = props::find(a[2]).expect("unknown property");
            let (k, x) = (a[3].to_string(), a.get(4).copied().unwrap_or("").to_string());
            engine::big_stack(move || engine::one(d, &k, &x))
        }
        Some("replay") => {
            let f = PathBuf::from(a[2]);
            if let Some(n) = std::fs::read_to_string(&f).unwrap().lines().find_map(|l| l.strip_prefix("deep ")) {
                deep(n.parse().unwrap());
                return;
            }
            engine::big_stack(move || engine::replay(&f, props::find))
        }
        Some("deep") => {
            deep(a[2].parse().unwrap());
            0
        }
        Some("list") => {
            for d in props::all() {
                println!("{} {} {:?}", d.id, d.level, d.cases);
            }
            0
        }
        _ => {
            eprintln!("usage: rv check|worker|tryd|one|replay|list");
            2
        }
    };
    std::process::exit(code);
}

/// a chain of n keys, each a prefix of the next, on a thread with the default stack of 2 MiB
fn deep(n: usize) {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let key = vec![b'a'; n];
            let mut t = radixdb::RadixTree::default();
            for i in 0..=n {
                t.insert(&key[..i], b"x");
            }
            assert!(t.get(&key).is_some());
            assert_eq!(t.iter().count(), n + 1);
            assert!(t == t.clone());
            t.remove(&key);
            assert_eq!(t.iter().count(), n);
        })
        .unwrap()
        .join()
        .unwrap();
}

const CHAIN_OK: usize = 400;
const CHAIN_DEEP: usize = 20_000;

/// Nesting deep enough to exhaust the stack: a listed finding at CHAIN_DEEP, a violation at
/// CHAIN_OK, where a level could use 5 kB of stack.
fn deep_checks(d: &'static engine::Def, verif: &std::path::Path, exes: &[PathBuf]) -> i32 {
    let dies = |n: usize| {
        !std::process::Command::new(&exes[0])
            .args(["deep", &n.to_string()])
            .stderr(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .status()
            .unwrap()
            .success()
    };
    let listed = std::fs::read_to_string(verif.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .any(|l| l.starts_with("finding: property=C01 nested-chain-20000 "));
    let bad = if dies(CHAIN_OK) {
        Some(CHAIN_OK)
    } else if dies(CHAIN_DEEP) {
        Some(CHAIN_DEEP)
    } else {
        None
    };
    let code = engine::check(d, verif, exes, &|| match bad {
        Some(CHAIN_DEEP) if listed => vec![format!(
            "KNOWN-FINDING: property=C01 a chain of {} keys, each a prefix of the next, overflows a 2 MiB stack",
            CHAIN_DEEP
        )],
        _ => vec![],
    });
    match bad {
        Some(n) if code == 0 && !(n == CHAIN_DEEP && listed) => {
            let _ = std::fs::create_dir_all(verif.join("replays"));
            let path = verif.join(format!("replays/C01-deep-{}.replay", n));
            let _ = std::fs::write(&path, format!("property C01\ndeep {}\n# the process dies or gives wrong answers\n", n));
            println!("C01: a chain of {} nested keys on a 2 MiB stack fails", n);
            println!("VIOLATION property=C01 replay={}", path.display());
            1
        }
        _ => code,
    }
}
