//! Case runner: a supervisor starts worker processes (shards), each of which generates and
//! runs cases from its own seed; a failure (an oracle mismatch, a panic, or death by a signal)
//! is shrunk out of process and becomes the replay file.
use crate::tape::{hash, shrink, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    seen: HashSet<&'static str>,
    /// sub-evaluations inside the case (crash points, fault positions, calls)
    pub inner: u64,
}

impl Cx {
    /// count the case under this label (once per case)
    pub fn label(&mut self, l: &'static str) {
        if self.seen.insert(l) {
            *self.labels.entry(l).or_default() += 1;
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    pub fn nt_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    fn start(&mut self) {
        self.nontrivial = false;
        self.seen.clear();
    }
}

pub trait Property: 'static {
    type Case: Debug;
    const ID: &'static str;
    const LEVEL: &'static str = "exploration";
    const RULE: &'static str;
    /// cases per random shard (at least): quick, thorough
    const CASES: (u64, u64);
    fn gen(src: &mut Src) -> Self::Case;
    fn run(case: &Self::Case, cx: &mut Cx) -> Res;
    /// a finite family of small cases that is enumerated completely in every run
    fn enum_count() -> u64 {
        0
    }
    fn enum_case(_i: u64) -> Self::Case {
        unreachable!()
    }
    /// called once in each worker process
    fn init() {}
    const ASSUMPTIONS: &'static [&'static str] = &[];
}

pub struct Def {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub cases: (u64, u64),
    pub assumptions: &'static [&'static str],
    enum_count: fn() -> u64,
    init: fn(),
    gen_run: fn(&mut Src, &mut Cx, &mut dyn FnMut(&Src)) -> Res,
    enum_run: fn(u64, &mut Cx) -> Res,
    describe: fn(&mut Src) -> String,
    describe_enum: fn(u64) -> String,
}

pub fn def<P: Property>() -> Def {
    Def {
        id: P::ID,
        level: P::LEVEL,
        rule: P::RULE,
        cases: P::CASES,
        assumptions: P::ASSUMPTIONS,
        enum_count: P::enum_count,
        init: P::init,
        gen_run: |src, cx, before| {
            let case = P::gen(src);
            before(src);
            P::run(&case, cx)
        },
        enum_run: |i, cx| P::run(&P::enum_case(i), cx),
        describe: |src| format!("{:?}", P::gen(src)),
        describe_enum: |i| format!("{:?}", P::enum_case(i)),
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
    }));
}

pub fn forget_panic() {
    PANIC.with(|p| *p.borrow_mut() = String::new());
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

pub fn run_tape(def: &Def, tape: &[u8], cx: &mut Cx) -> Res {
    cx.start();
    let mut src = Src::replay(tape);
    guarded(|| (def.gen_run)(&mut src, cx, &mut |_| {}))
}

pub fn run_enum(def: &Def, i: u64, cx: &mut Cx) -> Res {
    cx.start();
    guarded(|| (def.enum_run)(i, cx))
}

/// The case being run, in a shared mapping that survives the death of the worker.
struct Current(*mut u8);
const CUR: usize = 1 << 18;
impl Current {
    fn open(path: &Path) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(CUR as u64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), CUR, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Current(p as *mut u8)
    }
    fn set(&self, kind: u8, data: &[u8]) {
        unsafe {
            let n = data.len().min(CUR - 16);
            *self.0 = kind;
            let c = self.0.add(8) as *mut u64;
            c.write_volatile(c.read_volatile() + 1);
            std::ptr::copy_nonoverlapping((n as u32).to_le_bytes().as_ptr(), self.0.add(4), 4);
            std::ptr::copy_nonoverlapping(data.as_ptr(), self.0.add(16), n);
        }
    }
    fn progress(path: &Path) -> u64 {
        let mut b = [0u8; 16];
        match std::fs::File::open(path).and_then(|mut f| f.read_exact(&mut b)) {
            Ok(()) => u64::from_le_bytes(b[8..].try_into().unwrap()),
            Err(_) => 0,
        }
    }
    fn get(path: &Path) -> Option<What> {
        let d = std::fs::read(path).ok()?;
        let n = u32::from_le_bytes(d.get(4..8)?.try_into().ok()?) as usize;
        let data = d.get(16..16 + n)?.to_vec();
        match d[0] {
            1 => Some(What::Tape(data)),
            2 => Some(What::Enum(u64::from_le_bytes(data.try_into().ok()?))),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
enum What {
    Tape(Vec<u8>),
    Enum(u64),
}

fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn clip(s: String, n: usize) -> String {
    if s.len() <= n {
        return s;
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} chars)", &s[..e], s.len())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// run the body on a thread with a large stack (deep but legal trees are not the point here)
pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

pub fn worker(def: &'static Def, dir: PathBuf, shard: u64, shards: u64, cases: u64, seed: u64) {
    quiet_panics();
    crate::alloc::set_limit(3 << 30);
    (def.init)();
    let cur = Current::open(&dir.join(format!("cur{}", shard)));
    let mut cx = Cx::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut out = String::new();
    let mut failed = false;
    let n_enum = (def.enum_count)();
    let mut i = shard;
    let t0 = Instant::now();
    let budget = Duration::from_secs(env_u64("RV_BUDGET", 1_000_000));
    while i < n_enum && !failed {
        cur.set(2, &i.to_le_bytes());
        let r = run_enum(def, i, &mut cx);
        evals += 1;
        if cx.nontrivial {
            nontrivial += 1;
            hashes.insert(hash(&i.to_le_bytes()) ^ 0x5555);
        }
        if let Err(m) = r {
            out.push_str(&format!("fail enum {} {}\n", i, json_str(&m)));
            failed = true;
        }
        i += shards;
    }
    let base = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ hash(def.id.as_bytes()) ^ (shard << 48);
    // guided workers go by time; the others run their number of cases and fill that time
    let time = Duration::from_secs(env_u64("RV_GUIDED", 25));
    #[cfg(feature = "cov")]
    let (cases, mut guide) = (0 * cases, crate::guide::Guide::new(base));
    #[cfg(feature = "cov")]
    let time = time + t0.elapsed();
    for k in 0.. {
        if failed || t0.elapsed() > budget || (k >= cases && t0.elapsed() > time) {
            break;
        }
        #[cfg(feature = "cov")]
        let (mut src, mut spans) = (guide.next(), Vec::new());
        #[cfg(not(feature = "cov"))]
        let mut src = Src::random(base.wrapping_add(k.wrapping_mul(0xD134_2543_DE82_EF95)));
        cx.start();
        let mut tape = Vec::new();
        let r = guarded(|| {
            (def.gen_run)(&mut src, &mut cx, &mut |s| {
                tape = s.used().to_vec();
                cur.set(1, &tape);
                #[cfg(feature = "cov")]
                {
                    spans = s.spans.clone();
                    guide.start();
                }
            })
        });
        #[cfg(feature = "cov")]
        guide.stop(&tape, spans);
        evals += 1;
        if cx.nontrivial && hashes.len() < 1_500_000 && hashes.insert(hash(&tape)) {
            nontrivial += 1;
            if samples.len() < 2 && k % 7 == 3 {
                samples.push(clip((def.describe)(&mut Src::replay(&tape)), 700));
            }
        }
        if let Err(m) = r {
            out.push_str(&format!("fail tape {} {}\n", hex(&tape), json_str(&m)));
            failed = true;
        }
    }
    let _ = nontrivial;
    #[cfg(feature = "cov")]
    out.push_str(&format!("guided {} {} {} {} {}\n", evals, guide.edges(), guide.total_edges(), guide.features(), guide.corpus()));
    out.push_str(&format!("evals {}\ninner {}\n", evals, cx.inner));
    for (l, n) in &cx.labels {
        out.push_str(&format!("label {} {}\n", n, l));
    }
    for s in samples {
        out.push_str(&format!("sample {}\n", json_str(&s)));
    }
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("hash{}", shard)), hb).unwrap();
    std::fs::write(dir.join(format!("out{}", shard)), out).unwrap();
}

/// `rv tryd ID`: reads tapes (length-prefixed) on stdin, answers 1 if the case fails
pub fn tryd(def: &'static Def) {
    quiet_panics();
    crate::alloc::set_limit(3 << 30);
    (def.init)();
    let mut inp = std::io::stdin();
    let mut out = std::io::stdout();
    let mut cx = Cx::default();
    loop {
        let mut len = [0u8; 4];
        if inp.read_exact(&mut len).is_err() {
            return;
        }
        let mut t = vec![0u8; u32::from_le_bytes(len) as usize];
        if inp.read_exact(&mut t).is_err() {
            return;
        }
        let r = run_tape(def, &t, &mut cx);
        let _ = out.write_all(&[r.is_err() as u8]);
        let _ = out.flush();
    }
}

struct Tryd {
    exe: PathBuf,
    id: &'static str,
    child: Option<Child>,
}

impl Tryd {
    fn fails(&mut self, tape: &[u8]) -> bool {
        use std::os::fd::AsRawFd;
        if self.child.is_none() {
            self.child = Command::new(&self.exe)
                .args(["tryd", self.id])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .ok();
        }
        let Some(c) = self.child.as_mut() else { return false };
        let mut msg = (tape.len() as u32).to_le_bytes().to_vec();
        msg.extend_from_slice(tape);
        let sent = c.stdin.as_mut().unwrap().write_all(&msg).is_ok();
        let fd = c.stdout.as_ref().unwrap().as_raw_fd();
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let ready = sent && unsafe { libc::poll(&mut p, 1, 20_000) } > 0;
        let mut b = [0u8; 1];
        if ready && c.stdout.as_mut().unwrap().read_exact(&mut b).is_ok() {
            return b[0] == 1;
        }
        // dead or hanging
        let mut c = self.child.take().unwrap();
        if !ready {
            let _ = c.kill();
            let _ = c.wait();
            return false;
        }
        match c.wait() {
            Ok(st) => is_crash(st.signal()) || st.code() == Some(77),
            Err(_) => false,
        }
    }
}

const HANG: &str = "the case did not finish";

/// exit code of one case run in a process of its own
fn run_alone(exe: &Path, id: &str, w: &What) -> Option<i32> {
    let (k, x) = match w {
        What::Tape(t) => ("tape", hex(t)),
        What::Enum(i) => ("enum", i.to_string()),
    };
    Command::new(exe).args(["one", id, k, &x]).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?.code()
}

impl Drop for Tryd {
    fn drop(&mut self) {
        if let Some(mut c) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn is_crash(sig: Option<i32>) -> bool {
    matches!(sig, Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP))
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default)
}

/// Runs the check, writes the evidence, returns the exit code.
pub fn check(def: &'static Def, verif: &Path, exes: &[PathBuf], extra: &dyn Fn() -> Vec<String>) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let shards = env_u64("RV_SHARDS", 8);
    let mult = env_u64("RV_PERCENT", 100);
    let cases = if tier == "quick" { def.cases.0 } else { def.cases.1 } * mult / 100;
    let dir = std::env::temp_dir().join(format!("rv-{}-{}", def.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    // workers stop by themselves after the budget; the deadline is for what never returns
    let budget = env_u64("RV_BUDGET", if tier == "quick" { 240 } else { 3600 });
    let hang = Duration::from_secs(env_u64("RV_HANG", 100));
    let deadline = Duration::from_secs(env_u64("RV_DEADLINE", budget + 400));
    let guided = env_u64("RV_GUIDED", if tier == "quick" { 25 } else { 1500 });
    let mut seen: Vec<(u64, Instant)> = vec![(0, t0); shards as usize];
    // with a guided build, every other shard is guided
    let pick = |k: u64| match exes {
        [_, _, c] if k % 2 == 1 => c.clone(),
        [a, b, _] => [a, b][(k / 2 % 2) as usize].clone(),
        _ => exes[(k as usize) % exes.len()].clone(),
    };
    let mut kids: Vec<(u64, Child)> = (0..shards)
        .map(|k| {
            let c = Command::new(pick(k))
                .args(["worker", def.id])
                .arg(&dir)
                .args([k, shards, cases, seed].map(|x| x.to_string()))
                .env("TMPDIR", &dir)
                .env("RV_BUDGET", budget.to_string())
                .env("RV_GUIDED", guided.to_string())
                .spawn()
                .expect("spawn worker");
            (k, c)
        })
        .collect();
    let mut found: Vec<(u64, What, String)> = Vec::new();
    let mut error: Option<String> = None;
    let mut stop = false;
    while !kids.is_empty() {
        let mut i = 0;
        while i < kids.len() {
            if stop {
                let _ = kids[i].1.kill();
            }
            match kids[i].1.try_wait().unwrap() {
                None => {
                    let k = kids[i].0;
                    let n = Current::progress(&dir.join(format!("cur{}", k)));
                    let last = &mut seen[k as usize];
                    if n != last.0 {
                        *last = (n, Instant::now());
                    } else if n > 0 && last.1.elapsed() > hang && !stop {
                        let _ = kids[i].1.kill();
                        if let Some(w) = Current::get(&dir.join(format!("cur{}", k))) {
                            found.push((k, w, format!("{}", HANG)));
                            stop = true;
                        }
                    }
                    i += 1
                }
                Some(st) => {
                    let (k, _) = kids.remove(i);
                    if stop {
                        continue;
                    }
                    if is_crash(st.signal()) {
                        let what = Current::get(&dir.join(format!("cur{}", k)));
                        match what {
                            Some(w) => found.push((k, w, format!("the process died with signal {}", st.signal().unwrap()))),
                            None => error = Some(format!("shard {} died before its first case: {:?}", k, st)),
                        }
                        stop = true;
                    } else if st.code() == Some(77) {
                        // out of memory: a verdict only if one case alone does it
                        let path = dir.join(format!("cur{}", k));
                        let w = Current::get(&path);
                        let exe = &pick(k);
                        match w {
                            Some(w) if run_alone(exe, def.id, &w) == Some(77) => {
                                found.push((k, w, "one case needs more than 3 GB of memory".into()));
                                stop = true;
                            }
                            _ => eprintln!("{}: shard {} ended early: out of memory", def.id, k),
                        }
                    } else if !st.success() {
                        error = Some(format!("shard {} ended with {:?} (77: out of memory)", k, st));
                        stop = true;
                    } else {
                        let o = std::fs::read_to_string(dir.join(format!("out{}", k))).unwrap_or_default();
                        for l in o.lines() {
                            let mut w = l.splitn(4, ' ');
                            if w.next() == Some("fail") {
                                let kind = w.next().unwrap_or("");
                                let arg = w.next().unwrap_or("");
                                let msg = w.next().unwrap_or("").to_string();
                                let what = if kind == "enum" {
                                    What::Enum(arg.parse().unwrap())
                                } else {
                                    What::Tape(unhex(arg).unwrap())
                                };
                                found.push((k, what, msg));
                                stop = true;
                            }
                        }
                    }
                }
            }
        }
        if t0.elapsed() > deadline {
            for (_, c) in kids.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            error = Some("time budget used up: inconclusive".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // collect coverage
    let mut evals = 0u64;
    let mut inner = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut all: HashSet<u64> = HashSet::new();
    // workers, cases, edges (best worker), edges there are, features, kept tapes (sums)
    let mut g = [0u64; 6];
    for k in 0..shards {
        let o = std::fs::read_to_string(dir.join(format!("out{}", k))).unwrap_or_default();
        for l in o.lines() {
            if let Some(x) = l.strip_prefix("evals ") {
                evals += x.parse::<u64>().unwrap_or(0);
            } else if let Some(x) = l.strip_prefix("guided ") {
                let x: Vec<u64> = x.split(' ').filter_map(|x| x.parse().ok()).collect();
                if let [n, e, t, f, c] = x[..] {
                    g = [g[0] + 1, g[1] + n, g[2].max(e), t, g[4] + f, g[5] + c];
                }
            } else if let Some(x) = l.strip_prefix("inner ") {
                inner += x.parse::<u64>().unwrap_or(0);
            } else if let Some(x) = l.strip_prefix("label ") {
                if let Some((n, l)) = x.split_once(' ') {
                    *labels.entry(l.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                }
            } else if let Some(x) = l.strip_prefix("sample ") {
                if samples.len() < 6 {
                    samples.push(x.to_string());
                }
            }
        }
        for c in std::fs::read(dir.join(format!("hash{}", k))).unwrap_or_default().chunks_exact(8) {
            all.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((k, what, msg)) = found.into_iter().next() {
        violations = 1;
        code = 1;
        let exe = pick(k);
        let (what, note) = match what {
            What::Tape(t) => {
                let mut td = Tryd { exe: exe.clone(), id: def.id, child: None };
                if msg == HANG {
                    (What::Tape(t), "not shrunk")
                } else if td.fails(&t) {
                    let t1 = Instant::now();
                    let mut n = 0;
                    let s = shrink(
                        t,
                        |t| {
                            let mut s = Src::replay(t);
                            (def.describe)(&mut s);
                            (s.spans.clone(), s.used().len())
                        },
                        |t| td.fails(t),
                        || {
                            n += 1;
                            n < 20_000 && t1.elapsed() < Duration::from_secs(60)
                        },
                    );
                    (What::Tape(s), "minimal")
                } else {
                    (What::Tape(t), "did not fail again in a fresh process; not shrunk")
                }
            }
            w => (w, "enumerated"),
        };
        let rdir = verif.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}.replay", def.id, seed));
        let (line, desc) = match &what {
            What::Tape(t) => (format!("tape {}", hex(t)), (def.describe)(&mut Src::replay(t))),
            What::Enum(i) => (format!("enum {}", i), (def.describe_enum)(*i)),
        };
        // the message of the minimal case
        let final_msg = if msg == HANG { msg } else { replay_msg(&exe, def.id, &line).unwrap_or(msg) };
        let _ = std::fs::write(
            &path,
            format!("property {}\n{}\n# {}\n# {}\n# case: {}\n", def.id, line, note, final_msg.replace('\n', " "), clip(desc.clone(), 20000)),
        );
        println!("{}: {} ({})", def.id, final_msg, note);
        println!("case: {}", clip(desc, 2000));
        println!("VIOLATION property={} replay={}", def.id, path.display());
    } else if let Some(e) = &error {
        eprintln!("{}: error: {}", def.id, e);
        for k in 0..shards {
            if let Some(What::Tape(t)) = Current::get(&dir.join(format!("cur{}", k))) {
                eprintln!("shard {} was at: {}", k, clip((def.describe)(&mut Src::replay(&t)), 300));
            }
        }
        code = 2;
    }
    let extra_lines = if code == 0 { extra() } else { Vec::new() };
    for l in &extra_lines {
        println!("{}", l);
    }
    if samples.is_empty() {
        let mut s = Src::random(seed);
        samples.push(json_str(&clip((def.describe)(&mut s), 700)));
    }
    let labels_json = labels.iter().map(|(l, n)| format!("{}: {}", json_str(l), n)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"enumerated_small_cases\": {},\n  \"inner_evaluations\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"builds\": {},\n  \"guided\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        def.id,
        tier,
        seed,
        def.level,
        evals,
        all.len(),
        (def.enum_count)(),
        inner,
        json_str(def.rule),
        labels_json,
        exes.len(),
        format!(
            "{{\"workers\": {}, \"cases\": {}, \"edges_reached\": {}, \"edges_instrumented\": {}, \"features\": {}, \"kept_tapes\": {}}}",
            g[0], g[1], g[2], g[3], g[4], g[5]
        ),
        samples.join(", "),
        def.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let edir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{}.json", def.id)), ev).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        println!("{} held: {} cases, {} distinct non-trivial, {:.1} s", def.id, evals, all.len(), t0.elapsed().as_secs_f64());
    }
    code
}

fn replay_msg(exe: &Path, id: &str, line: &str) -> Option<String> {
    let mut w = line.split(' ');
    let o = Command::new(exe).args(["one", id, w.next()?, w.next().unwrap_or("")]).output().ok()?;
    if is_crash(o.status.signal()) {
        let err = String::from_utf8_lossy(&o.stderr);
        return Some(format!("the process died with signal {} {}", o.status.signal().unwrap(), err.trim()));
    }
    let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
    if s.is_empty() || o.status.success() {
        None
    } else {
        Some(s)
    }
}

/// `rv one ID tape|enum X`: run one case, print what failed, exit 1 on failure
pub fn one(def: &'static Def, kind: &str, arg: &str) -> i32 {
    quiet_panics();
    crate::alloc::set_limit(3 << 30);
    (def.init)();
    let mut cx = Cx::default();
    let r = if kind == "enum" {
        run_enum(def, arg.parse().unwrap(), &mut cx)
    } else {
        run_tape(def, &unhex(arg).expect("hex"), &mut cx)
    };
    match r {
        Ok(()) => {
            println!("passes");
            0
        }
        Err(m) => {
            println!("{}", m);
            1
        }
    }
}

/// `rv replay FILE`
pub fn replay(file: &Path, find: impl Fn(&str) -> Option<&'static Def>) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let mut id = "";
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x.trim();
        } else if let Some((kind @ ("tape" | "enum"), arg)) = l.split_once(' ').or(Some((l, ""))) {
            let d = find(id).expect("unknown property");
            let desc = if kind == "tape" {
                (d.describe)(&mut Src::replay(&unhex(arg.trim()).unwrap()))
            } else {
                (d.describe_enum)(arg.trim().parse().unwrap())
            };
            println!("case: {}", desc);
            let c = one(d, kind, arg.trim());
            if c != 0 {
                println!("VIOLATION property={} replay={}", id, file.display());
            }
            return c;
        }
    }
    2
}
