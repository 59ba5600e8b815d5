//! rustc as the implementation under test: compiling generated programs against /repo's current tree and running them.
use serde_json::Value;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub verif: PathBuf,
    pub work: PathBuf,
    pub jobs: usize,
    pub start: Instant,
    pub rustc: String,
    /// (crate name, path) of the artifacts of the default build
    pub externs: Vec<(String, String)>,
    pub depdir: String,
}

pub fn fail(msg: &str) -> ! {
    eprintln!("check error: {}", msg);
    std::process::exit(2)
}

/// rlibs of a `cargo build --message-format=json` log
pub fn artifacts(path: &std::path::Path) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Ok(j) = serde_json::from_str::<Value>(l) {
            if j["reason"] == "compiler-artifact" {
                let name = j["target"]["name"].as_str().unwrap_or("").replace('-', "_");
                for f in j["filenames"].as_array().into_iter().flatten() {
                    let f = f.as_str().unwrap_or("");
                    if f.ends_with(".rlib") || f.ends_with(".so") {
                        v.push((name.clone(), f.to_string()));
                    }
                }
            }
        }
    }
    v
}

impl Ctx {
    pub fn ext(&self, n: &str) -> String {
        match self.externs.iter().rev().find(|(a, _)| a == n) {
            Some((_, p)) => p.clone(),
            None => fail(&format!("no artifact {}", n)),
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub level: String,
    pub code: String,
    pub msg: String,
    /// line in the main file (0 if none)
    pub line: usize,
    /// all lines of primary spans
    pub lines: Vec<usize>,
    pub rendered: String,
}

pub struct CompileOut {
    pub ok: bool,
    pub diags: Vec<Diag>,
    pub stderr: String,
    pub timeout: bool,
}

/// Waits for a child with a time limit; returns (status, stdout, stderr).
pub fn run_limited(mut c: Command, limit: Duration) -> (Option<std::process::ExitStatus>, String, String) {
    use std::io::Read;
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => fail(&format!("cannot start {:?}: {}", c, e)),
    };
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let mut st = None;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                st = Some(s);
                break;
            }
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break;
                }
                std::thread::sleep(Duration::from_millis(4));
            }
            Err(_) => break,
        }
    }
    (st, t1.join().unwrap_or_default(), t2.join().unwrap_or_default())
}

fn main_line(span: &Value, file: &str) -> Option<usize> {
    let mut s = span;
    loop {
        if s["file_name"].as_str() == Some(file) {
            return s["line_start"].as_u64().map(|x| x as usize);
        }
        if s["expansion"].is_object() {
            s = &s["expansion"]["span"];
        } else {
            return None;
        }
    }
}

pub fn parse_diags(stderr: &str, file: &str) -> Vec<Diag> {
    let mut v = vec![];
    for l in stderr.lines() {
        let j: Value = match serde_json::from_str(l) {
            Ok(j) => j,
            Err(_) => continue,
        };
        if !j["message"].is_string() || !j["level"].is_string() {
            continue;
        }
        let level = j["level"].as_str().unwrap().to_string();
        let mut lines = vec![];
        for s in j["spans"].as_array().into_iter().flatten() {
            if s["is_primary"] == true {
                if let Some(l) = main_line(s, file) {
                    lines.push(l);
                }
            }
        }
        if lines.is_empty() {
            for s in j["spans"].as_array().into_iter().flatten() {
                if let Some(l) = main_line(s, file) {
                    lines.push(l);
                }
            }
        }
        v.push(Diag {
            level,
            code: j["code"]["code"].as_str().unwrap_or("").into(),
            msg: j["message"].as_str().unwrap().into(),
            line: lines.first().copied().unwrap_or(0),
            lines,
            rendered: j["rendered"].as_str().unwrap_or("").into(),
        });
    }
    v
}

#[derive(Clone, Debug)]
pub struct Rustc {
    pub edition: &'static str,
    /// bin or lib or metadata-only
    pub kind: Kind,
    pub externs: Vec<(String, String)>,
    pub depdirs: Vec<String>,
    pub flags: Vec<String>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Bin,
    Lib,
    /// type check only
    Meta,
}
impl Ctx {
    pub fn rustc_default(&self, kind: Kind) -> Rustc {
        Rustc {
            edition: "2018",
            kind,
            externs: vec![("mc_rt".into(), self.ext("mc_rt")), ("derive_builder".into(), self.ext("derive_builder"))],
            depdirs: vec![self.depdir.clone()],
            flags: vec![],
        }
    }
    pub fn compile(&self, r: &Rustc, src: &std::path::Path, out: &std::path::Path) -> CompileOut {
        let mut c = Command::new(&self.rustc);
        c.arg("--edition").arg(r.edition).arg("--error-format=json").arg("-Cdebuginfo=0").arg("-Copt-level=0").arg("-Ccodegen-units=1");
        c.arg("--crate-name").arg(src.file_stem().unwrap().to_string_lossy().replace('-', "_"));
        match r.kind {
            Kind::Bin => c.arg("--crate-type=bin").arg("-o").arg(out),
            Kind::Lib => c.arg("--crate-type=lib").arg("-o").arg(out),
            Kind::Meta => c.arg("--crate-type=lib").arg("--emit=metadata").arg("-o").arg(out),
        };
        for (n, p) in &r.externs {
            c.arg("--extern").arg(format!("{}={}", n, p));
        }
        for d in &r.depdirs {
            c.arg("-L").arg(format!("dependency={}", d));
        }
        c.args(&r.flags);
        c.arg(src);
        c.env_remove("RUSTFLAGS");
        let (st, _, se) = run_limited(c, Duration::from_secs(400));
        let diags = parse_diags(&se, &src.to_string_lossy());
        CompileOut { ok: st.map_or(false, |s| s.success()), diags, timeout: st.is_none(), stderr: se }
    }
}

/// Runs f over items with the context's number of threads, keeping order.
pub fn par<I: Sync, O: Send>(jobs: usize, items: &[I], f: impl Fn(usize, &I) -> O + Sync) -> Vec<O> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, O)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..jobs.min(items.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    let r = f(i, &items[i]);
                    out.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
