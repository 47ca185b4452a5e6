//! Builds the crate under test from /repo's working tree and compiles and runs
//! generated crates against it. Everything lives in a private work directory.
use crate::monitor::Run;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Subject {
    pub work: PathBuf,
    pub verif: PathBuf,
    pub rlib: PathBuf,
    pub deps: PathBuf,
    pub threads: usize,
    pub compiled: AtomicUsize,
}
pub type Res<T> = Result<T, String>;

/// Run with a CPU and memory limit; stdout and stderr captured.
pub struct Out {
    pub ok: bool,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}
impl Out {
    /// Ended by the CPU limit.
    pub fn cpu_killed(&self) -> bool {
        matches!(self.signal, Some(24) | Some(9))
    }
}
pub fn run_limited(cmd: &[String], cpu: usize, mem_gb: usize, dir: Option<&Path>) -> Res<Out> {
    use std::os::unix::process::ExitStatusExt;
    let mut c = Command::new("prlimit");
    c.arg(format!("--cpu={}:{}", cpu, cpu + 5)).arg(format!("--as={}", mem_gb << 30)).arg("--core=0");
    c.args(cmd);
    if let Some(d) = dir {
        c.current_dir(d);
    }
    c.env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    let o = c.output().map_err(|e| format!("cannot run {:?}: {}", cmd[0], e))?;
    Ok(Out {
        ok: o.status.success(),
        code: o.status.code(),
        signal: o.status.signal(),
        stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
    })
}
pub fn sv(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

#[derive(Clone)]
pub struct Unit {
    pub id: u32,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrKind {
    /// Compile error, first message and (line relative to the unit, column).
    Diag,
    /// Compiler or macro crash.
    Crash,
    /// CPU limit.
    Hang,
}
#[derive(Clone, Debug)]
pub struct CErr {
    pub id: u32,
    pub kind: ErrKind,
    pub msg: String,
    /// All (line within the unit, column, message).
    pub at: Vec<(usize, usize, String)>,
    /// All that was printed with the errors, not shortened.
    pub full: String,
}
pub struct Bin {
    pub ids: Vec<u32>,
    pub path: PathBuf,
}
#[derive(Clone)]
pub struct Opts {
    pub header: String,
    /// `main` is made from the ids unless given.
    pub main: Option<String>,
    pub flags: Vec<String>,
    pub per: usize,
    pub cpu: usize,
    /// Stop after expansion and analysis (no binary).
    pub check_only: bool,
    /// Stop right after macro expansion.
    pub expand_only: bool,
    pub edition: &'static str,
    /// What the compiler writes to its standard output is appended here.
    pub console: Option<std::sync::Arc<std::sync::Mutex<String>>>,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts {
            header: String::new(),
            main: None,
            flags: vec![],
            per: 24,
            cpu: 120,
            check_only: false,
            expand_only: false,
            edition: "2021",
            console: None,
        }
    }
}

impl Subject {
    pub fn new(tag: &str) -> Res<Subject> {
        let verif = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
        let base = std::env::var("VH_WORK").map(PathBuf::from).unwrap_or_else(|_| verif.join(".work"));
        let work = base.join(format!("{}-{}", tag, std::process::id()));
        std::fs::create_dir_all(&work).map_err(|e| e.to_string())?;
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
        let mut s = Subject {
            deps: work.join("t/debug/deps"),
            rlib: PathBuf::new(),
            work,
            verif,
            threads,
            compiled: AtomicUsize::new(0),
        };
        s.build()?;
        Ok(s)
    }
    fn build(&mut self) -> Res<()> {
        let src = self.verif.join("subject");
        let dst = self.work.join("subject");
        copy_dir(&src, &dst)?;
        if let Ok(r) = std::env::var("VERIF_REPO") {
            let p = dst.join("Cargo.toml");
            let t = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            std::fs::write(&p, t.replace("\"/repo\"", &format!("{:?}", r))).map_err(|e| e.to_string())?;
        }
        let t = self.work.join("t");
        let o = Command::new("cargo")
            .args(["build", "--offline", "--quiet", "--target-dir"])
            .arg(&t)
            .current_dir(&dst)
            .env_remove("RUSTFLAGS")
            .env_remove("CARGO_TARGET_DIR")
            .output()
            .map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("building /repo failed:\n{}", tail(&String::from_utf8_lossy(&o.stderr), 3000)));
        }
        for e in std::fs::read_dir(&self.deps).map_err(|e| e.to_string())? {
            let p = e.map_err(|e| e.to_string())?.path();
            let n = p.file_name().unwrap().to_string_lossy().into_owned();
            if n.starts_with("libpomelo-") && n.ends_with(".rlib") {
                self.rlib = p;
            }
        }
        if self.rlib.as_os_str().is_empty() {
            return Err("no libpomelo rlib".into());
        }
        // runtime
        let rt = self.work.join("rt.rs");
        std::fs::write(&rt, include_str!("../rt/rt.rs")).map_err(|e| e.to_string())?;
        let o = Command::new("rustc")
            .args(["--edition", "2021", "--crate-type", "rlib", "--crate-name", "rt", "-O", "-C", "debuginfo=0", "-A", "warnings"])
            .arg(&rt)
            .arg("-o")
            .arg(self.work.join("librt.rlib"))
            .output()
            .map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("building the runtime failed:\n{}", tail(&String::from_utf8_lossy(&o.stderr), 3000)));
        }
        Ok(())
    }
    pub fn rustc_args(&self) -> Vec<String> {
        vec![
            "rustc".into(),
            "--edition".into(),
            "2021".into(),
            "-L".into(),
            format!("dependency={}", self.deps.display()),
            "--extern".into(),
            format!("pomelo={}", self.rlib.display()),
            "--extern".into(),
            format!("rt={}", self.work.join("librt.rlib").display()),
            "-C".into(),
            "debuginfo=0".into(),
            "-C".into(),
            "codegen-units=1".into(),
            "-A".into(),
            "warnings".into(),
            "--error-format=short".into(),
        ]
    }
    /// Compile units into binaries, attributing failures to units.
    pub fn build_bins(&self, units: &[Unit], o: &Opts) -> Res<(Vec<Bin>, Vec<CErr>)> {
        let chunks: Vec<Vec<Unit>> = units.chunks(o.per).map(|c| c.to_vec()).collect();
        let res = par_map(self.threads, &chunks, |c| self.chunk(c.clone(), o));
        let mut bins = vec![];
        let mut errs = vec![];
        for r in res {
            let (b, e) = r?;
            bins.extend(b);
            errs.extend(e);
        }
        Ok((bins, errs))
    }
    /// As above, on this thread alone.
    pub fn build_bins_seq(&self, units: &[Unit], o: &Opts) -> Res<(Vec<Bin>, Vec<CErr>)> {
        let mut bins = vec![];
        let mut errs = vec![];
        for c in units.chunks(o.per) {
            let (b, e) = self.chunk(c.to_vec(), o)?;
            bins.extend(b);
            errs.extend(e);
        }
        Ok((bins, errs))
    }
    fn chunk(&self, mut units: Vec<Unit>, o: &Opts) -> Res<(Vec<Bin>, Vec<CErr>)> {
        let mut errs: Vec<CErr> = vec![];
        let mut bins = vec![];
        let mut rounds = 0;
        while !units.is_empty() {
            rounds += 1;
            if rounds > 3000 {
                return Err("compile loop".into());
            }
            let n = self.compiled.fetch_add(1, Ordering::SeqCst);
            let src = self.work.join(format!("c{}.rs", n));
            let exe = self.work.join(format!("c{}", n));
            let mut text = o.header.clone();
            text.push('\n');
            let mut line = text.lines().count() + 1;
            let mut ranges = vec![];
            for u in &units {
                let l = u.text.lines().count();
                ranges.push((line, line + l, u.id));
                line += l;
                text += &u.text;
                if !u.text.ends_with('\n') {
                    text.push('\n');
                }
            }
            match &o.main {
                Some(m) => text += m,
                None => {
                    text += "fn main() { rt::main(&[";
                    for u in &units {
                        text += &format!("({}, g{}::make as rt::Make), ", u.id, u.id);
                    }
                    text += "]) }\n";
                }
            }
            if o.expand_only {
                text += "\nuse vh_stop_after_expansion::x as _;\ncompile_error!(\"vh sentinel\");\n";
            }
            std::fs::write(&src, &text).map_err(|e| e.to_string())?;
            let mut a = self.rustc_args();
            if let Some(e) = a.iter_mut().find(|x| *x == "2021") {
                *e = o.edition.into();
            }
            a.extend(o.flags.iter().cloned());
            a.push(src.display().to_string());
            if o.check_only || o.expand_only {
                a.extend(sv(&["--emit=metadata"]));
            }
            a.extend(["-o".to_string(), exe.display().to_string()]);
            let out = run_limited(&a, o.cpu, 12, Some(&self.work))?;
            if let Some(c) = &o.console {
                c.lock().unwrap().push_str(&out.stdout);
            }
            if out.ok {
                let _ = std::fs::remove_file(&src);
                bins.push(Bin { ids: units.iter().map(|u| u.id).collect(), path: exe });
                break;
            }
            // diagnostics: path:line:col: error
            let prefix = src.display().to_string();
            let mut found: BTreeMap<u32, CErr> = BTreeMap::new();
            let mut sentinel = false;
            let mut cur: Option<u32> = None;
            for l in out.stderr.lines() {
                let rest = l.strip_prefix(&prefix).and_then(|r| r.strip_prefix(':'));
                let Some(rest) = rest else {
                    if let Some(id) = cur {
                        let e = found.get_mut(&id).unwrap();
                        if e.full.len() < 4 << 20 {
                            e.full.push_str(l);
                            e.full.push('\n');
                        }
                        let m = &mut e.msg;
                        if m.len() < 4000 {
                            m.push('\n');
                            m.push_str(l);
                        }
                    }
                    continue;
                };
                cur = None;
                let mut it = rest.splitn(3, ':');
                let (Some(a), Some(b), Some(m)) = (it.next(), it.next(), it.next()) else { continue };
                let (Ok(ln), Ok(col)) = (a.trim().parse::<usize>(), b.trim().parse::<usize>()) else { continue };
                let m = m.trim();
                if !m.starts_with("error") {
                    continue;
                }
                if m.contains("vh sentinel") {
                    sentinel = true;
                    continue;
                }
                if let Some((s, _, id)) = ranges.iter().find(|r| r.0 <= ln && ln < r.1) {
                    let kind = if m.contains("panicked") { ErrKind::Crash } else { ErrKind::Diag };
                    let e = found.entry(*id).or_insert(CErr { id: *id, kind, msg: m.to_string(), at: vec![], full: String::new() });
                    e.full.push_str(m);
                    e.full.push('\n');
                    e.at.push((ln - s, col, m.to_string()));
                    cur = Some(*id);
                }
            }
            let _ = std::fs::remove_file(&src);
            let _ = std::fs::remove_file(&exe);
            if out.signal.is_none() && !found.is_empty() {
                units.retain(|u| !found.contains_key(&u.id));
                errs.extend(found.into_values());
                continue;
            }
            if o.expand_only && sentinel && out.signal.is_none() {
                // everything left expanded
                break;
            }
            // hang, crash or an error we cannot place: bisect
            if units.len() > 1 {
                let m = units.len() / 2;
                let right = units.split_off(m);
                let (b, e) = self.chunk(right, o)?;
                bins.extend(b);
                errs.extend(e);
                continue;
            }
            if out.signal.is_none() && out.code.is_some_and(|c| c != 1 && c != 101) {
                return Err(format!("rustc failed: {:?} {}", out.code, tail(&out.stderr, 2000)));
            }
            if out.stderr.contains("memory allocation of") || out.stderr.contains("No space left") || out.stderr.contains("linking with") {
                return Err(format!("resources: {}", tail(&out.stderr, 2000)));
            }
            let kind = if matches!(out.signal, Some(24) | Some(9)) {
                ErrKind::Hang
            } else {
                ErrKind::Crash
            };
            if out.signal == Some(9) && std::path::Path::new("/root/.vp/ended.log").metadata().is_ok_and(|m| m.len() > 0) {
                // possibly the memory guard: no verdict
                return Err("rustc was killed".into());
            }
            errs.push(CErr {
                id: units[0].id,
                kind,
                msg: format!("signal {:?} code {:?}: {}", out.signal, out.code, tail(&out.stderr, 1500)),
                at: vec![],
                full: out.stderr.clone(),
            });
            break;
        }
        Ok((bins, errs))
    }
    /// Run plans against a binary. Returns one log per run (None: the process ended before or in it).
    pub fn run_bin(&self, bin: &Path, runs: &[(u32, Run)], cpu: usize) -> Res<RunRes> {
        let n = self.compiled.fetch_add(1, Ordering::SeqCst);
        let inp = self.work.join(format!("i{}", n));
        let logp = self.work.join(format!("l{}", n));
        let prog = self.work.join(format!("p{}", n));
        std::fs::write(&inp, encode(runs)).map_err(|e| e.to_string())?;
        let a = vec![
            bin.display().to_string(),
            inp.display().to_string(),
            logp.display().to_string(),
            prog.display().to_string(),
        ];
        let out = run_limited(&a, cpu, 12, Some(&self.work))?;
        let w = std::fs::read(&logp).unwrap_or_default();
        let w: Vec<u32> = w.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let mut logs: Vec<Option<Vec<u32>>> = vec![None; runs.len()];
        let mut p = 0;
        while p + 2 <= w.len() {
            let i = w[p] as usize;
            let n = w[p + 1] as usize;
            if p + 2 + n > w.len() {
                break;
            }
            logs[i] = Some(w[p + 2..p + 2 + n].to_vec());
            p += 2 + n;
        }
        let last = std::fs::read(&prog).ok().filter(|b| b.len() == 4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize);
        for f in [&inp, &logp, &prog] {
            let _ = std::fs::remove_file(f);
        }
        let stuck = if out.ok {
            None
        } else {
            let why = if out.cpu_killed() {
                "does not end (CPU limit)".to_string()
            } else {
                format!("ended abnormally: signal {:?} code {:?} {}", out.signal, out.code, tail(&out.stderr, 500))
            };
            if !out.cpu_killed() && out.code == Some(101) && last.is_none() {
                return Err(format!("driver failed: {}", tail(&out.stderr, 500)));
            }
            Some((last.unwrap_or(0), out.cpu_killed(), why))
        };
        Ok(RunRes { logs, stuck })
    }
    pub fn cleanup(&self) {
        let _ = std::fs::remove_dir_all(&self.work);
    }
}
pub struct RunRes {
    pub logs: Vec<Option<Vec<u32>>>,
    /// (run, by the CPU limit, why)
    pub stuck: Option<(usize, bool, String)>,
}
pub fn encode(runs: &[(u32, Run)]) -> Vec<u8> {
    let mut w: Vec<u32> = vec![runs.len() as u32];
    for (g, r) in runs {
        w.push(*g);
        w.push(r.flags);
        for v in [&r.syn, &r.fail, &r.ops] {
            w.push(v.len() as u32);
            w.extend(v);
        }
    }
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn tail(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = s.len() - n;
    while !s.is_char_boundary(k) {
        k += 1;
    }
    s[k..].to_string()
}
pub fn copy_dir(a: &Path, b: &Path) -> Res<()> {
    std::fs::create_dir_all(b).map_err(|e| e.to_string())?;
    for e in std::fs::read_dir(a).map_err(|e| format!("{}: {}", a.display(), e))? {
        let e = e.map_err(|e| e.to_string())?;
        let to = b.join(e.file_name());
        if e.file_type().map_err(|e| e.to_string())?.is_dir() {
            if e.file_name() != "target" {
                copy_dir(&e.path(), &to)?;
            }
        } else {
            std::fs::copy(e.path(), &to).map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}
pub fn par_map<T: Sync, R: Send>(threads: usize, items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<Option<R>>> = items.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..threads.min(items.len()).max(1) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= items.len() {
                        break;
                    }
                    let r = f(&items[i]);
                    *out[i].lock().unwrap() = Some(r);
                })
                .unwrap();
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}
