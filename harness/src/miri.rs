//! Runs generated crates under Miri (undefined behaviour, data races, leaks).
use crate::campaign::*;
use crate::monitor::Run;
use crate::subject::*;
use std::path::PathBuf;
use std::process::Command;

pub struct Miri {
    dir: PathBuf,
    sysroot: PathBuf,
}
/// Prepare the interpreter's standard library (about half a minute).
pub fn prepare(ctl: &Ctl) -> Res<Miri> {
    let sysroot = ctl.sub.work.join("miri-sysroot");
    let o = Command::new("cargo")
        .args(["+nightly", "miri", "setup"])
        .env("MIRI_SYSROOT", &sysroot)
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("CARGO_TARGET_DIR")
        .env_remove("RUSTFLAGS")
        .current_dir(&ctl.sub.work)
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("cargo miri setup: {}", tail(&String::from_utf8_lossy(&o.stderr), 600)));
    }
    Ok(Miri { dir: ctl.sub.work.join("miri"), sysroot })
}
pub enum Seen {
    /// Ended normally: standard output.
    Clean(String),
    /// Undefined behaviour, race or leak.
    Ub(String),
    /// Not decided: time limit, unsupported operation or no build.
    Unknown(String),
}
impl Miri {
    /// Write the project: the units and the runtime.
    pub fn project(&self, units: &[Unit], header: &str, main: &str) -> Res<()> {
        let e = |x: std::io::Error| x.to_string();
        let rt = self.dir.join("rt/src");
        std::fs::create_dir_all(&rt).map_err(e)?;
        std::fs::create_dir_all(self.dir.join("src")).map_err(e)?;
        std::fs::write(rt.join("lib.rs"), include_str!("../rt/rt.rs")).map_err(e)?;
        std::fs::write(self.dir.join("rt/Cargo.toml"), "[package]\nname = \"rt\"\nversion = \"0.0.0\"\nedition = \"2021\"\n").map_err(e)?;
        let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
        std::fs::write(
            self.dir.join("Cargo.toml"),
            format!("[package]\nname = \"m\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\npomelo = {{ path = {:?} }}\nrt = {{ path = \"rt\" }}\n[profile.dev.build-override]\nopt-level = 0\n[workspace]\nmembers = [\"rt\"]\n", repo),
        )
        .map_err(e)?;
        let mut t = format!("#![allow(warnings)]\n{}\n", header);
        for u in units {
            t += &u.text;
            t.push('\n');
        }
        t += main;
        std::fs::write(self.dir.join("src/main.rs"), t).map_err(e)
    }
    pub fn run(&self, args: &[String], flags: &str, cpu: usize) -> Res<Seen> {
        let mut cmd = sv(&["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--"]);
        cmd.extend(args.iter().cloned());
        let mut all = vec![
            "env".to_string(),
            "-u".into(),
            "CARGO_TARGET_DIR".into(),
            "-u".into(),
            "RUSTFLAGS".into(),
            format!("MIRI_SYSROOT={}", self.sysroot.display()),
            format!("MIRIFLAGS=-Zmiri-disable-isolation {}", flags),
        ];
        all.extend(cmd);
        let o = run_limited(&all, cpu, 28, Some(&self.dir))?;
        if o.ok {
            return Ok(Seen::Clean(o.stdout));
        }
        let e = &o.stderr;
        if e.contains("Undefined Behavior") || e.contains("Data race") || e.contains("memory leaked") {
            let at = e.find("error").unwrap_or(0);
            return Ok(Seen::Ub(e[at..].chars().take(2500).collect()));
        }
        Ok(Seen::Unknown(format!("{:?} {:?} {}", o.signal, o.code, tail(e, 700))))
    }
}
/// Input and reference logs for the mixed driver, as files.
pub fn plan_files(ctl: &Ctl, tag: &str, list: &[(u32, Run)], logs: &[Vec<u32>]) -> Res<(String, String)> {
    let i = ctl.sub.work.join(format!("{}.in", tag));
    let l = ctl.sub.work.join(format!("{}.solo", tag));
    std::fs::write(&i, encode(list)).map_err(|e| e.to_string())?;
    let mut w: Vec<u8> = vec![];
    for (k, x) in logs.iter().enumerate() {
        w.extend((k as u32).to_le_bytes());
        w.extend((x.len() as u32).to_le_bytes());
        for v in x {
            w.extend(v.to_le_bytes());
        }
    }
    std::fs::write(&l, w).map_err(|e| e.to_string())?;
    Ok((i.display().to_string(), l.display().to_string()))
}
pub fn mixed_main(ids: &[u32]) -> String {
    let mut t = "fn main() { rt::main(&[".to_string();
    for i in ids {
        t += &format!("({}, g{}::make as rt::Make), ", i, i);
    }
    t + "]) }\n"
}
