//! Processes, directories and the stand-in for command-line solvers.

use std::collections::BTreeMap;
use std::ffi::CString;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

use crate::core::Ctx;
use crate::rng::hash_bytes;

/// Real solver, looked up on the path the harness was started with.
pub fn real(name: &str) -> Option<PathBuf> {
    static P: OnceLock<String> = OnceLock::new();
    let p = P.get_or_init(|| std::env::var("MON_REAL_PATH").or_else(|_| std::env::var("PATH")).unwrap_or_default());
    p.split(':').map(|d| Path::new(d).join(name)).find(|f| f.is_file())
}

pub fn real_dir() -> PathBuf {
    real("cbc").expect("cbc is installed").parent().unwrap().to_path_buf()
}

/// A scratch world: working directory, temporary directory, directory with stand-ins.
pub struct World {
    pub root: PathBuf,
    pub cwd: PathBuf,
    pub tmp: PathBuf,
    pub bin: PathBuf,
    pub ctl: PathBuf,
    pub log: PathBuf,
    pub data: PathBuf,
}

impl World {
    /// The world of this shard; its directories are emptied.
    pub fn new(ctx: &Ctx) -> World {
        real("cbc");
        if std::env::var("MON_REAL_PATH").is_err() {
            std::env::set_var("MON_REAL_PATH", std::env::var("PATH").unwrap_or_default());
        }
        let root = ctx.scratch.join("world");
        let w = World {
            cwd: root.join("cwd"),
            tmp: root.join("tmp"),
            bin: root.join("bin"),
            ctl: root.join("ctl"),
            log: root.join("log"),
            data: root.join("data"),
            root,
        };
        fs::create_dir_all(&w.root).unwrap();
        std::env::set_current_dir(&w.root).unwrap();
        for d in [&w.cwd, &w.tmp] {
            if d.exists() {
                fs::remove_dir_all(d).unwrap();
            }
            fs::create_dir_all(d).unwrap();
        }
        if !w.bin.exists() {
            fs::create_dir_all(&w.bin).unwrap();
            fs::create_dir_all(&w.data).unwrap();
            let exe = std::env::current_exe().unwrap();
            symlink(&exe, w.bin.join("cbc")).unwrap();
            symlink(&exe, w.bin.join("clp")).unwrap();
        }
        if w.log.exists() {
            fs::remove_file(&w.log).unwrap();
        }
        fs::write(&w.ctl, "").unwrap();
        std::env::set_var("TMPDIR", &w.tmp);
        std::env::set_var("MON_CTL", &w.ctl);
        std::env::set_var("MON_LOG", &w.log);
        std::env::set_current_dir(&w.cwd).unwrap();
        w.use_fake();
        w
    }

    /// The world of this shard as an earlier case left it.
    pub fn new_once(ctx: &Ctx) -> World {
        let root = ctx.scratch.join("world");
        static MADE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        if !MADE.swap(true, std::sync::atomic::Ordering::SeqCst) {
            return World::new(ctx);
        }
        let w = World {
            cwd: root.join("cwd"),
            tmp: root.join("tmp"),
            bin: root.join("bin"),
            ctl: root.join("ctl"),
            log: root.join("log"),
            data: root.join("data"),
            root,
        };
        // Whatever the code under test did to the process, it works in the scratch directory
        std::env::set_current_dir(&w.cwd).unwrap();
        std::env::set_var("TMPDIR", &w.tmp);
        w
    }

    pub fn use_fake(&self) {
        std::env::set_var("PATH", &self.bin);
    }

    pub fn use_real(&self) {
        std::env::set_var("PATH", real_dir());
    }

    pub fn control(&self, s: &str) {
        fs::write(&self.ctl, s).unwrap();
    }

    /// Calls of the stand-in so far.
    pub fn calls(&self) -> Vec<Call> {
        let s = fs::read_to_string(&self.log).unwrap_or_default();
        s.lines()
            .map(|l| {
                let mut p = l.split('\u{1}');
                Call {
                    name: p.next().unwrap_or("").to_string(),
                    lp_hash: p.next().unwrap_or("").to_string(),
                    args: p.map(|x| x.to_string()).collect(),
                }
            })
            .collect()
    }

    pub fn clear_log(&self) {
        let _ = fs::remove_file(&self.log);
    }
}

pub struct Call {
    pub name: String,
    pub lp_hash: String,
    pub args: Vec<String>,
}

impl Call {
    /// Value given after a keyword.
    pub fn after(&self, key: &str) -> Option<String> {
        after(&self.args, key)
    }
}

fn after(args: &[String], key: &str) -> Option<String> {
    for (i, a) in args.iter().enumerate() {
        let t = a.trim_start_matches('-');
        if t.eq_ignore_ascii_case(key) {
            return args.get(i + 1).cloned();
        }
        if let Some(r) = t.strip_prefix(key) {
            if let Some(v) = r.strip_prefix('=') {
                return Some(v.to_string());
            }
        }
    }
    None
}

/// Path -> (kind, mode, content hash)
pub fn snapshot(dirs: &[&Path]) -> BTreeMap<PathBuf, (char, u32, u64)> {
    let mut m = BTreeMap::new();
    for d in dirs {
        walk(d, &mut m);
    }
    m
}

fn walk(d: &Path, m: &mut BTreeMap<PathBuf, (char, u32, u64)>) {
    let rd = match fs::read_dir(d) {
        Ok(r) => r,
        Err(_) => return,
    };
    for e in rd.flatten() {
        let p = e.path();
        let md = match fs::symlink_metadata(&p) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let mode = md.permissions().mode();
        if md.is_dir() {
            m.insert(p.clone(), ('d', mode, 0));
            walk(&p, m);
        } else if md.file_type().is_symlink() {
            let t = fs::read_link(&p).unwrap_or_default();
            m.insert(p, ('l', 0, hash_bytes(t.as_os_str().as_bytes())));
        } else if md.is_file() {
            let c = fs::read(&p).unwrap_or_default();
            m.insert(p, ('f', mode, hash_bytes(&c) ^ (md.ino().wrapping_mul(0x9E3779B97F4A7C15))));
        } else {
            m.insert(p, ('o', mode, 0));
        }
    }
}

pub fn snapshot_diff(a: &BTreeMap<PathBuf, (char, u32, u64)>, b: &BTreeMap<PathBuf, (char, u32, u64)>) -> Option<String> {
    let mut v = Vec::new();
    for (p, x) in a.iter() {
        match b.get(p) {
            None => v.push(format!("{} is gone", p.display())),
            Some(y) if x != y => v.push(format!("{} was changed", p.display())),
            _ => (),
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            v.push(format!("{} was left behind", p.display()));
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(v.join(", "))
    }
}

/// Sets a directory's modification time to a fixed one, to notice later changes of its entries.
pub fn age_dir(d: &Path) {
    let c = CString::new(d.as_os_str().as_bytes()).unwrap();
    let t = libc::timespec { tv_sec: 1_000_000_000, tv_nsec: 0 };
    let ts = [t, t];
    unsafe {
        libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), 0);
    }
}

pub fn is_aged(d: &Path) -> bool {
    fs::metadata(d).map(|m| m.mtime() == 1_000_000_000).unwrap_or(false)
}

// ---------------------------------------------------------------- stand-in

/// Runs as a stand-in if started under the name of a solver.
pub fn fake_main() -> Option<i32> {
    let args: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().to_string()).collect();
    let name = Path::new(args.get(0)?).file_name()?.to_str()?.to_string();
    if name != "cbc" && name != "clp" {
        return None;
    }
    let args = &args[1..];
    let lp = args.iter().find(|a| a.ends_with(".lp")).cloned();
    let text = lp.as_ref().and_then(|l| fs::read(l).ok());
    let sol = after(args, "solution").or_else(|| after(args, "solu"));
    if let Ok(l) = std::env::var("MON_LOG") {
        let h = match &text {
            Some(t) => format!("{:x}", hash_bytes(t)),
            None => "none".to_string(),
        };
        let mut s = format!("{}\u{1}{}", name, h);
        for a in args {
            s.push('\u{1}');
            s.push_str(a);
        }
        s.push('\n');
        if let Ok(mut f) = fs::OpenOptions::new().create(true).append(true).open(l) {
            let _ = f.write_all(s.as_bytes());
        }
    }
    let ctl = std::env::var("MON_CTL").ok().and_then(|c| fs::read_to_string(c).ok()).unwrap_or_default();
    let mut written: Vec<u8> = Vec::new();
    for line in ctl.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            // write FROM TO FILE: bytes of a file to the solution file
            "write" => {
                let data = fs::read(w[3]).unwrap_or_default();
                let a: usize = w[1].parse().unwrap_or(0);
                let b: usize = w[2].parse().unwrap_or(data.len()).min(data.len());
                if a <= b {
                    written.extend_from_slice(&data[a..b]);
                }
                if let Some(s) = &sol {
                    let _ = fs::write(s, &written);
                }
            }
            "sleep" => std::thread::sleep(std::time::Duration::from_millis(w[1].parse().unwrap_or(0))),
            "kill" => unsafe {
                // The signal may have been ignored or blocked by whoever started the harness
                let sig = w[1].parse().unwrap_or(9);
                libc::signal(sig, libc::SIG_DFL);
                let mut set: libc::sigset_t = std::mem::zeroed();
                libc::sigemptyset(&mut set);
                libc::sigaddset(&mut set, sig);
                libc::sigprocmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
                libc::kill(libc::getpid(), sig);
                std::thread::sleep(std::time::Duration::from_secs(2));
                libc::kill(libc::getpid(), libc::SIGKILL);
            },
            // cbc says nothing with logLevel 0, clp does
            "out" if name == "cbc" && after(args, "logLevel").as_deref() == Some("0") => (),
            "out" | "err" => {
                let t = format!("{}\n", line.get(4..).unwrap_or(""));
                unsafe {
                    libc::write(if w[0] == "out" { 1 } else { 2 }, t.as_ptr() as *const libc::c_void, t.len());
                }
            }
            "exit" => return Some(w[1].parse().unwrap_or(0)),
            "mkdir" => {
                if let Some(s) = &sol {
                    let _ = fs::create_dir(s);
                }
            }
            "unlink" => {
                // removes what it was given
                if let Some(l) = &lp {
                    let _ = fs::remove_file(l);
                }
            }
            "mode" => {
                if let Some(s) = &sol {
                    let _ = fs::set_permissions(s, fs::Permissions::from_mode(u32::from_str_radix(w[1], 8).unwrap_or(0)));
                }
            }
            "real" => {
                let p = match real(&name) {
                    Some(p) => p,
                    None => return Some(99),
                };
                let e = Command::new(p).args(args).exec();
                eprintln!("exec: {}", e);
                return Some(98);
            }
            // keep LP SOL: runs the real solver and keeps copies of what it reads and writes
            "keep" => {
                let p = match real(&name) {
                    Some(p) => p,
                    None => return Some(99),
                };
                if let Some(l) = &lp {
                    let _ = fs::copy(l, w[1]);
                }
                let r = Command::new(p).args(args).status();
                if let Some(s) = &sol {
                    let _ = fs::copy(s, w[2]);
                }
                return Some(r.ok().and_then(|r| r.code()).unwrap_or(97));
            }
            // Answers by what the problem says, after a delay that the problem says
            "echo" => return Some(echo(text.as_deref(), &sol, lp.as_deref())),
            _ => (),
        }
    }
    Some(0)
}

/// Answers with x_i = lower limit, dual of c_i = its right-hand side; the objective's
/// coefficient of x_0 is the delay in tenths of milliseconds.
fn echo(text: Option<&[u8]>, sol: &Option<String>, lp: Option<&str>) -> i32 {
    let f = match text.and_then(|t| crate::lp::read_lp(&String::from_utf8_lossy(t)).ok()) {
        Some(f) => f,
        None => return 97,
    };
    let mut out = "Optimal - objective value 0\n".to_string();
    let mut rows: Vec<&crate::lp::LpRow> = f.rows.iter().collect();
    rows.sort_by_key(|r| r.name[r.name.find('_').map(|k| k + 1).unwrap_or(0)..].parse::<usize>().unwrap_or(0));
    for (k, r) in rows.iter().enumerate() {
        out.push_str(&format!("      {} {} {} {}\n", k, r.name, r.rhs, r.rhs + 0.5));
    }
    let mut names: Vec<&String> = f.names.iter().collect();
    names.sort_by_key(|s| s[s.find('_').map(|k| k + 1).unwrap_or(0)..].parse::<usize>().unwrap_or(0));
    for (k, s) in names.iter().enumerate() {
        let lo = f.lo.get(*s).cloned().unwrap_or(0.);
        out.push_str(&format!("      {} {} {} {}\n", k, s, lo, lo + 0.25));
    }
    let delay = f.obj.get("x_0").cloned().unwrap_or(0.);
    // The coefficient of x_1 says how to end
    let end = f.obj.get("x_1").cloned().unwrap_or(0.) as i64;
    if delay > 0. && delay < 5e5 {
        std::thread::sleep(std::time::Duration::from_micros((delay * 100.) as u64));
    }
    // The input must still be there and be the same
    if let Some(l) = lp {
        if fs::read(l).ok().as_deref() != text {
            return 96;
        }
    }
    if end == 3 {
        return 0; // no file
    }
    if end == 4 {
        out = "Infeasible - objective value 1\n".to_string();
    }
    if end == 2 {
        out.truncate(out.len() * 2 / 3);
    }
    if let Some(s) = sol {
        let half = out.len() / 2;
        if let Ok(mut f) = fs::File::create(s) {
            let _ = f.write_all(out[..half].as_bytes());
            std::thread::sleep(std::time::Duration::from_micros(300));
            let _ = f.write_all(out[half..].as_bytes());
        }
    }
    if end == 1 {
        return 1;
    }
    if end == 5 {
        unsafe {
            libc::kill(libc::getpid(), libc::SIGKILL);
            libc::pause();
        }
    }
    0
}

pub fn ignore_file_size_signal() {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}

/// Limits the size of files this process can write (None: no limit).
pub fn limit_file_size(n: Option<u64>) {
    ignore_file_size_signal();
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
        r.rlim_cur = match n {
            Some(x) => x as libc::rlim_t,
            None => r.rlim_max,
        };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    }
}

/// As in processes that do not care for their children: their ends are not reported.
pub fn ignore_children(on: bool) {
    unsafe {
        libc::signal(libc::SIGCHLD, if on { libc::SIG_IGN } else { libc::SIG_DFL });
    }
}
