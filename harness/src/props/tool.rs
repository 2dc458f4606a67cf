//! Runs the real command-line tools.

use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

pub fn bin(name: &str) -> PathBuf {
    let d = std::env::var("VERIF_BINS").expect("VERIF_BINS is where the tools are");
    let p = PathBuf::from(d).join(name);
    assert!(p.exists(), "{:?} is not built", p);
    p
}

pub struct Ran {
    pub status: ExitStatus,
    pub stdout: String,
    pub stderr: String,
}

impl Ran {
    /// It exited by itself, with failure. A panic is one.
    pub fn failed(&self) -> bool {
        self.status.code().is_some_and(|c| c != 0)
    }
    pub fn ending(&self) -> String {
        let last: Vec<&str> = self.stderr.lines().take(3).collect();
        match (self.status.code(), self.status.signal()) {
            (Some(c), _) => format!("exit status {} ({})", c, last.join(" | ")),
            (_, Some(s)) => format!("killed by signal {}", s),
            _ => "?".to_string(),
        }
    }
}

pub struct Running {
    pub child: Child,
    out: JoinHandle<Vec<u8>>,
    err: JoinHandle<Vec<u8>>,
    started: Instant,
    name: String,
}

#[derive(Default, Clone)]
pub struct Limits {
    /// no file may become larger
    pub file_size: Option<u64>,
    /// what the standard input is, which no tool reads
    pub stdin: Option<PathBuf>,
}

pub fn start(name: &str, args: &[&std::ffi::OsStr], limits: Limits) -> Running {
    let mut c = Command::new(bin(name));
    c.args(args)
        .stdin(match &limits.stdin {
            Some(p) => Stdio::from(std::fs::File::open(p).unwrap()),
            None => Stdio::null(),
        })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env_remove("RUST_BACKTRACE")
        .env("LC_ALL", "C.UTF-8");
    unsafe {
        c.pre_exec(move || {
            // does not outlive the harness
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(n) = limits.file_size {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit {
                    rlim_cur: n,
                    rlim_max: n,
                };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            Ok(())
        });
    }
    let mut child = c.spawn().unwrap_or_else(|e| panic!("cannot start {}: {}", name, e));
    fn gather(mut r: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = r.read_to_end(&mut v);
            v
        })
    }
    Running {
        out: gather(child.stdout.take().unwrap()),
        err: gather(child.stderr.take().unwrap()),
        child,
        started: Instant::now(),
        name: name.to_string(),
    }
}

impl Running {
    pub fn wait(mut self, max: Duration) -> Result<Ran, String> {
        let mut pause = Duration::from_micros(200);
        let status = loop {
            if let Some(s) = self.child.try_wait().unwrap() {
                break s;
            }
            if self.started.elapsed() > max {
                let _ = self.child.kill();
                let _ = self.child.wait();
                return Err(format!("{} does not end within {:?}", self.name, max));
            }
            std::thread::sleep(pause);
            pause = (pause * 2).min(Duration::from_millis(5));
        };
        Ok(Ran {
            status,
            stdout: String::from_utf8_lossy(&self.out.join().unwrap()).to_string(),
            stderr: String::from_utf8_lossy(&self.err.join().unwrap()).to_string(),
        })
    }
}

pub const MAX: Duration = Duration::from_secs(60);

pub fn run(name: &str, args: &[&std::ffi::OsStr]) -> Result<Ran, String> {
    start(name, args, Limits::default()).wait(MAX)
}
