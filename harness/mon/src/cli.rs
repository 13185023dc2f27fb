//! Runs the program under test as a black box.
use std::fs::File;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    /// Ended with an error (exit code or signal).
    Failed(String),
    /// Used up its CPU allowance.
    CpuLimit,
    /// All threads slept without using the CPU for a long time.
    Hung,
    /// Still running after the wall clock watchdog: says nothing.
    Watchdog,
}

pub struct Run {
    pub outcome: Outcome,
    pub stdout: Vec<u8>,
    /// the last part of stderr
    pub stderr: Vec<u8>,
    pub stderr_len: u64,
    pub cmd: String,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.outcome == Outcome::Ok
    }
    pub fn err_tail(&self) -> String {
        let s = String::from_utf8_lossy(&self.stderr);
        let t: Vec<&str> = s.lines().rev().take(6).collect();
        t.into_iter().rev().map(|l| l.chars().take(300).collect::<String>()).collect::<Vec<_>>().join("\n")
    }
    /// The part of stderr that names a panic.
    pub fn panic_line(&self) -> String {
        let s = String::from_utf8_lossy(&self.stderr);
        let lines: Vec<&str> = s.lines().collect();
        for (i, l) in lines.iter().enumerate() {
            if l.contains("panicked at") {
                let next = lines.get(i + 1).unwrap_or(&"");
                return format!("{} {}", l, next).chars().take(400).collect();
            }
        }
        self.err_tail()
    }
}

#[derive(Clone)]
pub struct Cli {
    pub bin: PathBuf,
    pub cpu: u64,
    pub env: Vec<(String, String)>,
    pub taskset: Option<String>,
    /// extra shell before exec (ulimits)
    pub pre: String,
    pub watchdog: Duration,
    pub idle: Duration,
    /// Throw stderr away (dumping tables there takes the optimizer longer than
    /// anything else); a run that fails is repeated to see its message.
    pub quiet: bool,
}

impl Cli {
    pub fn new(bin: &Path) -> Cli {
        Cli {
            bin: bin.to_path_buf(),
            cpu: 30,
            env: Vec::new(),
            taskset: None,
            pre: String::new(),
            watchdog: Duration::from_secs(400),
            idle: Duration::from_secs(40),
            quiet: false,
        }
    }
    pub fn with_env(&self, k: &str, v: &str) -> Cli {
        let mut c = self.clone();
        c.env.push((k.into(), v.into()));
        c
    }

    /// Runs with the given arguments in `dir`; TMPDIR is `dir`/tmp.
    pub fn run(&self, dir: &Path, args: &[&str]) -> Run {
        let mut run = self.run_to(dir, args, None);
        if self.quiet && matches!(run.outcome, Outcome::Failed(_)) {
            let again = Cli { quiet: false, ..self.clone() }.run_to(dir, args, None);
            run.stderr = again.stderr;
            run.stderr_len = again.stderr_len;
        }
        run
    }

    pub fn run_to(&self, dir: &Path, args: &[&str], stdout: Option<&Path>) -> Run {
        let tmp = dir.join("tmp");
        let _ = std::fs::create_dir_all(&tmp);
        let out_path = dir.join(".stdout");
        let out = match stdout {
            Some(p) => std::fs::OpenOptions::new().write(true).open(p).unwrap(),
            None => File::create(&out_path).unwrap(),
        };
        let err_path = dir.join(".stderr");
        let err = File::create(&err_path).unwrap();
        let mut c = Command::new("/bin/sh");
        c.arg("-c")
            .arg(format!("ulimit -c 0; ulimit -S -t {}; ulimit -H -t {}; {} exec \"$@\"", self.cpu, self.cpu + 10, self.pre))
            .arg("sh");
        if let Some(t) = &self.taskset {
            c.arg("taskset").arg("-c").arg(t);
        }
        if !self.env.is_empty() {
            c.arg("env");
            // ("-u", NAME) removes a variable.
            for (_, v) in self.env.iter().filter(|e| e.0 == "-u") {
                c.arg("-u").arg(v);
            }
            for (k, v) in self.env.iter().filter(|e| e.0 != "-u") {
                c.arg(format!("{}={}", k, v));
            }
        }
        c.arg(&self.bin).args(args);
        c.current_dir(dir);
        c.env("TMPDIR", &tmp).env("RUST_BACKTRACE", "0");
        c.stdin(Stdio::null()).stdout(out);
        if self.quiet {
            c.stderr(Stdio::null());
        } else {
            c.stderr(err);
        }
        let mut child = c.spawn().unwrap();
        let pid = child.id();
        let t0 = Instant::now();
        let mut wait = Duration::from_micros(300);
        let mut last_cpu = (0u64, Instant::now());
        let mut next_look = Duration::from_secs(1);
        let mut verdict = None;
        let status = loop {
            if let Some(st) = child.try_wait().unwrap() {
                break st;
            }
            std::thread::sleep(wait);
            wait = (wait * 2).min(Duration::from_millis(15));
            if t0.elapsed() > next_look {
                next_look = t0.elapsed() + Duration::from_secs(1);
                let (cpu, asleep) = proc_cpu(pid);
                if cpu != last_cpu.0 || !asleep {
                    last_cpu = (cpu, Instant::now());
                } else if last_cpu.1.elapsed() > self.idle {
                    verdict = Some(Outcome::Hung);
                }
                if t0.elapsed() > self.watchdog {
                    verdict = Some(Outcome::Watchdog);
                }
                if verdict.is_some() {
                    let _ = child.kill();
                }
            }
        };
        // The program can dump hundreds of megabytes there: look at the end only.
        let (stderr, stderr_len) = tail_of(&err_path, 1 << 17);
        let _ = std::fs::remove_file(&err_path);
        let outcome = match verdict {
            Some(v) => v,
            None => {
                use std::os::unix::process::ExitStatusExt;
                if status.success() {
                    Outcome::Ok
                } else if let Some(sig) = status.signal() {
                    if sig == 24 || sig == 9 {
                        // SIGXCPU, or SIGKILL (hard limit / out of memory)
                        if sig == 24 { Outcome::CpuLimit } else { Outcome::Watchdog }
                    } else {
                        Outcome::Failed(format!("signal {}", sig))
                    }
                } else {
                    Outcome::Failed(format!("exit code {}", status.code().unwrap_or(-1)))
                }
            }
        };
        Run {
            outcome,
            stdout: if stdout.is_some() { Vec::new() } else { std::fs::read(&out_path).unwrap_or_default() },
            stderr,
            stderr_len,
            cmd: format!("texmo {}", args.join(" ")),
        }
    }
}

fn tail_of(p: &Path, max: u64) -> (Vec<u8>, u64) {
    use std::io::{Read, Seek, SeekFrom};
    let mut v = Vec::new();
    let mut len = 0;
    if let Ok(mut f) = File::open(p) {
        len = f.metadata().map(|m| m.len()).unwrap_or(0);
        let _ = f.seek(SeekFrom::Start(len.saturating_sub(max)));
        let _ = f.read_to_end(&mut v);
    }
    (v, len)
}

/// CPU ticks of a process (and its finished children), and whether all its
/// threads sleep.
pub fn proc_cpu(pid: u32) -> (u64, bool) {
    let mut ticks = 0;
    let mut asleep = true;
    if let Ok(rd) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for e in rd.flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                if let Some(p) = s.rfind(')') {
                    let f: Vec<&str> = s[p + 2..].split(' ').collect();
                    if f.len() > 13 {
                        if f[0] != "S" {
                            asleep = false;
                        }
                        ticks += f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
                    }
                }
            }
        }
    }
    (ticks, asleep)
}

pub fn path_str(p: &Path) -> &str {
    p.to_str().unwrap()
}

/// JSON files in a directory, sorted by name.
pub fn json_files(dir: &Path) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|rd| rd.flatten().map(|e| e.path()).filter(|p| p.is_file()).collect())
        .unwrap_or_default();
    v.sort();
    v
}
