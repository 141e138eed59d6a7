//! What the harness does about cases that never end, or that end the whole process (stack overflow,
//! exhausted memory): the check runs in a child process that keeps the case each worker is at in a
//! file. A case that takes too long ends the child; and when the child has ended in such a way, its
//! parent runs each of those cases again on its own. Only if that fails as well is it a violation.

use std::io::{Seek, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Exit code of a child with a case that takes too long.
pub const STUCK: i32 = 77;

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}

extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, id: *mut i32) -> i32;
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
}

fn cpu(clock: i32) -> Option<f64> {
    let mut t = Timespec { s: 0, ns: 0 };
    (unsafe { clock_gettime(clock, &mut t) } == 0).then_some(t.s as f64 + t.ns as f64 * 1e-9)
}

/// Processor time of this thread, in seconds.
pub fn thread_cpu() -> f64 {
    cpu(3).unwrap_or(0.0)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

/// The processor time that a case (or a run of a tool) may take, far more than any does.
pub fn cpu_limit() -> f64 {
    if thorough() {
        900.0
    } else {
        90.0
    }
}

fn wall_limit() -> Duration {
    Duration::from_secs(if thorough() { 3600 } else { 300 })
}

struct Active {
    clock: i32,
    cpu: f64,
    begun: Instant,
}

struct Slot {
    file: std::fs::File,
    active: Option<Active>,
}

/// The cases in progress.
pub struct Watch {
    slots: Vec<Mutex<Slot>>,
}

fn locked<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Watch {
    /// In the directory that the parent has named, if there is a parent.
    pub fn new(workers: usize) -> Option<&'static Watch> {
        let dir = PathBuf::from(std::env::var_os("VH_CHILD")?);
        let slots = (0..workers)
            .map(|w| {
                let file = std::fs::File::create(dir.join(format!("{w}.json"))).ok()?;
                Some(Mutex::new(Slot { file, active: None }))
            })
            .collect::<Option<Vec<_>>>()?;
        let watch: &'static Watch = Box::leak(Box::new(Watch { slots }));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in &watch.slots {
                let s = locked(s);
                if let Some(a) = &s.active {
                    let used = cpu(a.clock).unwrap_or(a.cpu) - a.cpu;
                    if used > cpu_limit() || a.begun.elapsed() > wall_limit() {
                        std::process::exit(STUCK);
                    }
                }
            }
        });
        Some(watch)
    }

    pub fn begin(&self, worker: usize, body: &str) {
        let mut s = locked(&self.slots[worker]);
        let _ = s.file.set_len(0).and_then(|_| s.file.rewind()).and_then(|_| s.file.write_all(body.as_bytes()));
        let mut clock = 0;
        if unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) } == 0 {
            s.active = cpu(clock).map(|cpu| Active { clock, cpu, begun: Instant::now() });
        }
    }

    pub fn end(&self, worker: usize) {
        let mut s = locked(&self.slots[worker]);
        let _ = s.file.set_len(0);
        s.active = None;
    }
}

/// How a case ends when it runs on its own.
#[derive(Debug, PartialEq)]
pub enum Fate {
    Passes,
    Fails(String),
    /// By a signal.
    Dies(i32),
    Endless,
    Unknown,
}

pub fn alone(file: &Path, cpu_s: f64) -> Fate {
    use std::os::unix::process::ExitStatusExt;
    let Ok(exe) = std::env::current_exe() else { return Fate::Unknown };
    let mut c = Command::new(exe);
    c.arg("replay").arg(file).env_remove("VH_CHILD");
    let cpu_limit = [cpu_s as u64, cpu_s as u64 + 5];
    let memory = [16u64 << 30; 2];
    unsafe {
        c.pre_exec(move || {
            setrlimit(0, &cpu_limit);
            setrlimit(9, &memory);
            Ok(())
        });
    }
    let Ok(mut child) = c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn() else { return Fate::Unknown };
    let t = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(_) => return Fate::Unknown,
        }
        if t.elapsed() > Duration::from_secs_f64(cpu_s * 2.0) {
            let _ = child.kill();
            let _ = child.wait();
            return Fate::Endless;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    match (status.code(), status.signal()) {
        (Some(0), _) => Fate::Passes,
        (Some(1), _) => {
            let mut m = String::new();
            if let Some(mut o) = child.stdout.take() {
                let _ = std::io::Read::read_to_string(&mut o, &mut m);
            }
            Fate::Fails(m.trim().to_string())
        }
        // SIGXCPU, and SIGKILL by the hard limit
        (None, Some(24)) => Fate::Endless,
        (None, Some(s)) => Fate::Dies(s),
        _ => Fate::Unknown,
    }
}
