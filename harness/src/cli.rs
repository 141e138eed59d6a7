//! Audio files, and running the command line tools built from the tree under test.

use crate::engine::Fail;
use crate::watch::cpu_limit;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn harness(m: impl Into<String>) -> Fail {
    Fail::Harness(m.into())
}

pub fn tool(name: &str) -> Result<PathBuf, Fail> {
    let dir = std::env::var_os("VH_BIN").ok_or_else(|| harness("VH_BIN is not set (directory of fpcalc and compare)"))?;
    let p = PathBuf::from(dir).join(name);
    if p.is_file() {
        Ok(p)
    } else {
        Err(harness(format!("{} is missing", p.display())))
    }
}

/// A file in the scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

impl Scratch {
    pub fn path(ext: &str) -> Result<Scratch, Fail> {
        Self::named(std::ffi::OsStr::new("f"), ext)
    }

    /// A path whose last part begins with `stem` and ends with `.ext`.
    pub fn named(stem: &std::ffi::OsStr, ext: &str) -> Result<Scratch, Fail> {
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = std::env::var_os("VH_SCRATCH").map(PathBuf::from).ok_or_else(|| harness("VH_SCRATCH is not set"))?;
        let n = N.fetch_add(1, Ordering::Relaxed);
        let mut name = stem.to_os_string();
        name.push(format!("{}-{n}.{ext}", std::process::id()));
        Ok(Scratch(dir.join(name)))
    }

    pub fn file(ext: &str, body: &[u8]) -> Result<Scratch, Fail> {
        Self::path(ext)?.filled(body)
    }

    pub fn filled(self, body: &[u8]) -> Result<Scratch, Fail> {
        let s = self;
        let mut f = std::fs::File::create(&s.0).map_err(|e| harness(format!("{}: {e}", s.0.display())))?;
        f.write_all(body).map_err(|e| harness(format!("{}: {e}", s.0.display())))?;
        Ok(s)
    }
}

pub struct Run {
    /// Exit code, or None if a signal ended it.
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

impl Run {
    pub fn panicked(&self) -> bool {
        self.code.is_none() || self.code == Some(101) || self.stderr.contains("panicked at")
    }

    pub fn describe(&self) -> String {
        let cut = |s: &str| s.chars().take(300).collect::<String>().replace('\n', "\\n");
        format!("exit {:?}, stdout \"{}\", stderr \"{}\"", self.code, cut(&self.stdout), cut(&self.stderr))
    }
}

/// Where the output of a tool goes.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sink {
    File,
    /// A device without room.
    Full,
    /// A pipe that nobody reads.
    Closed,
}

/// Runs a tool to its end; one that takes minutes is a failure of the harness to decide.
pub fn run(name: &str, args: &[String], files: &[&Path]) -> Result<Run, Fail> {
    start(name, args, files, &[], Sink::File)?.end()
}

pub fn run_env(name: &str, args: &[String], files: &[&Path], env: &[(&str, &str)]) -> Result<Run, Fail> {
    start(name, args, files, env, Sink::File)?.end()
}

pub fn run_to(name: &str, args: &[String], files: &[&Path], sink: Sink) -> Result<Run, Fail> {
    start(name, args, files, &[], sink)?.end()
}

/// A tool that is running.
pub struct Running {
    child: std::process::Child,
    out: Scratch,
    err: Scratch,
    what: String,
    begun: Instant,
}

impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn start(name: &str, args: &[String], files: &[&Path], env: &[(&str, &str)], sink: Sink) -> Result<Running, Fail> {
    let exe = tool(name)?;
    let out = Scratch::path("out")?;
    let err = Scratch::path("err")?;
    let create = |p: &Path| std::fs::File::create(p).map_err(|e| harness(format!("{}: {e}", p.display())));
    let kept = create(&out.0)?;
    let stdout: Stdio = match sink {
        Sink::File => kept.into(),
        Sink::Full => std::fs::File::options().write(true).open("/dev/full").map_err(|e| harness(format!("/dev/full: {e}")))?.into(),
        Sink::Closed => std::io::pipe().map_err(|e| harness(format!("pipe: {e}")))?.1.into(),
    };
    let child = Command::new(&exe)
        .args(args)
        .args(files)
        .envs(env.iter().copied())
        .stdin(Stdio::null())
        .stdout(stdout)
        .stderr(create(&err.0)?)
        .spawn()
        .map_err(|e| harness(format!("{}: {e}", exe.display())))?;
    Ok(Running { child, out, err, what: format!("{name} {args:?}"), begun: Instant::now() })
}

impl Running {
    fn read(p: &Path) -> Result<String, Fail> {
        std::fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).map_err(|e| harness(format!("{}: {e}", p.display())))
    }

    /// What it has printed so far.
    pub fn printed(&self) -> Result<String, Fail> {
        Self::read(&self.out.0)
    }

    pub fn ended(&mut self) -> Result<bool, Fail> {
        Ok(self.child.try_wait().map_err(|e| harness(e.to_string()))?.is_some())
    }

    /// The most memory (in KiB) that it has had, while it runs.
    pub fn peak_kib(&self) -> Option<u64> {
        let s = std::fs::read_to_string(format!("/proc/{}/status", self.child.id())).ok()?;
        s.lines().find_map(|l| l.strip_prefix("VmHWM:"))?.trim().strip_suffix(" kB")?.trim().parse().ok()
    }

    /// Its state (as a letter) and the processor time it has used, in seconds.
    fn condition(&self) -> Option<(char, f64)> {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).ok()?;
        let rest: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
        let ticks = rest.get(11)?.parse::<f64>().ok()? + rest.get(12)?.parse::<f64>().ok()?;
        Some((rest.first()?.chars().next()?, ticks / 100.0))
    }

    /// Waits for its end. One that computes for a minute, or that sleeps for minutes, never ends.
    pub fn end(mut self) -> Result<Run, Fail> {
        let mut pause = 200;
        let mut looks = 0u32;
        let mut asleep: Option<(Instant, f64)> = None;
        let status = loop {
            if let Some(s) = self.child.try_wait().map_err(|e| harness(e.to_string()))? {
                break s;
            }
            let wall = self.begun.elapsed().as_secs_f64();
            looks += 1;
            if looks % 64 == 0 && wall > 5.0 {
                let (state, cpu) = self.condition().unwrap_or(('?', 0.0));
                if cpu > cpu_limit() * 2.0 / 3.0 {
                    return Err(Fail::Violation(format!("{} does not end: {cpu:.0} s of processor time so far", self.what)));
                }
                asleep = match asleep {
                    Some((since, c)) if state == 'S' && c == cpu => Some((since, c)),
                    _ => (state == 'S').then(|| (Instant::now(), cpu)),
                };
                if asleep.is_some_and(|(since, _)| since.elapsed() > Duration::from_secs(120)) {
                    return Err(Fail::Violation(format!("{} does not end: it has been waiting for two minutes", self.what)));
                }
            }
            if wall > cpu_limit() * 3.0 {
                return Err(harness(format!("{} did not end within {wall:.0} s", self.what)));
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 2).min(5000);
        };
        Ok(Run { code: status.code(), stdout: Self::read(&self.out.0)?, stderr: Self::read(&self.err.0)? })
    }
}

/// A named pipe.
pub fn fifo(ext: &str) -> Result<Scratch, Fail> {
    use std::os::unix::ffi::OsStrExt;
    extern "C" {
        fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    }
    let s = Scratch::path(ext)?;
    let name = std::ffi::CString::new(s.0.as_os_str().as_bytes()).map_err(|e| harness(e.to_string()))?;
    if unsafe { mkfifo(name.as_ptr(), 0o600) } != 0 {
        return Err(harness(format!("mkfifo: {}", std::io::Error::last_os_error())));
    }
    Ok(s)
}

/// The writing end of a named pipe.
pub struct Feed {
    file: std::fs::File,
}

/// Writing ended early.
#[derive(Debug)]
pub enum Stop {
    /// The reader has closed the pipe.
    Gone,
    /// The reader takes nothing.
    Stuck,
}

impl Feed {
    /// Waits for a reader; `None` if the tool ends (or nothing happens for 20 s) before it opens the pipe.
    pub fn open(path: &Path, tool: &mut Running) -> Result<Option<Feed>, Fail> {
        use std::os::unix::fs::OpenOptionsExt;
        const NONBLOCK: i32 = 0o4000;
        let t = Instant::now();
        loop {
            match std::fs::File::options().write(true).custom_flags(NONBLOCK).open(path) {
                Ok(file) => return Ok(Some(Feed { file })),
                Err(e) if e.raw_os_error() == Some(6) => {}
                Err(e) => return Err(harness(format!("{}: {e}", path.display()))),
            }
            if tool.ended()? || t.elapsed() > Duration::from_secs(20) {
                return Ok(None);
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }

    pub fn write(&mut self, mut body: &[u8]) -> Result<(), Stop> {
        let mut t = Instant::now();
        while !body.is_empty() {
            match self.file.write(body) {
                Ok(n) => {
                    body = &body[n..];
                    t = Instant::now();
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    if t.elapsed() > Duration::from_secs(60) {
                        return Err(Stop::Stuck);
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => return Err(Stop::Gone),
            }
        }
        Ok(())
    }
}

/// Runs a tool on the body given through a named pipe in writes of the given sizes (in turn).
pub fn run_piped(name: &str, args: &[String], ext: &str, body: &[u8], sizes: &[usize]) -> Result<Run, Fail> {
    let pipe = fifo(ext)?;
    let mut tool = start(name, args, &[&pipe.0], &[], Sink::File)?;
    if let Some(mut feed) = Feed::open(&pipe.0, &mut tool)? {
        let mut rest = body;
        let mut k = 0;
        while !rest.is_empty() {
            let n = sizes[k % sizes.len()].clamp(1, rest.len());
            k += 1;
            match feed.write(&rest[..n]) {
                Ok(()) => rest = &rest[n..],
                Err(Stop::Gone) => break,
                Err(Stop::Stuck) => return Err(harness(format!("{name} reads nothing from the pipe"))),
            }
        }
    }
    tool.end()
}

// ---------------------------------------------------------------- audio files

/// A 16-bit PCM WAV file.
pub fn wav(rate: u32, channels: usize, data: &[i16]) -> Vec<u8> {
    let ext = channels > 2;
    let fmt_len = if ext { 40u32 } else { 16 };
    let bytes = (data.len() * 2) as u32;
    let mut v = Vec::with_capacity(data.len() * 2 + 80);
    v.extend(b"RIFF");
    v.extend((4 + 8 + fmt_len + 8 + bytes).to_le_bytes());
    v.extend(b"WAVEfmt ");
    v.extend(fmt_len.to_le_bytes());
    v.extend((if ext { 0xFFFEu16 } else { 1 }).to_le_bytes());
    v.extend((channels as u16).to_le_bytes());
    v.extend(rate.to_le_bytes());
    v.extend((rate.wrapping_mul(channels as u32 * 2)).to_le_bytes());
    v.extend((channels as u16 * 2).to_le_bytes());
    v.extend(16u16.to_le_bytes());
    if ext {
        v.extend(22u16.to_le_bytes());
        v.extend(16u16.to_le_bytes());
        v.extend(((1u32 << channels) - 1).to_le_bytes());
        v.extend([1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
    }
    v.extend(b"data");
    v.extend(bytes.to_le_bytes());
    for s in data {
        v.extend(s.to_le_bytes());
    }
    v
}

pub fn crc(data: &[u8], poly: u32, width: u32) -> u32 {
    let top = 1u32 << (width - 1);
    let mask = (1u64 << width) as u32;
    let mask = mask.wrapping_sub(1);
    let mut c = 0u32;
    for &b in data {
        c ^= u32::from(b) << (width - 8);
        for _ in 0..8 {
            c = if c & top != 0 { (c << 1) ^ poly } else { c << 1 } & mask;
        }
    }
    c
}

/// A 16-bit FLAC file of uncompressed ("verbatim") frames of `block` samples.
pub fn flac(rate: u32, channels: usize, data: &[i16], block: usize) -> Vec<u8> {
    let frames = data.len() / channels;
    let mut v = Vec::with_capacity(data.len() * 2 + 1000);
    v.extend(b"fLaC");
    v.extend([0x80, 0, 0, 34]);
    v.extend((block as u16).to_be_bytes());
    v.extend((block as u16).to_be_bytes());
    v.extend([0; 6]);
    let packed: u64 = u64::from(rate) << 44 | (channels as u64 - 1) << 41 | 15 << 36 | frames as u64;
    v.extend(packed.to_be_bytes());
    v.extend([0; 16]);
    for (number, chunk) in data.chunks(block * channels).enumerate() {
        let n = chunk.len() / channels;
        let mut f = vec![0xFF, 0xF8, 0x70, (channels as u8 - 1) << 4 | 0x08];
        crate::media::utf8_number(number as u64, &mut f);
        f.extend(((n - 1) as u16).to_be_bytes());
        f.push(crc(&f, 0x07, 8) as u8);
        for c in 0..channels {
            f.push(0x02);
            for i in 0..n {
                f.extend(chunk[i * channels + c].to_be_bytes());
            }
        }
        let sum = crc(&f, 0x8005, 16) as u16;
        f.extend(sum.to_be_bytes());
        v.extend(f);
    }
    v
}

// ---------------------------------------------------------------- output of fpcalc

pub fn base64url(s: &str) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        };
        acc = (acc << 6 | u32::from(v)) & 0xFF_FFFF;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
    }
    (s.len() % 4 != 1 && acc & ((1 << bits) - 1) == 0).then_some(out)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Form {
    Compressed,
    Raw,
    Signed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Format {
    Default,
    Text,
    Json,
    Plain,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Entry {
    pub timestamp: Option<f64>,
    pub duration: Option<f64>,
    pub fp: Vec<u32>,
    /// Algorithm id, of a compressed fingerprint.
    pub id: Option<u8>,
}

fn items(s: &str, form: Form) -> Result<(Option<u8>, Vec<u32>), String> {
    match form {
        Form::Compressed => {
            let bytes = base64url(s).ok_or_else(|| format!("not base64url without padding: {s:.80}"))?;
            let (id, fp) = crate::refcomp::decode(&bytes)?;
            Ok((Some(id), fp))
        }
        _ if s.is_empty() => Ok((None, vec![])),
        Form::Raw => Ok((None, s.split(',').map(|x| x.trim().parse::<u32>().map_err(|e| format!("{x}: {e}"))).collect::<Result<_, _>>()?)),
        Form::Signed => {
            Ok((None, s.split(',').map(|x| x.trim().parse::<i32>().map(|v| v as u32).map_err(|e| format!("{x}: {e}"))).collect::<Result<_, _>>()?))
        }
    }
}

/// Parses what fpcalc printed, strictly.
pub fn parse(out: &str, format: Format, form: Form) -> Result<Vec<Entry>, String> {
    let number = |s: &str| s.parse::<f64>().ok().filter(|v| v.is_finite()).ok_or_else(|| format!("not a number: {s}"));
    let mut entries = Vec::new();
    match format {
        Format::Plain => {
            for line in out.lines() {
                let (id, fp) = items(line, form)?;
                entries.push(Entry { timestamp: None, duration: None, fp, id });
            }
        }
        Format::Json => {
            for line in out.lines() {
                let v: serde_json::Value = serde_json::from_str(line).map_err(|e| format!("{e}: {line:.200}"))?;
                let num = |k: &str| -> Result<Option<f64>, String> {
                    match v.get(k) {
                        None => Ok(None),
                        Some(x) => x.as_f64().map(Some).ok_or_else(|| format!("{k} is not a number")),
                    }
                };
                let f = v.get("fingerprint").ok_or("no fingerprint")?;
                let (id, fp) = match (form, f) {
                    (Form::Compressed, serde_json::Value::String(s)) => items(s, form)?,
                    (Form::Raw, serde_json::Value::Array(a)) => {
                        (None, a.iter().map(|x| x.as_u64().and_then(|x| u32::try_from(x).ok()).ok_or("not a u32".to_string())).collect::<Result<_, _>>()?)
                    }
                    (Form::Signed, serde_json::Value::Array(a)) => (
                        None,
                        a.iter()
                            .map(|x| x.as_i64().and_then(|x| i32::try_from(x).ok()).map(|x| x as u32).ok_or("not an i32".to_string()))
                            .collect::<Result<_, _>>()?,
                    ),
                    _ => return Err(format!("unexpected fingerprint {f:.80}")),
                };
                entries.push(Entry { timestamp: num("timestamp")?, duration: num("duration")?, fp, id });
            }
        }
        Format::Text | Format::Default => {
            if out.is_empty() {
                return Ok(entries);
            }
            let body = out.strip_suffix('\n').ok_or("no newline at the end")?;
            for block in body.split("\n\n") {
                let mut e = Entry { timestamp: None, duration: None, fp: vec![], id: None };
                let mut seen = false;
                for line in block.split('\n') {
                    let (k, v) = line.split_once('=').ok_or_else(|| format!("unexpected line {line:.80}"))?;
                    match k {
                        "TIMESTAMP" => e.timestamp = Some(number(v)?),
                        "DURATION" => e.duration = Some(number(v)?),
                        "FINGERPRINT" => {
                            (e.id, e.fp) = items(v, form)?;
                            seen = true;
                        }
                        _ => return Err(format!("unexpected line {line:.80}")),
                    }
                }
                if !seen {
                    return Err("a result without a fingerprint".into());
                }
                entries.push(e);
            }
        }
    }
    Ok(entries)
}

pub fn form_args(format: Format, form: Form) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    match form {
        Form::Compressed => {}
        Form::Raw => v.push("-R".into()),
        Form::Signed => v.extend(["-R".into(), "-s".into()]),
    }
    match format {
        Format::Default => {}
        Format::Text => v.extend(["-F".into(), "text".into()]),
        Format::Json => v.extend(["-F".into(), "json".into()]),
        Format::Plain => v.extend(["-F".into(), "plain".into()]),
    }
    v
}
