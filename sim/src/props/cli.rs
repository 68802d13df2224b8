//! C21: the command line tool over an operating system that misbehaves.

use crate::chan;
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier, Viol};
use crate::gen::*;
use crate::rng::Rng;
use crate::util::{compact, spaced, upper, Hex};
use m_bus_parser as mbp;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Input {
    File(Hex),
    Data(String),
    Missing,
    Directory,
    Neither,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Out {
    Pipe,
    /// The real full device.
    Full,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct OsFault {
    /// o open, r read, w standard output, x standard error.
    pub class: String,
    pub call: u8,
    /// errno to fail with; 0: short transfer of `count` bytes (0: none).
    pub errno: i32,
    pub count: u16,
}

impl OsFault {
    fn benign(&self) -> bool {
        self.errno == libc::EINTR || self.errno == 0 && (self.count > 0 || self.class == "r")
    }
    fn spec(&self) -> String {
        let act = match (self.errno, self.count) {
            (0, 0) if self.class != "r" => "z".into(),
            (0, n) => format!("s{n}"),
            (e, _) => format!("e{e}"),
        };
        format!("{}{}={act}", self.class, self.call)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Run {
    pub input: Input,
    pub format: Option<String>,
    pub key: Option<String>,
    pub width: Option<String>,
    pub no_enrichment: bool,
    pub out: Out,
    /// Settings in the environment that are none of the tool's business.
    #[serde(default)]
    pub env: Vec<(String, String)>,
    pub faults: Vec<OsFault>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CliSc {
    pub runs: Vec<Run>,
}

const FORMATS: &[&str] = &[
    "table",
    "table_format",
    "json",
    "yaml",
    "yml",
    "csv",
    "mermaid",
    "xml",
    "annotated",
    "hexview",
    "annotated-text",
    "bogus",
    "",
];

fn gen_faults(r: &mut Rng) -> Vec<OsFault> {
    let mut v = Vec::new();
    // Which kinds of misbehaviour this run has at all.
    let short_r = r.chance(1, 3);
    let short_w = r.chance(1, 3);
    let intr = r.chance(1, 2);
    let hard = r.chance(1, 3);
    for call in 0..r.below(12) as u8 {
        for class in ["r", "w", "x"] {
            if intr && r.chance(1, 3) {
                v.push(OsFault {
                    class: class.into(),
                    call,
                    errno: libc::EINTR,
                    count: 0,
                });
            } else if (class == "r" && short_r || class == "w" && short_w) && r.chance(1, 2) {
                v.push(OsFault {
                    class: class.into(),
                    call,
                    errno: 0,
                    count: r.range(1, 40) as u16,
                });
            }
        }
    }
    if intr && r.chance(1, 3) {
        v.push(OsFault {
            class: "o".into(),
            call: 0,
            errno: libc::EINTR,
            count: 0,
        });
    }
    if hard {
        let class = *r.pick(&["o", "r", "r", "w", "w", "w"]);
        let call = if class == "o" { 0 } else { r.below(6) as u8 };
        v.retain(|f| f.class != class || f.call != call);
        let errno = match class {
            "o" => *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT]),
            "r" => *r.pick(&[libc::EIO, libc::EAGAIN, libc::ESTALE]),
            _ => *r.pick(&[
                libc::EPIPE,
                libc::ENOSPC,
                libc::EIO,
                libc::EAGAIN,
                libc::EFBIG,
                0,
            ]),
        };
        v.push(OsFault {
            class: class.into(),
            call,
            errno,
            count: 0,
        });
        // A full disk stays full, a closed pipe stays closed.
        if class == "w" && r.bool() {
            for c in call + 1..call + 8 {
                v.retain(|f| f.class != "w" || f.call != c);
                v.push(OsFault {
                    class: "w".into(),
                    call: c,
                    errno,
                    count: 0,
                });
            }
        }
    }
    if r.chance(1, 6) {
        // Standard error may be on the same full disk.
        let errno = *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]);
        v.retain(|f| f.class != "x");
        for call in 0..8 {
            v.push(OsFault {
                class: "x".into(),
                call,
                errno,
                count: 0,
            });
        }
    }
    v
}

struct Outcome {
    status: std::process::ExitStatus,
    out: Vec<u8>,
    err: Vec<u8>,
    log: String,
}

fn tool_dir() -> PathBuf {
    let mut p = std::env::current_exe().unwrap_or_default();
    p.pop();
    p
}

/// A directory for one run, removed afterwards.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> std::io::Result<Scratch> {
        let p = std::env::temp_dir().join(format!("mbus-sim-{}", std::process::id()));
        std::fs::create_dir_all(&p)?;
        Ok(Scratch(p))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

impl Run {
    fn args(&self) -> Vec<String> {
        let mut a = vec!["parse".to_string()];
        match &self.input {
            Input::File(_) | Input::Missing => a.push("--file=in.hex".into()),
            Input::Directory => a.push("--file=dir".into()),
            Input::Data(d) => a.push(format!("--data={d}")),
            Input::Neither => {}
        }
        if let Some(f) = &self.format {
            a.push(format!("--format={f}"));
        }
        if let Some(k) = &self.key {
            a.push(format!("--key={k}"));
        }
        if let Some(w) = &self.width {
            a.push(format!("--width={w}"));
        }
        if self.no_enrichment {
            a.push("--no-enrichment".into());
        }
        a
    }

    /// What the library makes of this request; None if it must be refused.
    fn expected(&self) -> Option<String> {
        let text = match &self.input {
            Input::File(b) => String::from_utf8(b.0.clone()).ok()?,
            Input::Data(d) => d.clone(),
            _ => return None,
        };
        let format: mbp::OutputFormat = self.format.as_deref().unwrap_or("table").parse().ok()?;
        let key = match &self.key {
            None => None,
            Some(k) if k.len() == 32 && k.bytes().all(|c| c.is_ascii_hexdigit()) => {
                Some(<[u8; 16]>::try_from(crate::util::unhex(k)?).ok()?)
            }
            Some(_) => return None,
        };
        let width = match &self.width {
            None => 100,
            Some(w) => w.parse::<usize>().ok()?,
        };
        mbp::render_hex(
            &text,
            format,
            &mbp::RenderOptions {
                decode: mbp::DecodeOptions {
                    key,
                    include_enrichment: !self.no_enrichment,
                },
                table_width: Some(width),
            },
        )
        .ok()
    }

    fn go(&self) -> std::io::Result<Outcome> {
        let dir = Scratch::new()?;
        if let Input::File(b) = &self.input {
            std::fs::write(dir.0.join("in.hex"), &b.0)?;
        }
        if self.input == Input::Directory {
            std::fs::create_dir_all(dir.0.join("dir"))?;
        }
        let mut fds = [0i32; 2];
        if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            return Err(std::io::Error::last_os_error());
        }
        let (mut log, end) = unsafe {
            (
                std::fs::File::from_raw_fd(fds[0]),
                std::fs::File::from_raw_fd(fds[1]),
            )
        };
        let raw = end.as_raw_fd();
        let plan: Vec<String> = self.faults.iter().map(OsFault::spec).collect();
        let tools = tool_dir();
        let mut c = Command::new(tools.join("cli-under-test"));
        c.args(self.args())
            .current_dir(&dir.0)
            .env_clear()
            .envs(self.env.iter().cloned())
            .env("LD_PRELOAD", tools.join("libvsim.so"))
            .env("VSIM_FILE", "in.hex")
            .env("VSIM_PLAN", plan.join(","))
            .stdin(Stdio::null())
            .stderr(Stdio::piped());
        match self.out {
            Out::Pipe => c.stdout(Stdio::piped()),
            Out::Full => c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full")?),
        };
        unsafe {
            c.pre_exec(move || {
                libc::alarm(20);
                if libc::dup2(raw, 9) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = c.spawn()?;
        drop(end);
        let o = child.wait_with_output()?;
        let mut text = String::new();
        log.read_to_string(&mut text)?;
        Ok(Outcome {
            status: o.status,
            out: o.stdout,
            err: o.stderr,
            log: text,
        })
    }
}

pub struct C21;

impl Prop for C21 {
    type Sc = CliSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C21",
            level: "exploration",
            rule: "invocations of the real command line binary over a preloaded operating system stub that interrupts, shortens and fails opens, reads and writes; output compared with the library's rendering; distinct = (format, input kind, applied fault sequence, exit status)",
            quick: 80_000,
            thorough: 2_000_000,
            components: &["mbus command line tool (cli/src/main.rs, real process)", "m-bus-parser", "Rust standard library I/O"],
            stubs: &["open/read/write system calls of the tool (fault injector)", "meters (encoder model)"],
            measure: "distinct sequences of applied system call faults",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> CliSc {
        let mut t = gen_mixed(r, Medium::Both, chan::DAMAGE, 1);
        if r.chance(4, 5) {
            t.sends[0].faults.clear();
        }
        let mut b = t.sends[0].tg.encode().bytes;
        for f in &t.sends[0].faults {
            f.apply(&mut b, &[]);
        }
        let mut text = match r.below(4) {
            0 => upper(&b),
            1 => compact(&b),
            2 => spaced(&b).to_lowercase(),
            _ => spaced(&b),
        };
        if r.chance(1, 12) {
            text = text.replace(' ', *r.pick(&[":", "-", "  ", "\n"]));
        }
        if r.bool() {
            text.push('\n');
        }
        let mut file = text.clone().into_bytes();
        match r.below(20) {
            0 => file.push(0xFF),
            1 => file.clear(),
            2 => {
                let n = r.below(file.len() + 1);
                file.truncate(n);
            }
            3 => file.splice(0..0, [0xEF, 0xBB, 0xBF]).for_each(drop),
            4 | 5 => {
                // More than fits any buffer, most of it blank.
                let n = r.range(500, 20_000);
                let blank = vec![*r.pick(b" \n\t"); n];
                if r.bool() {
                    file.splice(0..0, blank).for_each(drop);
                } else {
                    file.extend(blank);
                    if r.chance(1, 3) {
                        file.extend_from_slice(*r.pick(&[&b"0"[..], b"FF", b"q"]));
                    }
                }
            }
            _ => {}
        }
        let input = match r.below(20) {
            0 => Input::Missing,
            1 => Input::Directory,
            2 => Input::Neither,
            3..=6 => Input::Data(text),
            _ => Input::File(Hex(file)),
        };
        let sec = t.sends[0].tg.sec.as_ref();
        CliSc {
            runs: vec![Run {
                input,
                format: r.chance(7, 8).then(|| {
                    let n = if r.chance(7, 8) {
                        FORMATS.len() - 2
                    } else {
                        FORMATS.len()
                    };
                    FORMATS[r.below(n)].to_string()
                }),
                key: match r.below(6) {
                    0..=2 => None,
                    3 | 4 => Some(match sec {
                        Some(s) => upper(&s.key16()),
                        None => compact(&r.bytes(16)),
                    }),
                    _ => Some(match r.below(4) {
                        0 => compact(&r.bytes(15)),
                        1 => compact(&r.bytes(17)),
                        2 => format!("{}zz", compact(&r.bytes(15))),
                        _ => String::new(),
                    }),
                },
                width: match r.below(6) {
                    0 => Some(r.below(40).to_string()),
                    1 | 2 => Some(r.range(32, 200).to_string()),
                    3 if r.chance(1, 4) => Some((*r.pick(&["abc", "-5", "1e3", ""])).to_string()),
                    _ => None,
                },
                no_enrichment: r.chance(1, 4),
                out: if r.chance(1, 25) {
                    Out::Full
                } else {
                    Out::Pipe
                },
                env: [
                    ("COLUMNS", &["40", "72", "200", "x"][..]),
                    ("LINES", &["1", "24"]),
                    ("TERM", &["dumb", "xterm-256color"]),
                    ("NO_COLOR", &["1", ""]),
                    ("CLICOLOR_FORCE", &["1"]),
                    ("LANG", &["C", "de_DE.UTF-8"]),
                    ("TZ", &["Pacific/Auckland", "UTC"]),
                    ("HOME", &["."]),
                    ("RUST_BACKTRACE", &["1"]),
                    ("RUST_LOG", &["trace"]),
                    ("DEBUG", &["1"]),
                ]
                .iter()
                .filter_map(|(k, v)| {
                    r.chance(1, 12)
                        .then(|| (k.to_string(), r.pick(v).to_string()))
                })
                .collect(),
                faults: if r.chance(1, 8) {
                    vec![]
                } else {
                    gen_faults(r)
                },
            }],
        }
    }
    fn exec(&self, sc: &CliSc, cx: &mut Cx) -> Res {
        for run in &sc.runs {
            let want = cx.call("render_hex", || run.expected())?;
            let o = run.go().map_err(|e| Viol {
                class: "harness".into(),
                msg: format!("the tool could not be run: {e}"),
            })?;
            cx.evals += 1;
            for (k, _) in &run.env {
                cx.fault(&format!("environment: {k} set"));
            }
            // Faults that really met a call.
            let mut met: Vec<&OsFault> = Vec::new();
            for l in o.log.lines() {
                let key = l.split(' ').next().unwrap_or("");
                met.extend(
                    run.faults
                        .iter()
                        .find(|f| format!("{}{}", f.class, f.call) == key),
                );
            }
            for f in &met {
                let what = match (f.errno, f.count) {
                    (0, 0) => "nothing taken",
                    (0, _) => "short transfer",
                    (libc::EINTR, _) => "interrupted",
                    (libc::EPIPE, _) => "closed pipe",
                    (libc::ENOSPC | libc::EFBIG, _) => "no space",
                    (libc::EAGAIN, _) => "would block",
                    _ => "I/O error",
                };
                cx.fault(&format!(
                    "{} {what}",
                    match f.class.as_str() {
                        "o" => "open:",
                        "r" => "read:",
                        "w" => "stdout:",
                        _ => "stderr:",
                    }
                ));
            }
            let mut hard = met.iter().any(|f| !f.benign() && f.class != "x");
            let mute = met.iter().any(|f| !f.benign() && f.class == "x");
            if run.out == Out::Full && want.is_some() {
                hard = true;
                cx.fault("stdout: full device");
            }
            let code = o.status.code();
            let err = String::from_utf8_lossy(&o.err).into_owned();
            let applied: Vec<String> = met.iter().map(|f| f.spec()).collect();
            cx.orders
                .insert(crate::rng::hash_bytes(applied.join(",").as_bytes()));
            cx.event(|| {
                format!(
                    "{:?} faults {applied:?}: status {code:?}, {} bytes, stderr {:?}",
                    run.args(),
                    o.out.len(),
                    err.lines().next()
                )
            });
            let tell = format!("{:?} with faults {applied:?}", run.args());
            if let Some(s) = o.status.signal() {
                return viol(
                    if s == libc::SIGALRM { "hang" } else { "crash" },
                    format!("{tell}: ended by signal {s}"),
                );
            }
            if code == Some(101) || err.contains("panicked at") {
                return viol("crash", format!("{tell}: panicked: {err}"));
            }
            let full = want.clone().unwrap_or_default();
            match (code, &want) {
                (Some(0), None) => {
                    return viol(
                        "invented-success",
                        format!("{tell}: success for a request the library refuses"),
                    )
                }
                (Some(0), Some(_)) if hard => {
                    return viol(
                        "success-after-failure",
                        format!(
                        "{tell}: success although output could not be written or input not read"
                    ),
                    )
                }
                (Some(0), Some(w)) => {
                    if o.out != w.as_bytes() {
                        return viol(
                            "wrong-output",
                            format!(
                                "{tell}: {} bytes written, the library's rendering has {}",
                                o.out.len(),
                                w.len()
                            ),
                        );
                    }
                }
                (_, Some(_)) if !hard => {
                    return viol("spurious-failure", format!("{tell}: failed with {err:?}"))
                }
                _ => {
                    if !full.as_bytes().starts_with(&o.out) {
                        return viol("wrong-output", format!("{tell}: foreign output on failure"));
                    }
                    if err.trim().is_empty() && !mute {
                        return viol(
                            "silent-failure",
                            format!("{tell}: status {code:?} without a message"),
                        );
                    }
                }
            }
            cx.sig(&format!(
                "{:?} {} {applied:?} {code:?}",
                run.format,
                match run.input {
                    Input::File(_) => 'f',
                    Input::Data(_) => 'd',
                    Input::Missing => 'm',
                    Input::Directory => 'r',
                    Input::Neither => 'n',
                }
            ));
            cx.sample(json!({"args": run.args().len(), "applied": applied}));
        }
        Ok(())
    }
}
