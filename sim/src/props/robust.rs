//! C05 (no crash, no hang) and C16 (no hidden state).

use super::{ORDER, STUBS};
use crate::chan;
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier, Viol};
use crate::gen::*;
use crate::ops::{self, Req, OPS};
use crate::rng::{hash_bytes, Rng};
use crate::util::{spaced, upper, Hex};
use crate::{sched, world};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

// ------------------------------------------------------------------- C05

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RobustSc {
    pub traffic: Traffic,
    /// Record bytes as no meter would send them.
    pub crafted: Vec<Hex>,
    pub texts: Vec<String>,
    pub keyed: bool,
    pub width: u16,
    pub enrich: bool,
}

/// DIF/VIF chains with extreme codes and lengths, cut off anywhere.
fn craft(r: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..r.range(1, 4) {
        let mut dif = if r.chance(1, 3) {
            r.u8()
        } else {
            *r.pick(&[
                0x0D, 0x8D, 0x04, 0x84, 0x02, 0x06, 0x0F, 0x1F, 0x2F, 0x7F, 0x8F, 0xFF, 0x0E, 0x05,
            ])
        };
        let n = *r.pick(&[0usize, 0, 0, 1, 2, 9, 10, 11, 12]);
        if n > 0 {
            dif |= 0x80;
        }
        b.push(dif);
        for k in 0..n {
            b.push(r.u8() | 0x80);
            if k + 1 == n && r.chance(7, 8) {
                let l = b.len();
                b[l - 1] &= 0x7F;
            }
        }
        let mut vif = if r.chance(1, 2) {
            r.u8()
        } else {
            *r.pick(&[
                0x7C, 0xFC, 0xFD, 0xFB, 0x7F, 0xFF, 0x6C, 0x6D, 0x7E, 0xFE, 0x78, 0xEF,
            ])
        };
        let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 9, 10, 11, 14]);
        if n > 0 {
            vif |= 0x80;
        }
        b.push(vif);
        for k in 0..n {
            b.push(r.u8() | 0x80);
            if k + 1 == n && r.chance(7, 8) {
                let l = b.len();
                b[l - 1] &= 0x7F;
            }
        }
        if vif & 0x7F == 0x7C && r.chance(3, 4) {
            let n = *r.pick(&[0u8, 1, 3, 8, 9, 10, 200, 255]);
            b.push(n);
            let k = r.below(usize::from(n).min(12) + 1);
            b.extend(r.bytes(k));
        }
        if dif & 0x0F == 0x0D && r.chance(3, 4) {
            b.push(match r.below(3) {
                0 => r.u8(),
                1 => *r.pick(&[
                    0, 1, 0xBF, 0xC0, 0xC9, 0xCA, 0xD0, 0xD9, 0xDA, 0xE0, 0xEF, 0xF0, 0xF4, 0xF5,
                    0xF6, 0xF7, 0xFA, 0xFB, 0xFF,
                ]),
                _ => r.below(20) as u8,
            });
        }
        let n = r.below(12);
        b.extend(match r.below(3) {
            0 => vec![0xFF; n],
            1 => vec![0x80; n],
            _ => r.bytes(n),
        });
    }
    if r.chance(1, 3) {
        let n = r.below(b.len() + 1);
        b.truncate(n);
    }
    b.truncate(200);
    b
}

fn text(r: &mut Rng) -> String {
    match r.below(4) {
        0 => {
            let n = r.below(40);
            (0..n)
                .map(|_| char::from_u32(r.range(1, 0x2FFF) as u32).unwrap_or('\u{fffd}'))
                .collect()
        }
        1 => {
            let b = r.bytes(9);
            String::from_utf8_lossy(&b).into_owned()
        }
        2 => {
            let n = r.range(200, 1200);
            upper(&r.bytes(n))
        }
        _ => (*r.pick(&[
            "", " ", "0", "6", "zz", "0x", "68\u{e9}", "\u{0}", "--", "e5", "0xE5",
        ]))
        .to_string(),
    }
}

/// A sound wired frame around any payload.
fn framed(pay: &[u8]) -> Vec<u8> {
    let l = (pay.len() + 2) as u8;
    let mut b = vec![0x68, l, l, 0x68, 0x08, 5];
    b.extend(pay);
    b.push(b[4..].iter().fold(0, |a, x| a.wrapping_add(*x)));
    b.push(0x16);
    b
}

impl RobustSc {
    fn req(&self, bytes: &[u8], k: usize) -> Req {
        Req {
            text: match self.texts.get(k) {
                Some(t) if k % 3 == 2 => t.clone(),
                _ if k % 2 == 1 => spaced(bytes),
                _ => upper(bytes),
            },
            bytes: bytes.to_vec(),
            key: self.keyed.then(|| {
                self.traffic
                    .sends
                    .get(k)
                    .and_then(|s| s.tg.sec.as_ref())
                    .map_or([3; 16], |s| s.key16())
            }),
            width: usize::from(self.width),
            enrich: self.enrich,
        }
    }
}

pub struct C05;

impl C05 {
    fn survive(&self, q: &Req, which: &[&str], cx: &mut Cx) -> Res {
        let mut h = 0u64;
        for (name, op) in OPS {
            if !which.is_empty() && !which.contains(name) {
                continue;
            }
            let out = cx.call(name, || op(q))?;
            if ops::endless() > 0 {
                return viol(
                    "endless-iteration",
                    format!("{name}: more steps than bytes over {}", spaced(&q.bytes)),
                );
            }
            cx.evals += 1;
            h = h.wrapping_mul(31).wrapping_add(hash_bytes(out.as_bytes()));
        }
        cx.event(|| format!("{h:x}"));
        Ok(())
    }
}

const RECORD_LEVEL: &[&str] = &["data records", "record headers", "decode_data_records"];

impl Prop for C05 {
    type Sc = RobustSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C05",
            level: "exploration",
            rule: "damaged traffic, resealed damage, crafted record chains and texts through every public operation; the first 8192 runs sweep every DIF with every VIF over all short remaining lengths; distinct = (first bytes, length, decode outcome)",
            quick: 14_000,
            thorough: 1_000_000,
            components: &["all of m-bus-parser and its layer crates (every public operation)", "aes/cbc crates"],
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, i: u64) -> RobustSc {
        let n = r.range(1, 3) as usize;
        let mut traffic = gen_mixed(r, Medium::Both, chan::ALL, n);
        for s in &mut traffic.sends {
            // Much of the damage is made valid again below the record layer.
            match r.below(3) {
                0 => s.faults.push(chan::Fault::Refit),
                1 => s.faults.push(chan::Fault::Recrc),
                _ => {}
            }
        }
        let mut crafted: Vec<Hex> = (0..r.range(1, 3)).map(|_| Hex(craft(r))).collect();
        if i < 8192 {
            let dif = (i / 32) as u8;
            for v in 0..8u8 {
                let vif = (i % 32) as u8 * 8 + v;
                let mut b = vec![dif];
                if dif & 0x80 != 0 {
                    b.push(r.u8() & 0x7F);
                }
                b.push(vif);
                if vif & 0x80 != 0 {
                    b.push(r.u8() & 0x7F);
                }
                b.extend(r.bytes(10));
                crafted.push(Hex(b));
            }
        }
        RobustSc {
            traffic,
            crafted,
            texts: (0..3).map(|_| text(r)).collect(),
            keyed: r.bool(),
            width: match r.below(4) {
                0 => 0,
                1 => r.below(40) as u16,
                2 => r.range(32, 200) as u16,
                _ => *r.pick(&[1, 31, 32, 33, 72, 100, 1000, 65535]),
            },
            enrich: r.bool(),
        }
    }
    fn exec(&self, sc: &RobustSc, cx: &mut Cx) -> Res {
        let wires: Vec<_> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        for (k, d) in sc.traffic.run(&wires, cx).iter().enumerate() {
            cx.note(|| format!("t={} us: {}", d.at, spaced(&d.bytes)));
            let q = sc.req(&d.bytes, k);
            self.survive(&q, &[], cx)?;
            // What stands where the records were.
            let link = if d.bytes.first() == Some(&0x68) {
                6
            } else {
                10
            };
            let rest = d.bytes.get(wires[d.src].start + link..).unwrap_or(&[]);
            self.survive(&sc.req(rest, k), RECORD_LEVEL, cx)?;
            cx.sig(&format!(
                "{:?} {} {:?}",
                &d.bytes.get(..1),
                d.bytes.len(),
                m_bus_parser::decode_bytes(&d.bytes, &Default::default())
                    .map(|d| d.records.len())
                    .map_err(|e| e.code())
            ));
        }
        for (k, c) in sc.crafted.iter().enumerate() {
            cx.note(|| format!("crafted: {}", spaced(&c.0)));
            cx.fault("crafted_records");
            if c.0.len() >= 12 && c.0.len() <= 14 && k >= 2 {
                // Every remaining length of a header.
                for n in 0..=c.0.len() {
                    self.survive(&sc.req(&c.0[..n], k), RECORD_LEVEL, cx)?;
                }
            } else {
                self.survive(&sc.req(&c.0, k), RECORD_LEVEL, cx)?;
            }
            if k < 4 {
                let long = [&[0x72, 1, 2, 3, 4, 0x2D, 0x2C, 1, 7, 9, 0, 0, 0][..], &c.0].concat();
                let ci = [0x78, 0x7A, 0x72, 0x76][k];
                let pay = match ci {
                    0x78 => [&[0x78][..], &c.0].concat(),
                    0x7A => [&[0x7A, 1, 0, 0, 0][..], &c.0].concat(),
                    ci => {
                        let mut l = long;
                        l[0] = ci;
                        l
                    }
                };
                self.survive(&sc.req(&framed(&pay), k), &[], cx)?;
                let mut radio = vec![0, 0x44, 0x2D, 0x2C, 1, 2, 3, 4, 1, 7];
                radio.extend(&pay);
                radio[0] = (radio.len() - 1) as u8;
                self.survive(&sc.req(&radio, k), &[], cx)?;
            }
        }
        for t in &sc.texts {
            let q = Req {
                bytes: t.as_bytes().to_vec(),
                text: t.clone(),
                key: None,
                width: usize::from(sc.width),
                enrich: sc.enrich,
            };
            cx.fault("garbage_text");
            self.survive(&q, &[], cx)?;
        }
        cx.sample(json!({"crafted": sc.crafted.len(), "telegrams": wires.len()}));
        Ok(())
    }
}

// ------------------------------------------------------------------- C16

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Ask {
    pub tg: u8,
    pub op: u8,
    pub key: u8,
    pub width: u16,
    pub enrich: bool,
    /// Not zero: a telegram that differs from the delivered one in two
    /// neighbouring bytes, with the same checksum.
    #[serde(default)]
    pub twin: u16,
}

/// Another telegram of the same length, with the same wired checksum.
fn twin(bytes: &[u8], t: u16) -> Vec<u8> {
    let mut b = bytes.to_vec();
    if t != 0 && b.len() > 20 {
        let from = b.len() / 2;
        let at = from + usize::from(t >> 4) % (b.len() - from - 4);
        let d = (t as u8 & 15) + 1;
        b[at] = b[at].wrapping_add(d);
        b[at + 1] = b[at + 1].wrapping_sub(d);
    }
    b
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Job {
    pub thread: u8,
    pub ask: u8,
    /// Simulated date (seconds since 1970) and process environment.
    pub epoch: i64,
    pub env: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HistorySc {
    pub traffic: Traffic,
    pub asks: Vec<Ask>,
    pub threads: u8,
    pub jobs: Vec<Job>,
    /// Who gets the processor, and for how many scheduling points.
    pub slices: Vec<(u8, u16)>,
}

/// Run `f` in a new process made from this one, which has never called the
/// parser. The answer is whatever `f` returns.
fn apart(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut fds = [0i32; 2];
    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        return Err("pipe".into());
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Err("fork".into());
    }
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::alarm(20);
        }
        let out = f();
        let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let ok = w.write_all(&out).is_ok() && w.write_all(b"END").is_ok();
        drop(w);
        unsafe { libc::_exit(i32::from(!ok)) };
    }
    unsafe { libc::close(fds[1]) };
    let mut r = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut buf = Vec::new();
    let _ = r.read_to_end(&mut buf);
    let mut status = 0;
    while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
    if status != 0 || !buf.ends_with(b"END") {
        return Err(format!("process ended with status {status:#x}"));
    }
    buf.truncate(buf.len() - 3);
    Ok(buf)
}

fn answer(q: &Req, op: usize) -> String {
    let before = q.clone();
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| OPS[op].1(q)))
        .unwrap_or_else(|_| "panic".into());
    if before.bytes != q.bytes || before.text != q.text || before.key != q.key {
        return format!("INPUT CHANGED\n{out}");
    }
    out
}

const T0: i64 = 1_700_000_000;

pub struct C16;

impl Prop for C16 {
    type Sc = HistorySc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C16",
            level: "exploration",
            rule: "requests on 1-4 threads that lose the processor at allocations and between record steps, under changing dates and process environments, each answer compared with the same request alone in a new process; distinct = (operation, options, previous operation on any thread, outcome class)",
            quick: 50_000,
            thorough: 2_000_000,
            components: &["all of m-bus-parser and its layer crates (every public operation), on real threads and processes"],
            stubs: &["meters (encoder model)", "channel with fault injector", "thread scheduler (cooperative)", "wall clock and environment variables"],
            measure: "distinct interleavings (hash of the sequence of processor changes between threads, with the job lists)",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> HistorySc {
        let n = r.range(1, 3) as usize;
        let mut traffic = gen_mixed(r, Medium::Both, chan::ALL, n);
        for s in &mut traffic.sends {
            if r.chance(1, 2) {
                s.faults.clear();
            }
            if r.chance(1, 4) {
                s.faults.push(chan::Fault::Refit);
            }
        }
        let m = r.range(2, 5) as usize;
        let mut asks: Vec<Ask> = Vec::new();
        for k in 0..m {
            let mut a = Ask {
                tg: r.below(n) as u8,
                op: r.below(OPS.len()) as u8,
                key: *r.pick(&[0, 1, 1, 2]),
                width: *r.pick(&[0, 32, 60, 80, 100, 100, 100, 200]),
                enrich: r.bool(),
                twin: 0,
            };
            if k > 0 && r.chance(2, 3) {
                // Nearly the same request again: one thing differs.
                let old = asks[r.below(k)].clone();
                let new = a.clone();
                a = old;
                match r.below(7) {
                    // Another reading of the same meter, as like as can be.
                    5 | 6 => a.twin = r.range(1, 0xFFFF) as u16,
                    0 => a.tg = new.tg,
                    1 => a.op = new.op,
                    2 => a.key = new.key,
                    3 => a.width = new.width,
                    _ => a.enrich = new.enrich,
                }
            }
            asks.push(a);
        }
        let threads = r.range(1, 4) as u8;
        // Now and then a process that has been up for long.
        let jobs = if r.chance(1, 60) {
            r.range(60, 400)
        } else {
            r.range(2, 9)
        };
        let jobs = (0..jobs)
            .map(|_| Job {
                thread: r.below(usize::from(threads)) as u8,
                ask: r.below(m) as u8,
                epoch: *r.pick(&[
                    T0,
                    T0,
                    0,
                    951_782_400,
                    1_830_297_599,
                    4_102_444_800,
                    5_000_000_000,
                ]),
                env: *r.pick(&[0, 0, 1, 2, 3, 4, 5, 6]),
            })
            .collect();
        let big = *r.pick(&[2usize, 20, 200, 2000]);
        let slices = (0..r.below(40))
            .map(|_| (r.below(usize::from(threads)) as u8, r.below(big) as u16))
            .collect();
        HistorySc {
            traffic,
            asks,
            threads,
            jobs,
            slices,
        }
    }
    fn exec(&self, sc: &HistorySc, cx: &mut Cx) -> Res {
        let wires: Vec<_> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        let got = sc.traffic.run(&wires, cx);
        cx.orders.clear();
        if got.is_empty() || sc.asks.is_empty() {
            return Ok(());
        }
        let reqs: Vec<(Req, usize)> = sc
            .asks
            .iter()
            .map(|a| {
                let d = &got[usize::from(a.tg) % got.len()];
                let sec = sc.traffic.sends[d.src].tg.sec.as_ref();
                let bytes = twin(&d.bytes, a.twin);
                if a.twin != 0 {
                    cx.probe("twin_telegram");
                }
                let q = Req {
                    text: if a.enrich {
                        spaced(&bytes)
                    } else {
                        upper(&bytes)
                    },
                    bytes,
                    key: match a.key {
                        0 => None,
                        1 => Some(sec.map_or([3; 16], |s| s.key16())),
                        _ => Some([0xB7; 16]),
                    },
                    width: usize::from(a.width),
                    enrich: a.enrich,
                };
                (q, usize::from(a.op) % OPS.len())
            })
            .collect();
        let broken = |what: &str, e: String| -> Viol {
            Viol {
                class: "process-lost".into(),
                msg: format!("{what}: {e}"),
            }
        };
        // Each request alone, in a process of its own.
        let mut alone = Vec::new();
        for (q, op) in &reqs {
            let r = apart(|| {
                world::enter(Some(world::World { epoch: T0, env: 0 }));
                answer(q, *op).into_bytes()
            })
            .map_err(|e| broken(OPS[*op].0, e))?;
            cx.event(|| format!("{} {:x}", OPS[*op].0, hash_bytes(&r)));
            alone.push(String::from_utf8_lossy(&r).into_owned());
        }
        // All of them under the schedule, in one process.
        let threads = usize::from(sc.threads.max(1));
        let order: Vec<Vec<usize>> = (0..threads)
            .map(|t| {
                (0..sc.jobs.len())
                    .filter(|j| usize::from(sc.jobs[*j].thread) % threads == t)
                    .collect()
            })
            .collect();
        let out = apart(|| {
            let jobs = order
                .iter()
                .map(|list| {
                    list.iter()
                        .map(|&j| {
                            let job = &sc.jobs[j];
                            let (q, op) = &reqs[usize::from(job.ask) % reqs.len()];
                            let w = world::World {
                                epoch: job.epoch,
                                env: job.env,
                            };
                            Box::new(move || {
                                world::enter(Some(w));
                                let a = answer(q, *op);
                                world::enter(None);
                                a
                            })
                                as Box<dyn FnOnce() -> String + std::marker::Send>
                        })
                        .collect()
                })
                .collect();
            let (answers, switches) = sched::run(jobs, &sc.slices);
            serde_json::to_vec(&(answers, switches)).unwrap_or_default()
        })
        .map_err(|e| broken("schedule", e))?;
        let (answers, switches): (Vec<Vec<String>>, Vec<u8>) =
            serde_json::from_slice(&out).map_err(|e| broken("schedule", e.to_string()))?;
        cx.note(|| format!("processor given to threads {switches:?}"));
        for _ in &switches {
            cx.fault("thread_switch");
        }
        for j in &sc.jobs {
            if j.epoch != T0 {
                cx.fault("clock_jump");
            }
            if j.env != 0 {
                cx.fault("environment_change");
            }
        }
        cx.fault("restart");
        cx.orders
            .insert(hash_bytes(format!("{order:?} {switches:?}").as_bytes()));
        for (t, list) in order.iter().enumerate() {
            for (k, &j) in list.iter().enumerate() {
                let ask = usize::from(sc.jobs[j].ask) % reqs.len();
                let name = OPS[reqs[ask].1].0;
                cx.evals += 1;
                let a = answers.get(t).and_then(|l| l.get(k));
                if a.is_some_and(|a| a.starts_with("INPUT CHANGED")) {
                    return viol("input-modified", format!("{name} changed its input"));
                }
                if a != Some(&alone[ask]) {
                    let empty = String::new();
                    let (x, y) = (a.unwrap_or(&empty), &alone[ask]);
                    let at = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count();
                    let cut = |s: &str| -> String {
                        String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(20).min(s.len())..])
                            .chars()
                            .take(80)
                            .collect()
                    };
                    return viol(
                        "depends-on-history",
                        format!(
                            "job {j} ({name}) on thread {t}: differs at byte {at} from the same request in a new process: {:?} instead of {:?}",
                            cut(x),
                            cut(y)
                        ),
                    );
                }
                let prev = k.checked_sub(1).map(|p| sc.jobs[list[p]].ask);
                cx.sig(&format!(
                    "{name} {} {:?} {}",
                    sc.asks[ask].key,
                    prev.map(|p| reqs[usize::from(p) % reqs.len()].1),
                    alone[ask].starts_with("error") || alone[ask].starts_with("Error"),
                ));
            }
        }
        cx.sample(json!({"jobs": sc.jobs.len(), "threads": threads, "switches": switches.len()}));
        Ok(())
    }
}
