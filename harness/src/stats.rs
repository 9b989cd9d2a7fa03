//! The traffic statistics under concurrency and under a clock of our own.
use crate::clock;
use crate::log::{guarded, Log, Rng};
use crate::low::Cfg;
use bip324_traffic::{AtomicTrafficStats, TrafficStats};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

fn limbs(n: u128) -> Value {
    let m = 0xff_ffffu128;
    json!([(n & m) as u64, (n >> 24 & m) as u64, (n >> 48) as u64])
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * b.abs().max(1e-300)
}
fn make(default: bool) -> AtomicTrafficStats {
    if default {
        Default::default()
    } else {
        AtomicTrafficStats::new()
    }
}
fn ratio(log: &mut Log, s: &dyn TrafficStats, r: u128, w: u128) {
    let v = s.write_read_ratio();
    let eq = v.map(|x| close(x, w as f64 / r as f64)).unwrap_or(false);
    log.ev(json!({"op": "ratio", "some": v.is_some(), "eq": eq, "r": limbs(r), "w": limbs(w), "v": v.map(|x| x.to_string()).unwrap_or_default()}));
}

/// One thread, exact clock.
pub fn sequential(log: &mut Log, c: &Cfg) {
    let n = if c.thorough { 4000 } else { 400 };
    for k in 0..n {
        let mut r = Rng::new(c.seed, 9000 + k);
        let default = k % 2 == 1;
        log.case(&["C19"], format!("statistics, one thread ({k}) default={default}"));
        log.ev(json!({"op": "new"}));
        clock::freeze();
        let res = guarded(|| {
            let s = make(default);
            let (mut rd, mut wr) = (0u128, 0u128);
            // age and time since the last record; `quiet` until the clock is set back
            let (mut age, mut idle, mut quiet) = (0u64, 0u64, true);
            let s: &dyn TrafficStats = &s;
            for _ in 0..r.range(1, 14) {
                match r.below(10) {
                    0..=4 => {
                        let bytes = match r.below(8) {
                            0 => 0,
                            1 => 1,
                            2 => r.below(1 << 16),
                            3 => 0xff_ffff,
                            4 => r.below(1 << 40),
                            5 => u32::MAX as usize,
                            _ => r.below(2000),
                        };
                        let read = r.chance(50);
                        if read {
                            s.record_read(bytes);
                            rd += bytes as u128;
                        } else {
                            s.record_write(bytes);
                            wr += bytes as u128;
                        }
                        idle = 0;
                        log.ev(json!({"op": "rec", "kind": if read { "r" } else { "w" }, "n": limbs(bytes as u128)}));
                        if r.chance(60) {
                            ratio(log, s, rd, wr);
                        }
                    }
                    5..=6 => {
                        let d = *r.pick(&[1u64, 7, 999, 1000, 60_000, 86_400_000, 1 << 31, 1 << 32, 1 << 36]);
                        clock::advance_ms(d as i64);
                        age += d;
                        idle += d;
                    }
                    7 if r.chance(30) => {
                        clock::step_back_ms(*r.pick(&[1i64, 50, 100_000, 3_600_000]));
                        quiet = false;
                    }
                    _ => {
                        let ms = s.time_since_last_activity().as_millis() as u64;
                        // long times are told from a later origin, the model counts up to two thousand million
                        let off = if quiet { idle.saturating_sub(1_000_000_000) } else { 0 };
                        let t = |x: u64| x.saturating_sub(off).min(2_000_000_000);
                        log.ev(json!({"op": "since", "ms": t(ms), "age": t(age), "lo": t(idle), "hi": t(idle), "quiet": quiet}));
                    }
                }
            }
            ratio(log, s, rd, wr);
        });
        clock::thaw();
        if res.is_err() {
            log.ev(json!({"op": "panic"}));
        }
    }
}

/// Many threads recording at once, one watching.
pub fn concurrent(log: &mut Log, c: &Cfg) {
    let rounds = if c.thorough { 120 } else { 14 };
    for k in 0..rounds {
        let mut r = Rng::new(c.seed, 9500 + k);
        let threads = r.range(2, 8);
        let per = if k % 2 == 0 { 40_000 } else { 400 };
        // 0: everybody does both, 1: only writes, 2: each thread one kind
        let mode = (k / 2) % 4;
        log.case(&["C19"], format!("statistics, {threads} threads of {per} records, mode {mode} ({k})"));
        log.ev(json!({"op": "new"}));
        let born = clock::real_ms();
        let s = Arc::new(make(k % 3 == 0));
        // per kind: bytes of records begun and returned
        let begun: Arc<[AtomicU64; 2]> = Default::default();
        let done: Arc<[AtomicU64; 2]> = Default::default();
        let stop = Arc::new(AtomicBool::new(false));
        let gate = Arc::new(Barrier::new(threads + 1));
        let mut hs = vec![];
        for t in 0..threads {
            let (s, begun, done, gate) = (s.clone(), begun.clone(), done.clone(), gate.clone());
            let mut r = Rng::new(c.seed, 9600 + k * 16 + t as u64);
            hs.push(std::thread::spawn(move || {
                gate.wait();
                let mut sum = [0u128; 2];
                let ok = guarded(|| {
                    for _ in 0..per {
                        let kind = match mode {
                            0 => r.below(2),
                            1 => 1,
                            2 => t % 2,
                            _ => (r.below(8) > 0) as usize,
                        };
                        let n = match (k % 5, r.below(5)) {
                            (1 | 4, 0) => *r.pick(&[255usize, 256, 4096, 65_535, 65_536, 1 << 20, (1 << 20) + 1, 4_000_000, 1 << 24, 1 << 33]),
                            (3, _) => *r.pick(&[1usize << 20, 1 << 24, 1 << 33]),
                            (_, m) => m * r.below(40),
                        };
                        begun[kind].fetch_add(n as u64, SeqCst);
                        if kind == 0 {
                            s.record_read(n);
                        } else {
                            s.record_write(n);
                        }
                        done[kind].fetch_add(n as u64, SeqCst);
                        sum[kind] += n as u128;
                    }
                })
                .is_ok();
                (sum, ok)
            }));
        }
        let watcher = {
            let (s, begun, done, stop) = (s.clone(), begun.clone(), done.clone(), stop.clone());
            std::thread::spawn(move || {
                let mut ev = vec![];
                while !stop.load(SeqCst) {
                    let (rlo, wlo) = (done[0].load(SeqCst), done[1].load(SeqCst));
                    let v = s.write_read_ratio();
                    let (rhi, whi) = (begun[0].load(SeqCst), begun[1].load(SeqCst));
                    let within = v
                        .map(|v| v.is_finite() && v * rhi as f64 >= wlo as f64 * (1.0 - 1e-9) && v * rlo as f64 <= whi as f64 * (1.0 + 1e-9))
                        .unwrap_or(true);
                    let e = json!({"op": "racy", "some": v.is_some(), "within": within, "rlo": limbs(rlo as u128), "rhi": limbs(rhi as u128)});
                    let bad = !within || (v.is_none() && rlo > 0) || (v.is_some() && rhi == 0);
                    if bad || ev.len() < 120 {
                        ev.push(e);
                    }
                    let ms = s.time_since_last_activity().as_millis() as u64;
                    let age = clock::real_ms() - born;
                    if ms > age || ev.len() < 60 {
                        ev.push(json!({"op": "since", "ms": ms.min(2_000_000_000), "age": age, "lo": 0, "hi": 0, "quiet": false}));
                    }
                    if bad || ev.len() > 400 {
                        break;
                    }
                }
                ev
            })
        };
        gate.wait();
        let (mut rd, mut wr, mut ok) = (0u128, 0u128, true);
        for h in hs {
            let (sum, fine) = h.join().unwrap();
            rd += sum[0];
            wr += sum[1];
            ok &= fine;
        }
        let last = clock::real_ms();
        stop.store(true, SeqCst);
        for e in watcher.join().unwrap() {
            log.ev(e);
        }
        if !ok {
            log.ev(json!({"op": "panic"}));
        }
        log.ev(json!({"op": "rec", "kind": "r", "n": limbs(rd)}));
        log.ev(json!({"op": "rec", "kind": "w", "n": limbs(wr)}));
        ratio(log, &*s, rd, wr);
        if ok {
            std::thread::sleep(std::time::Duration::from_millis(3));
            let lo = clock::real_ms().saturating_sub(last);
            let ms = s.time_since_last_activity().as_millis() as u64;
            // the last record returned some time before `last`, but not before the tracker was made
            let age = clock::real_ms() - born;
            log.ev(json!({"op": "since", "ms": ms.min(2_000_000_000), "age": age, "lo": lo.saturating_sub(1), "hi": age, "quiet": true}));
        }
        // and alone again
        s.record_read(1);
        log.ev(json!({"op": "rec", "kind": "r", "n": limbs(1)}));
        ratio(log, &*s, rd + 1, wr);
    }
}
