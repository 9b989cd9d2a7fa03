//! Behaviours of MC_Driver, run on the real drivers: unit positions are stretched to real byte positions.
use crate::drv::*;
use crate::log::{Log, Rng};
use crate::low::Cfg;
use serde_json::Value;
use std::io::ErrorKind;

fn n(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

/// (units, bytes per unit) segments; position in units to position in bytes
fn pos(segs: &[(usize, usize)], u: usize) -> usize {
    let (mut left, mut b) = (u, 0);
    for &(k, per) in segs {
        let t = k.min(left);
        b += t * per;
        left -= t;
    }
    b
}

pub fn replay(log: &mut Log, c: &Cfg, file: &str) {
    let text = std::fs::read_to_string(file).expect("behaviours");
    for (k, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).expect("behaviour");
        let mut r = Rng::new(c.seed, 0xE000_0000 + k as u64);
        let st = &b["st"];
        let hist: Vec<(usize, u8)> = b["hist"].as_array().unwrap().iter().map(|h| (n(&h[0]), n(&h[1]) as u8)).collect();
        let cancels = hist.iter().any(|h| h.1 == 2);
        let iface = if cancels { Iface::Async } else { [Iface::Sync, Iface::Async, Iface::SyncFn, Iface::AsyncFn][k % 4] };
        let (pg, og) = (n(&b["pg"]), n(&b["g"]));
        let gu = if pg >= 3 { 1365 } else { *r.pick(&[1usize, 17, 300, 1365]) };
        let ogu = if og >= 3 { 1365 } else { 5 };
        let cu = *r.pick(&[1usize, 9, 300]);
        let mut s = Setup::honest(&mut r, iface);
        if og > 0 {
            s.garbage = Some(r.bytes(og * ogu));
        }
        let dec: Vec<Vec<u8>> = b["decoys"].as_array().unwrap().iter().map(|d| r.bytes(n(d) * cu)).collect();
        if !dec.is_empty() {
            s.decoys = Some(dec);
        }
        let mut segs = vec![(4usize, 1usize), (1, 60), (pg, gu), (2, 8)];
        s.plan.garbage = r.bytes(pg * gu);
        s.plan.pkts = vec![];
        let mut bytes = 64 + pg * gu + 16;
        for (i, p) in st["pkts"].as_array().unwrap().iter().enumerate() {
            let cn = n(&p["len"]) - 2;
            let hdr = p["hdr"].as_i64().unwrap();
            segs.extend([(3, 1), (1, 1), (cn, cu), (1, 16)]);
            s.plan.pkts.push((if hdr < 0 { 0 } else { hdr as u8 | (r.next() as u8 & 0x7f) }, r.bytes(cn * cu)));
            let auth = p["auth"].as_str().unwrap();
            match (auth, i) {
                ("g", 0) | ("e", 1..) | ("ge", _) => {}
                ("e", 0) => s.plan.wrong_aad = Some((0, vec![])),
                ("g", _) => s.plan.wrong_aad = Some((i, s.plan.garbage.clone())),
                ("none", _) => s.plan.tamper.push(Tamper::Xor(bytes + 3 + cn * cu + 1 + r.below(16), 1 << r.below(8))),
                _ => {}
            }
            bytes += 3 + 1 + cn * cu + 16;
        }
        match st["key"].as_str().unwrap() {
            "v1" => s.plan.v1 = true,
            "foreign" => s.plan.raw_key = Some(r.bytes(64).try_into().unwrap()),
            _ => {}
        }
        s.plan.cut = Some(pos(&segs, n(&st["total"])));
        s.plan.end = match st["end"].as_str().unwrap() {
            "silence" => End::Silence,
            "eof" => End::Eof,
            "TimedOut" => End::Err(ErrorKind::TimedOut),
            "ConnectionReset" => End::Err(ErrorKind::ConnectionReset),
            e => panic!("unknown end {e}"),
        };
        s.stops = hist.iter().map(|h| (pos(&segs, h.0), h.1)).collect();
        log.case(
            &["C01", "C02", "C03", "C06", "C07", "C08", "C10", "C12", "C13", "C14"],
            format!("{} behaviour {k}: {line}", iface.name()),
        );
        let mut d = handshake(log, s);
        if !d.is_open() {
            continue;
        }
        if k % 5 == 4 && !cancels {
            d.unwrap_reader();
        } else if k % 3 == 1 {
            d.split();
        }
        for _ in 0..40 {
            let before = d.got;
            if !d.read(usize::MAX, &[], Some(SCRIPTED)) && d.got == before && d.wire().stops.is_empty() {
                break;
            }
        }
    }
}
