//! Replays behaviours generated from the specification (MC_Session) into the code under test.
use crate::log::{Log, Rng};
use crate::low::{Cfg, MAGIC};
use crate::refimpl;
use crate::sess::*;
use bip324::{PacketType, Role};
use serde_json::Value;

fn party(r: &Value) -> usize {
    if r["x"] == "A" { 0 } else { 1 }
}
fn role(v: &Value) -> Role {
    if v == "I" { Role::Initiator } else { Role::Responder }
}
fn us(v: &Value) -> usize {
    v.as_i64().unwrap_or(0).max(0) as usize
}
fn props_of(b: &[Value]) -> Vec<&'static str> {
    let mut p = vec!["C01", "C03", "C04", "C10"];
    let has = |op: &str| b.iter().any(|r| r["op"] == op);
    if has("recvgarb") {
        p.push("C06");
    }
    if has("open") || has("declen") {
        p.push("C02");
    }
    if has("open") || has("seal") {
        p.extend(["C05", "C09", "C21"]);
    }
    if has("bulk") {
        p.push("C05");
    }
    if has("recvver") {
        p.push("C13");
    }
    if b.iter().any(|r| r["v1"] == true) {
        p.push("C12");
    }
    if b.iter().any(|r| r["buf"].is_number()) {
        p.push("C09");
    }
    p.sort();
    p.dedup();
    p
}

pub fn replay(log: &mut Log, c: &Cfg, file: &str) {
    let text = std::fs::read_to_string(file).expect("behaviours");
    let mut r = Rng::new(c.seed, 77);
    let mut w = World::new(log);
    for (n, line) in text.lines().enumerate() {
        let b: Vec<Value> = serde_json::from_str(line).expect("behaviour");
        w.case(&props_of(&b), format!("behaviour {n} generated from the specification"));
        one(&mut w, &mut r, &b);
    }
}

fn one(w: &mut World, r: &mut Rng, b: &[Value]) {
    let secret = [r.arr32(), r.arr32()];
    let (_, stranger) = refimpl::keypair(r.arr32()).unwrap();
    let mut v1 = [0u8; 64];
    v1.copy_from_slice(&r.bytes(64));
    let magic2: [u8; 4] = [0x0b, 0x11, 0x09, 0x07];
    let mut garb: [Vec<u8>; 2] = [vec![], vec![]];
    for q in b {
        let x = party(q);
        let op = q["op"].as_str().unwrap_or("");
        let magic = if q["magic"] == 2 { magic2 } else { MAGIC };
        let src = match q["src"].as_i64() {
            Some(i) if i > 0 => {
                if i as usize > w.sealed.len() {
                    return; // the code has diverged already
                }
                Some(i as usize - 1)
            }
            _ => None,
        };
        match op {
            "new" => {
                w.new_party(x, role(&q["role"]), magic, Some(secret[x]));
            }
            "refkey" => w.new_ref(x, role(&q["role"]), magic, secret[x], &[]),
            "sendkey" => {
                let g = us(&q["g"]);
                garb[x] = r.bytes(g);
                let arg = if g == 0 && r.chance(50) { None } else { Some(garb[x].clone()) };
                w.send_key(x, arg, q["slack"].as_i64().unwrap_or(0));
            }
            "recvkey" | "refsess" => {
                let k = match q["key"].as_i64() {
                    Some(1) => w.p[0].key,
                    Some(2) => w.p[1].key,
                    Some(3) => stranger,
                    _ => {
                        v1[..4].copy_from_slice(&w.p[x].magic);
                        v1
                    }
                };
                if op == "recvkey" {
                    w.recv_key(x, k);
                } else {
                    w.ref_receive_key(x, k);
                }
            }
            "sendver" => {
                let d: Vec<Vec<u8>> = q["decoys"].as_array().map(|a| a.iter().map(|n| r.bytes(us(n))).collect()).unwrap_or_default();
                let arg = if d.is_empty() && r.chance(50) { None } else { Some(&d[..]) };
                w.send_version(x, arg, q["slack"].as_i64().unwrap_or(0));
            }
            "recvgarb" => {
                let y = 1 - x;
                let term = w.p[x].sess.as_ref().map(|s| s.term[if w.p[x].role == Role::Initiator { 1 } else { 0 }]);
                let Some(term) = term else { return };
                let theirs = if matches!(w.p[y].st, St::Ref) { vec![] } else { garb[y].clone() };
                let input = match q["how"].as_str().unwrap_or("") {
                    "right" => {
                        let rest = r.range(0, 40);
                        [&theirs[..], &term[..], &r.bytes(rest)[..]].concat()
                    }
                    "longer" => {
                        let mut g = theirs.clone();
                        let at = r.below(g.len() + 1);
                        g.insert(at, r.next() as u8);
                        let rest = r.range(0, 40);
                        [&g[..], &term[..], &r.bytes(rest)[..]].concat()
                    }
                    "late" => [&r.bytes(4096)[..], &term[..]].concat(),
                    "partial" => r.bytes(4095),
                    _ => r.bytes(4111),
                };
                w.recv_garbage(x, &input);
            }
            "hslen" | "declen" => {
                match src {
                    Some(_) => w.len_bytes(x, src, None),
                    None => w.len_bytes(x, None, Some([r.next() as u8, 0, r.next() as u8])),
                };
            }
            "recvver" | "open" => {
                let m = match (src, q["mut"].as_str().unwrap_or("")) {
                    (None, _) => Mut::Junk(r.bytes(20)),
                    (_, "flip") => Mut::Flip(r.below(1 << 16)),
                    (Some(s), "trunc") => Mut::Trunc(w.sealed[s].bytes.len() - 4),
                    (_, "short") => Mut::Trunc(16),
                    (_, "ext") => Mut::Ext(1),
                    _ => Mut::None,
                };
                if op == "recvver" {
                    if w.recv_version(x, src, &m) == Some(true) {
                        w.done(x);
                    }
                } else {
                    let aad = aad(w, q);
                    let api = match q["api"].as_str() {
                        Some("buf") => OpenApi::Buf,
                        Some("vec") => OpenApi::Vec,
                        _ => OpenApi::InPlace,
                    };
                    w.open(x, api, src, &m, &aad, q["slack"].as_i64().unwrap_or(0));
                }
            }
            "seal" => {
                let a = aad(w, q);
                let ty = if q["ty"] == "D" { PacketType::Decoy } else { PacketType::Genuine };
                let c = r.bytes(us(&q["n"]));
                let slack = q["slack"].as_i64();
                w.seal(x, &c, ty, &a, slack);
            }
            "bulk" => {
                if w.is_done(0) && w.is_done(1) {
                    w.bulk(x, q["n"].as_u64().unwrap_or(0), &[0, 3, 40], true, true, true);
                }
            }
            "refseal" => {
                let a = aad(w, q);
                let c = r.bytes(us(&q["n"]));
                w.ref_seal(x, role(&q["d"]), q["pos"].as_u64().unwrap_or(0), q["hdr"].as_u64().unwrap_or(0) as u8, &c, &a);
            }
            _ => panic!("unknown request {op}"),
        }
    }
}

fn aad(w: &mut World, q: &Value) -> String {
    match q["aad"].as_str().unwrap_or("e") {
        "e" => "e".into(),
        other => {
            let b = format!("associated data {other}").into_bytes();
            w.aad_id(&b)
        }
    }
}
