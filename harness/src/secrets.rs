//! Are secrets fresh?  Connections of every kind, in threads, in forked and in new processes, with the
//! clock standing still; random sources of our own.
use crate::clock;
use crate::drv::{lock, shared, End, Gate, Plan, Wire, MR, MW};
use crate::log::{guarded, Log, Rng};
use crate::low::{Cfg, MAGIC};
use crate::refimpl::{self, Chain, RefDir, RefSession};
use bip324::{futures as fu, io as bio, FillBytes, Handshake, Initialized, Role, VersionResult, GarbageResult};
use bip324_traffic::{futures as tf, io as ti, TrafficConfig};
use serde_json::{json, Value};
use std::io::{Read, Write};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Which keys and terminators a connection was seen to use.
fn facts(sess: &mut RefSession, mine: usize, out: &[u8], ok: bool, sid: Option<[u8; 32]>) -> Value {
    let key = hex(&out[..out.len().min(24)]);
    let (mut term, mut pkt) = (String::new(), String::new());
    let mut k = [0usize; 4];
    let mut t = [0usize; 2];
    if out.len() >= 64 + 16 + 20 {
        let at = (64..=out.len() - 36)
            .find(|p| (0..2).any(|d| out[*p..*p + 16] == sess.term[d]))
            .unwrap_or(64);
        let tb = &out[at..at + 16];
        term = hex(tb);
        for d in 0..2 {
            if *tb == sess.term[d] {
                t[0] = d + 1;
            }
        }
        let garbage = &out[64..at];
        let rest = &out[at + 16..];
        pkt = hex(&rest[..20]);
        // length under one of the keys, contents under one of the keys
        'found: for l in 0..4 {
            for p in 0..4 {
                let mut d = RefDir { len: Chain::new(sess.keys[l], true), pkt: Chain::new(sess.keys[p], false) };
                let n = d.dec_len(0, rest[..3].try_into().unwrap()) + 17;
                if 3 + n <= rest.len() && d.open_body(0, &rest[3..3 + n], garbage).is_some() {
                    k[0] = l + 1;
                    k[1] = p + 1;
                    break 'found;
                }
            }
        }
    }
    if ok {
        // it understood what we sent under these
        k[2] = 2 * (1 - mine) + 1;
        k[3] = 2 * (1 - mine) + 2;
        t[1] = (1 - mine) + 1;
    }
    let sid = sid.map(|s| hex(&s[..16])).unwrap_or_else(|| if ok { hex(&sess.id[..16]) } else { String::new() });
    json!({"op": "conn", "key": key, "term": term, "pkt": pkt, "sid": sid, "k": k, "t": t, "ok": ok})
}

fn plan(r: &mut Rng, me: Role) -> Plan {
    Plan {
        role: if me == Role::Initiator { Role::Responder } else { Role::Initiator },
        magic: MAGIC,
        secret: r.arr32(),
        garbage: vec![],
        pkts: vec![(0, vec![])],
        wrong_aad: None,
        v1: false,
        raw_key: None,
        tamper: vec![],
        cut: None,
        end: End::Eof,
    }
}

pub const KINDS: [&str; 8] = ["low", "io", "iofn", "async", "asyncfn", "shaped", "ashaped", "cut"];

/// One connection started by the library.
fn connect(kind: &str, r: &mut Rng) -> Value {
    let role = if r.chance(50) { Role::Initiator } else { Role::Responder };
    let mine = if role == Role::Initiator { 0 } else { 1 };
    if kind == "low" {
        return low(r, role, mine).unwrap_or_else(|| json!({"op": "fail", "kind": kind}));
    }
    let is_async = kind.starts_with('a');
    let mut pl = plan(r, role);
    if kind == "cut" {
        pl.cut = Some(r.below(80));
    }
    let mut w = Wire::new(is_async, (role, MAGIC), pl);
    w.log_waits = false;
    let w = shared(w);
    let gate: Gate = Default::default();
    let (mr, mut mw) = (MR(w.clone(), gate.clone()), MW(w.clone()));
    let rt = || tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let ok = guarded(|| match kind {
        "io" | "cut" => bio::Protocol::new(MAGIC, role, None, None, mr, mw).is_ok(),
        "iofn" => bio::handshake(MAGIC, role, None, None, mr, &mut mw).is_ok(),
        "async" => rt().block_on(fu::Protocol::new(MAGIC, role, None, None, mr, mw)).is_ok(),
        "asyncfn" => rt().block_on(fu::handshake(MAGIC, role, None, None, mr, &mut mw)).is_ok(),
        "shaped" => match ti::ShapedProtocol::new(MAGIC, role, TrafficConfig::new(), mr, mw) {
            Ok(c) => {
                std::thread::spawn(move || drop(c));
                true
            }
            Err(_) => false,
        },
        _ => rt().block_on(tf::ShapedProtocol::new(MAGIC, role, TrafficConfig::new(), mr, mw)).is_ok(),
    })
    .unwrap_or(false);
    let mut g = lock(&w);
    let Some(mut sess) = g.sess.take() else {
        // the peer never got to derive anything
        return if g.out.len() >= 24 {
            json!({"op": "conn", "key": hex(&g.out[..24]), "term": "", "pkt": "", "sid": "", "k": [0, 0, 0, 0], "t": [0, 0], "ok": false})
        } else {
            json!({"op": "fail", "kind": kind})
        };
    };
    if !ok && kind != "cut" {
        return json!({"op": "fail", "kind": kind});
    }
    facts(&mut sess, mine, &g.out, ok, None)
}

fn low(r: &mut Rng, role: Role, mine: usize) -> Option<Value> {
    guarded(|| {
        let h = Handshake::<Initialized>::new(MAGIC, role).ok()?;
        let mut key = [0u8; 64];
        let h = h.send_key(None, &mut key).ok()?;
        let (sk, theirs) = refimpl::keypair(r.arr32())?;
        let mut sess = if mine == 0 {
            RefSession::derive(&key, &theirs, &sk, false, &MAGIC)
        } else {
            RefSession::derive(&theirs, &key, &sk, true, &MAGIC)
        };
        let h = h.receive_key(theirs).ok()?;
        let mut ver = vec![0u8; 36];
        let h = h.send_version(&mut ver, None).ok()?;
        let mut back = sess.term[1 - mine].to_vec();
        back.extend(sess.dir[1 - mine].seal(0, 0, &[], &[]));
        let mut out = key.to_vec();
        out.extend(ver);
        let GarbageResult::FoundGarbage { mut handshake, consumed_bytes } = h.receive_garbage(&back).ok()? else { return None };
        let mut rest = back[consumed_bytes..].to_vec();
        let n = handshake.decrypt_packet_len(rest[..3].try_into().unwrap()).ok()?;
        let VersionResult::Complete { cipher } = handshake.receive_version(&mut rest[3..3 + n]).ok()? else { return None };
        let sid = *cipher.id();
        Some(facts(&mut sess, mine, &out, true, Some(sid)))
    })
    .ok()
    .flatten()
}

fn batch(n: usize, seed: u64, stream: u64) -> Vec<Value> {
    let mut r = Rng::new(seed, stream);
    let o = r.below(8);
    (0..n).map(|i| connect(KINDS[(i + o) % 8], &mut r)).collect()
}

/// Entry point of a new process: connections, one line each.
pub fn child(seed: u64, stream: u64) {
    if std::env::var("HARNESS_FROZEN").is_ok() {
        clock::freeze();
    }
    let ev = batch(8, seed, stream);
    let mut o = std::io::stdout().lock();
    for e in ev {
        writeln!(o, "{e}").unwrap();
    }
}

/// Fork, run `f` in the child, return what it wrote.
fn forked(f: impl FnOnce() -> Vec<Value>) -> Vec<Value> {
    unsafe {
        let mut fd = [0i32; 2];
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        use std::os::fd::FromRawFd;
        if pid == 0 {
            libc::close(fd[0]);
            let ev = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_default();
            let mut o = std::fs::File::from_raw_fd(fd[1]);
            let text: String = ev.iter().map(|e| format!("{e}\n")).collect();
            let _ = o.write_all(text.as_bytes());
            drop(o);
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(fd[0]).read_to_string(&mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        s.lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
    }
}

pub fn fresh(log: &mut Log, c: &Cfg) {
    let m = if c.thorough { 8 } else { 1 };
    log.case(&["C20"], "connections in one thread, threads, forked and new processes, with a standing clock".into());
    // no other thread exists yet: fork before and after the first use
    let mut all: Vec<Value> = vec![];
    for i in 0..4 {
        all.extend(forked(|| batch(8, c.seed, 100 + i)));
    }
    all.extend(["low", "io", "async", "iofn", "asyncfn", "ashaped", "cut"].iter().map(|k| connect(k, &mut Rng::new(c.seed, 90))));
    for i in 0..(4 * m as u64) {
        all.extend(forked(|| {
            let mut v = batch(9, c.seed, 200 + i);
            if i % 2 == 0 {
                v.extend(forked(|| batch(4, c.seed, 300 + i)));
                v.extend(batch(2, c.seed, 400 + i));
            }
            v
        }));
        all.push(connect("low", &mut Rng::new(c.seed, 500 + i)));
    }
    // new processes
    let exe = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..16 * m)
        .map(|i| {
            let mut k = std::process::Command::new(&exe);
            k.arg("secrets_child").arg("/dev/null").env("HARNESS_STREAM", format!("{}", 600 + i / 2));
            if i % 2 == 0 {
                k.env("HARNESS_FROZEN", "1");
            }
            k.stdout(std::process::Stdio::piped()).spawn().expect("child")
        })
        .collect();
    for k in kids {
        let o = k.wait_with_output().unwrap();
        let v: Vec<Value> = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
        if v.is_empty() {
            all.push(json!({"op": "fail", "kind": "process"}));
        }
        all.extend(v);
    }
    // threads, half of them in a world without time
    let hs: Vec<_> = (0..16u64)
        .map(|t| {
            let (seed, n) = (c.seed, 24 * m);
            std::thread::spawn(move || {
                if t % 2 == 0 {
                    clock::freeze();
                }
                batch(n, seed, 700 + t / 2)
            })
        })
        .collect();
    for h in hs {
        all.extend(h.join().unwrap());
    }
    // one thread for long
    all.extend(batch(400 * m, c.seed, 800));
    for e in all {
        log.ev(e);
    }
    // only keys, many of them
    log.case(&["C20"], "many keys".into());
    let per = if c.thorough { 250_000 } else { 15_000 };
    let hs: Vec<_> = (0..8)
        .map(|t| {
            std::thread::spawn(move || {
                if t % 2 == 0 {
                    clock::freeze();
                }
                let mut v = Vec::with_capacity(per);
                for i in 0..per {
                    let role = if i % 2 == 0 { Role::Initiator } else { Role::Responder };
                    let mut key = [0u8; 64];
                    match Handshake::<Initialized>::new(MAGIC, role).and_then(|h| h.send_key(None, &mut key).map(|_| ())) {
                        Ok(()) => v.push(key[..16].try_into().unwrap()),
                        Err(_) => break,
                    }
                }
                v
            })
        })
        .collect();
    let keys: Vec<[u8; 16]> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    let set: std::collections::HashSet<[u8; 16]> = keys.iter().copied().collect();
    log.ev(json!({"op": "bulk", "n": 8 * per, "distinct": set.len()}));
}

/// Hands out the given bytes, then something else.
struct Source(Vec<[u8; 32]>, usize);
impl FillBytes for Source {
    fn fill_bytes(&mut self, dest: &mut [u8; 32]) {
        *dest = *self.0.get(self.1).unwrap_or(&[0x42; 32]);
        self.1 += 1;
    }
}
const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48,
    0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
pub fn sources(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 1000);
    let near = |d: i32| {
        let mut o = ORDER;
        o[31] = (o[31] as i32 + d) as u8;
        o
    };
    let small = |n: u8| {
        let mut o = [0u8; 32];
        o[31] = n;
        o
    };
    let mut secrets = vec![small(0), small(1), small(2), near(-1), near(0), near(1), near(-2), [0xff; 32], [0xfe; 32], [1; 32]];
    for _ in 0..(if c.thorough { 3000 } else { 200 }) {
        secrets.push(r.bytes(32).try_into().unwrap());
        let mut hi: [u8; 32] = r.bytes(32).try_into().unwrap();
        hi[..15].copy_from_slice(&[0xff; 15]);
        secrets.push(hi);
    }
    for part in secrets.chunks(60) {
        log.case(&["C20"], "random sources of the caller".into());
        // the same sources again, in other roles, networks, threads, times and contexts
        for round in 0..4u8 {
            for s in part {
                let valid = *s != [0u8; 32] && *s < ORDER;
                let s = *s;
                let go = move || {
                    guarded(|| {
                        let role = if round % 2 == 0 { Role::Initiator } else { Role::Responder };
                        let magic = [round, 2, 3, 4];
                        let mut key = [0u8; 64];
                        let mut src = Source(vec![s], 0);
                        let h = match round {
                            0 => Handshake::<Initialized>::new_with_rng(magic, role, &mut src, secp256k1::SECP256K1),
                            1 => Handshake::<Initialized>::new_with_rng(magic, role, &mut src, &secp256k1::Secp256k1::new()),
                            2 => {
                                let mut ctx = secp256k1::Secp256k1::signing_only();
                                ctx.seeded_randomize(&[round + 3; 32]);
                                Handshake::<Initialized>::new_with_rng(magic, role, &mut src, &ctx)
                            }
                            _ => Handshake::<Initialized>::new_with_rng(magic, role, &mut src, &secp256k1::Secp256k1::signing_only()),
                        };
                        match h.and_then(|h| h.send_key(None, &mut key).map(|_| ())) {
                            Ok(()) => json!({"res": "ok", "key": hex(&key)}),
                            Err(e) => json!({"res": crate::sess::err_name(&e).0, "key": ""}),
                        }
                    })
                    .unwrap_or_else(|_| json!({"res": "panic", "key": ""}))
                };
                let v = if round == 3 { std::thread::spawn(go).join().unwrap() } else { go() };
                log.ev(crate::log::merge(json!({"op": "src", "src": hex(&s), "valid": valid}), v));
            }
        }
    }
}

/// One thread of a generated history: its operations in order, threads and processes it starts run to
/// their end before it goes on.
fn history(me: usize, hist: &[(String, usize)], seed: u64, k: u64) -> Vec<Value> {
    // the n-th start in the history makes thread n + 2
    let mut v = vec![];
    let mut born = 1;
    let mut mine = me == 1;
    for (i, (op, t)) in hist.iter().enumerate() {
        let starts = op != "hs";
        if starts {
            born += 1;
        }
        if born == me {
            mine = true;
        }
        if !mine || *t != me || (starts && born == me) {
            continue;
        }
        let mut r = Rng::new(seed, 20_000 + k * 64 + i as u64);
        match op.as_str() {
            "hs" => v.push(connect(KINDS[r.below(8)], &mut r)),
            "fork" => {
                let u = born;
                v.extend(forked(|| history(u, hist, seed, k)));
            }
            _ => {
                let (u, h) = (born, hist.to_vec());
                v.extend(std::thread::spawn(move || history(u, &h, seed, k)).join().unwrap_or_default());
            }
        }
    }
    v
}
pub fn replay(log: &mut Log, c: &Cfg, file: &str) {
    let text = std::fs::read_to_string(file).expect("histories");
    log.case(&["C20"], "generated histories of threads and processes".into());
    for (k, l) in text.lines().enumerate() {
        let hist: Vec<(String, usize)> = serde_json::from_str(l).expect("history");
        let want = hist.iter().filter(|h| h.0 == "hs").count();
        let v = forked(|| history(1, &hist, c.seed, k as u64));
        if v.len() != want {
            log.ev(json!({"op": "fail", "kind": "history", "got": v.len(), "want": want}));
        }
        for e in v {
            log.ev(e);
        }
    }
}
