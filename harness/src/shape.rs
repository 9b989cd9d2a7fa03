//! Shaped connections: what callers are told, what reaches the wire, what is left behind.
//!
//! Asynchronous connections run on a single threaded runtime with virtual time.  Blocking ones run
//! on real threads; sleeps of the code under test are shortened (see `clock_nanosleep`).
use crate::drv::{lock, set_gate, set_release, shared, Act, End, Gate, How, Plan, Shared, WErr, Wire, MR, MW};
use crate::log::{guarded, merge, Log, Rng};
use crate::low::{Cfg, MAGIC};
use bip324::io::{Payload, ProtocolError};
use bip324::{PacketType, Role};
use bip324_traffic::{futures as tf, io as ti, DecoyStrategy, PaddingStrategy, TrafficConfig};
use serde_json::{json, Value};
use std::cell::Cell;
use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// sleeping

static FAST: AtomicBool = AtomicBool::new(false);
const SPEED: i64 = 50;
pub fn fast(on: bool) {
    FAST.store(on, SeqCst);
    crate::clock::speed(if on { SPEED } else { 1 });
}
unsafe fn shorten(req: *const libc::timespec) -> libc::timespec {
    let mut t = *req;
    if FAST.load(SeqCst) {
        let ns = (t.tv_sec as i64 * 1_000_000_000 + t.tv_nsec as i64) / SPEED;
        t.tv_sec = ns / 1_000_000_000;
        t.tv_nsec = ns % 1_000_000_000;
    }
    t
}
/// Sleeping in this process goes through here.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    let t = if flags == 0 { shorten(req) } else { *req };
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk, flags, &t as *const _, rem);
    if r < 0 {
        *libc::__errno_location()
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    let t = shorten(req);
    libc::syscall(libc::SYS_nanosleep, &t as *const _, rem) as libc::c_int
}
/// A sleep of our own, in real time.
fn nap(ms: u64) {
    let (_tx, rx) = mpsc::channel::<()>();
    let _ = rx.recv_timeout(Duration::from_millis(ms));
}

// ---------------------------------------------------------------------------------------------
// panics

thread_local! { static MY_PANICS: Cell<u64> = const { Cell::new(0) }; static OURS: Cell<bool> = const { Cell::new(false) }; }
static FOREIGN_PANICS: AtomicU64 = AtomicU64::new(0);
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("HARNESS_PANICS").is_ok() {
            eprintln!("{i}");
        }
        let ours = OURS.try_with(|o| o.get()).unwrap_or(false);
        if ours {
            let _ = MY_PANICS.try_with(|p| p.set(p.get() + 1));
        } else {
            FOREIGN_PANICS.fetch_add(1, SeqCst);
        }
    }));
}

// ---------------------------------------------------------------------------------------------
// programs

#[derive(Clone, Debug)]
pub enum Op {
    /// size, type, polls after which it is cancelled
    Write(usize, bool, Option<usize>),
    Big,
    /// many writes in a row
    Burst(usize),
    Idle(u64),
    /// size of the chunks the transport delivers, polls after which the read is cancelled
    Read(usize, Option<usize>),
    /// a read that waits (for so many milliseconds, asynchronous) while a packet is written
    HeldRead(usize, u64),
    /// a write that the transport holds up while packets are read
    StuckWrite(usize, usize),
    Gate(usize),
    /// wait (blocking: for real) until somebody waits at the gate
    AwaitBlocked,
    Open,
    Fail(usize, ErrorKind, How, bool),
    /// short writes and pauses from here on
    Slow(usize, Vec<Act>),
    Split,
    DropReader,
    /// the peer's stream ends, fails or is altered so many bytes ahead; read until this is noticed
    BreakReads(u8, usize),
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub is_async: bool,
    pub role: Role,
    pub pad: bool,
    pub dec: bool,
    pub ops: Vec<Op>,
    pub seed: u64,
    pub desc: String,
    pub props: Vec<&'static str>,
    /// the peer does something else in the handshake
    pub peer_fails: u8,
    /// the peer sends: 0 small packets, 1 large packets, 2 packets that look like padding, 3 very large ones
    pub big_peer: u8,
    /// steps of a generated schedule, instead of `ops`
    pub sched: Option<Vec<String>>,
}

/// The same configuration, said in various ways.
fn config(pad: bool, dec: bool, way: usize) -> TrafficConfig {
    let p = |on| if on { PaddingStrategy::Random } else { PaddingStrategy::Disabled };
    let d = |on| if on { DecoyStrategy::Random } else { DecoyStrategy::Disabled };
    match way % 5 {
        0 => TrafficConfig::new().with_padding_strategy(p(pad)).with_decoy_strategy(d(dec)),
        1 => TrafficConfig::default().with_decoy_strategy(d(dec)).with_padding_strategy(p(pad)),
        // only what is switched on
        2 => {
            let mut c = TrafficConfig::new();
            if dec {
                c = c.with_decoy_strategy(DecoyStrategy::Random);
            }
            if pad {
                c = c.with_padding_strategy(PaddingStrategy::Random);
            }
            c
        }
        // with a change of mind
        3 => TrafficConfig::new().with_padding_strategy(p(!pad)).with_decoy_strategy(d(!dec)).with_padding_strategy(p(pad)).with_decoy_strategy(d(dec)),
        _ => {
            let c = TrafficConfig::new().with_decoy_strategy(d(dec));
            c.clone().with_padding_strategy(p(pad))
        }
    }
}

struct Call {
    contents: Vec<u8>,
    decoy: bool,
    end: Option<usize>,
}

/// What is known about one connection; collects the events.
struct Sh {
    ev: Vec<Value>,
    wire: Shared,
    calls: Vec<Call>,
    pos: usize,
    idx: u64,
    hs_done: bool,
    dead: bool,
    torn: bool,
    more: bool,
    mine: usize,
    run: (usize, usize, usize),
    decoys_seen: usize,
    peer: Vec<(u8, Vec<u8>)>,
    reads: usize,
    /// a write is being held up by the transport
    stuck: bool,
    rng: Rng,
    at_release: Option<usize>,
    gated: bool,
}

impl Sh {
    fn new(p: &Prog) -> (Sh, MR, MW, Gate) {
        let mut r = Rng::new(p.seed, 77);
        let peer_role = if p.role == Role::Initiator { Role::Responder } else { Role::Initiator };
        let ng = r.below(3) * 37;
        let mut pkts: Vec<(u8, Vec<u8>)> = vec![];
        for _ in 0..r.below(3) {
            let n = r.below(40);
            pkts.push((0x80, r.bytes(n)));
        }
        pkts.push((0, vec![]));
        let hs = pkts.len();
        for _ in 0..12 {
            if p.big_peer == 2 {
                let n = *r.pick(&[0usize, 1, 2, 15, 16, 17, 255, 256, 512, 1000, 1001, 1022, 1023, 1024, 1025, 1500, 2048, 4096]);
                let h = if r.chance(70) { 0x80 } else { 0 };
                pkts.push((h, if r.chance(65) { vec![0; n] } else { r.bytes(n) }));
                continue;
            }
            let n = if p.big_peer == 3 { 3_900_000 } else if p.big_peer == 1 { *r.pick(&[0usize, 65_536, 65_537, 300_000, 1 << 20, 2_000_001]) } else { *r.pick(&[0usize, 1, 13, 100, 1000]) };
            let h = if r.chance(25) { 0x80 } else { 0 };
            let n = if h != 0 && p.big_peer == 0 && r.chance(30) { r.below(1100) } else { n };
            // contents like those of the padding, too
            pkts.push((h, if r.chance(30) { vec![0; n] } else { r.bytes(n) }));
        }
        let peer = pkts[hs..].to_vec();
        let plan = Plan {
            role: peer_role,
            magic: MAGIC,
            secret: r.arr32(),
            garbage: r.bytes(ng),
            pkts,
            wrong_aad: None,
            v1: p.peer_fails == 3,
            raw_key: None,
            tamper: vec![],
            cut: match p.peer_fails {
                1 => Some(64),
                2 => Some(30),
                4 => Some(64 + ng + 16),
                _ => None,
            },
            end: if p.peer_fails == 2 { End::Err(ErrorKind::ConnectionReset) } else { End::Eof },
        };
        let mut w = Wire::new(p.is_async, (p.role, MAGIC), plan);
        w.log_waits = false;
        let wire = shared(w);
        let gate: Gate = Default::default();
        let (mr, mw) = (MR(wire.clone(), gate.clone()), MW(wire.clone()));
        let iface = if p.is_async { "async" } else { "sync" };
        let ev = vec![json!({"op": "shape", "iface": iface, "pad": p.pad, "dec": p.dec})];
        let mine = if p.role == Role::Initiator { 0 } else { 1 };
        (
            Sh {
                ev,
                wire,
                calls: vec![],
                pos: 0,
                idx: 0,
                hs_done: false,
                dead: false,
                torn: false,
                more: false,
                mine,
                run: (0, 0, 0),
                decoys_seen: 0,
                peer,
                reads: 0,
            stuck: false,
                rng: r,
                at_release: None,
                gated: false,
            },
            mr,
            mw,
            gate,
        )
    }

    fn flush_run(&mut self) {
        let (cnt, min, max) = std::mem::replace(&mut self.run, (0, 0, 0));
        if cnt > 0 {
            self.ev.push(json!({"op": "pkt", "ty": "D", "cnt": cnt, "min": min, "max": max}));
        }
    }

    /// What the handshake put on the wire.
    fn hs_facts(&mut self) -> Value {
        let mut g = lock(&self.wire);
        let bad = json!({"wellformed": false, "g": 0, "nd": 0, "min": 0, "max": 0});
        let Some(mut sess) = g.sess.take() else { return bad };
        let out = &g.out;
        let term = sess.term[self.mine];
        let mut facts = bad.clone();
        if let Some(n) = out[64..].windows(16).position(|w| *w == term) {
            let garbage = out[64..64 + n].to_vec();
            let mut pos = 64 + n + 16;
            let (mut nd, mut min, mut max) = (0, 0, 0);
            let mut idx = 0u64;
            while pos + 20 <= out.len() {
                let len = sess.dir[self.mine].dec_len(idx, out[pos..pos + 3].try_into().unwrap()) + 17;
                if pos + 3 + len > out.len() {
                    break;
                }
                let aad: &[u8] = if idx == 0 { &garbage } else { &[] };
                let Some(plain) = sess.dir[self.mine].open_body(idx, &out[pos + 3..pos + 3 + len], aad) else { break };
                pos += 3 + len;
                idx += 1;
                let c = plain.len() - 1;
                if plain[0] == 0x80 {
                    min = if nd == 0 { c } else { c.min(min) };
                    max = c.max(max);
                    nd += 1;
                } else {
                    facts = json!({"wellformed": plain[0] == 0 && c == 0 && g.flushed >= pos, "g": n, "nd": nd, "min": min, "max": max});
                    self.pos = pos;
                    self.idx = idx;
                    self.hs_done = true;
                    break;
                }
            }
        }
        g.sess = Some(sess);
        facts
    }

    fn hs(&mut self, res: Result<(), Value>, fails: bool) {
        let f = self.hs_facts();
        let r = match res {
            Ok(()) => json!({"res": "ok"}),
            Err(v) => v,
        };
        self.ev.push(merge(merge(json!({"op": "hs", "fails": fails}), f), r));
    }

    /// Turn what is new on the wire into events.
    fn sync_log(&mut self) {
        self.packets();
        let g = lock(&self.wire);
        let more = self.torn && g.torn_at.is_some_and(|a| g.out.len() > a);
        drop(g);
        if more && !self.more {
            self.more = true;
            self.ev.push(json!({"op": "more"}));
        }
    }
    fn packets(&mut self) {
        if !self.hs_done || self.dead {
            return;
        }
        let wire = self.wire.clone();
        let mut g = lock(&wire);
        let limit = g.torn.unwrap_or(usize::MAX).min(g.out.len());
        let torn = g.torn.is_some();
        let mut sess = g.sess.take().unwrap();
        while self.pos + 20 <= limit {
            let out = &g.out;
            let len = sess.dir[self.mine].dec_len(self.idx, out[self.pos..self.pos + 3].try_into().unwrap()) + 17;
            let end = self.pos + 3 + len;
            if end > limit {
                break;
            }
            let Some(plain) = sess.dir[self.mine].open_body(self.idx, &out[self.pos + 3..end], &[]) else {
                self.flush_run();
                self.ev.push(json!({"op": "pkt", "ty": "?"}));
                self.dead = true;
                break;
            };
            let decoy = plain[0] == 0x80;
            let c = &plain[1..];
            let hit = |k: &Call| k.decoy == decoy && k.contents[..] == *c;
            let own = self.calls.iter().position(|k| k.end.is_none() && hit(k)).or_else(|| self.calls.iter().position(hit));
            // a packet of a caller under the wrong marking: its contents tell whose it is
            let flipped = if own.is_none() && (c.len() >= 8 || c.is_empty()) {
                self.calls.iter().position(|k| k.end.is_none() && k.decoy != decoy && k.contents[..] == *c)
            } else {
                None
            };
            let filler = decoy && c.iter().all(|b| *b == 0);
            match own {
                Some(k) if !(filler && self.calls[k].end.is_some()) => {
                    self.flush_run();
                    self.calls[k].end.get_or_insert(end);
                    self.ev.push(json!({"op": "pkt", "ty": "G", "n": c.len(), "id": k + 1, "same": true, "mark": true}));
                }
                _ if flipped.is_some() => {
                    let k = flipped.unwrap();
                    self.flush_run();
                    self.calls[k].end = Some(end);
                    self.ev.push(json!({"op": "pkt", "ty": "G", "n": c.len(), "id": k + 1, "same": true, "mark": false}));
                }
                _ if decoy => {
                    self.decoys_seen += 1;
                    let n = c.len();
                    self.run = if self.run.0 == 0 { (1, n, n) } else { (self.run.0 + 1, self.run.1.min(n), self.run.2.max(n)) };
                }
                _ => {
                    self.flush_run();
                    self.ev.push(json!({"op": "pkt", "ty": "G", "n": c.len(), "id": 0, "same": false, "mark": true}));
                }
            }
            self.pos = end;
            self.idx += 1;
        }
        g.sess = Some(sess);
        drop(g);
        self.flush_run();
        if torn && !self.torn {
            self.torn = true;
            self.dead = true;
            self.ev.push(json!({"op": "torn"}));
        }
    }

    fn new_call(&mut self, n: usize, decoy: bool) -> (usize, Payload) {
        let id = self.calls.len() + 1;
        let mut c = self.rng.bytes(n);
        for (i, b) in format!("{id:08}").bytes().enumerate() {
            if let Some(x) = c.get_mut(i) {
                *x = b;
            }
        }
        self.sync_log();
        self.ev.push(json!({"op": "call", "id": id}));
        self.calls.push(Call { contents: c.clone(), decoy, end: None });
        (id, if decoy { Payload::decoy(c) } else { Payload::genuine(c) })
    }

    fn ret(&mut self, id: usize, res: Value) {
        self.sync_log();
        let flushed = self.calls[id - 1].end.map(|e| lock(&self.wire).flushed >= e).unwrap_or(false);
        let big = self.calls[id - 1].contents.len() > 0xff_ffff;
        self.ev.push(merge(json!({"op": "ret", "id": id, "flushed": flushed, "big": big}), res));
    }

    fn read_done(&mut self, r: Result<Option<Result<(PacketType, Vec<u8>), Value>>, &'static str>) {
        let left = self.peer.len() - self.reads;
        match r {
            Ok(Some(Ok((ty, c)))) => {
                let at = self.peer.get(self.reads);
                let same = at.map(|(_, p)| *p == c).unwrap_or(false);
                let mark = at.map(|(h, _)| (*h == 0x80) == (ty == PacketType::Decoy)).unwrap_or(true);
                self.reads += 1;
                self.ev.push(json!({"op": "read", "res": "ok", "idx": self.reads, "same": same, "mark": mark, "left": left, "stuck": self.stuck}));
            }
            Ok(Some(Err(v))) => self.ev.push(merge(json!({"op": "read", "idx": 0, "same": false, "left": left, "stuck": self.stuck}), v)),
            Ok(None) => self.ev.push(json!({"op": "read", "res": "cancelled", "idx": 0, "same": false, "left": left, "stuck": self.stuck})),
            Err(what) => self.ev.push(json!({"op": "read", "res": what, "idx": 0, "same": false, "left": left, "stuck": self.stuck})),
        }
    }

    fn released(&mut self) {
        self.sync_log();
        let g = lock(&self.wire);
        let ok = g.wdropped;
        self.at_release = Some(g.out.len());
        drop(g);
        self.ev.push(json!({"op": "released", "res": ok}));
    }

    fn end(&mut self, panics: u64) {
        self.sync_log();
        let g = lock(&self.wire);
        let after = self.at_release.map(|a| g.out.len() - a).unwrap_or(0);
        let trailing = if self.hs_done && !self.dead { g.out.len() - self.pos } else { 0 };
        drop(g);
        self.ev.push(json!({"op": "end", "panics": panics, "trailing": trailing, "after": after}));
    }

    fn arm(&mut self, delta: usize, kind: ErrorKind, how: How, transient: bool) {
        let mut g = lock(&self.wire);
        let at = g.out.len() + delta;
        g.werr = Some(WErr { at, kind, how });
        g.transient = transient;
    }
    fn slow(&mut self, d: usize, s: &[Act]) {
        let mut g = lock(&self.wire);
        g.wdefault = d.max(1);
        g.wscript = s.iter().copied().collect();
    }
    fn close(&mut self, delta: usize, flush: bool) {
        let mut g = lock(&self.wire);
        g.gate = g.out.len() + delta;
        g.gate_flush = flush;
        g.blocked = false;
        self.gated = true;
    }
    fn open(&mut self) {
        set_gate(&self.wire, usize::MAX);
        self.gated = false;
    }
}

fn wres(r: Result<(), ProtocolError>) -> Value {
    match r {
        Ok(()) => json!({"res": "ok"}),
        Err(e) => crate::drv::perr(&e),
    }
}
fn rres(r: Result<Payload, ProtocolError>) -> Result<(PacketType, Vec<u8>), Value> {
    match r {
        Ok(p) => Ok((p.packet_type(), p.contents().to_vec())),
        Err(e) => Err(crate::drv::perr(&e)),
    }
}

// ---------------------------------------------------------------------------------------------
// asynchronous

/// Poll at most so many times, then give up (and drop the future).
struct Cancel<F>(Pin<Box<F>>, Option<usize>);
impl<F: Future> Future for Cancel<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                if let Some(n) = self.1.as_mut() {
                    *n = n.saturating_sub(1);
                    if *n == 0 {
                        return Poll::Ready(None);
                    }
                }
                Poll::Pending
            }
        }
    }
}

enum AConn {
    Whole(tf::ShapedProtocol<MR>),
    Halves(Option<tf::ShapedProtocolReader<MR>>, Option<tf::ShapedProtocolWriter>),
    None,
}
impl AConn {
    async fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        match self {
            AConn::Whole(c) => c.write(p).await,
            AConn::Halves(_, Some(w)) => w.write(p).await,
            _ => unreachable!(),
        }
    }
    async fn read(&mut self) -> Result<Payload, ProtocolError> {
        match self {
            AConn::Whole(c) => c.read().await,
            AConn::Halves(Some(r), _) => r.read().await,
            _ => unreachable!(),
        }
    }
    fn split(&mut self) {
        if let AConn::Whole(_) = self {
            if let AConn::Whole(c) = std::mem::replace(self, AConn::None) {
                let (r, w) = c.into_split();
                *self = AConn::Halves(Some(r), Some(w));
            }
        }
    }
}
const LONG: Duration = Duration::from_secs(600);

async fn open_later(w: Shared, ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
    set_gate(&w, usize::MAX);
}

async fn arun(p: &Prog, sh: &mut Sh, mr: MR, mw: MW) {
    let r = tokio::time::timeout(LONG, tf::ShapedProtocol::new(MAGIC, p.role, config(p.pad, p.dec, p.ops.len()), mr, mw)).await;
    let mut conn = match r {
        Err(_) => {
            sh.hs(Err(json!({"res": "hang"})), false);
            return;
        }
        Ok(Err(e)) => {
            sh.hs(Err(crate::drv::perr(&e)), p.peer_fails > 0);
            drop(e);
            tokio::time::sleep(Duration::from_secs(10)).await;
            sh.ev.push(json!({"op": "drop", "res": "ok"}));
            sh.released();
            tokio::time::sleep(Duration::from_secs(10)).await;
            return;
        }
        Ok(Ok(c)) => {
            sh.hs(Ok(()), p.peer_fails > 0);
            AConn::Whole(c)
        }
    };
    let mut deaf = false;
    for op in &p.ops {
        if deaf && matches!(op, Op::Read(..) | Op::StuckWrite(..) | Op::HeldRead(..) | Op::BreakReads(..)) {
            continue;
        }
        match op {
            Op::BreakReads(how, ahead) => {
                if matches!(&conn, AConn::Halves(None, _)) {
                    continue;
                }
                break_reads(&sh.wire, *how, *ahead);
                for _ in 0..14 {
                    match tokio::time::timeout(LONG, conn.read()).await {
                        Ok(Ok(x)) => sh.read_done(Ok(Some(rres(Ok(x))))),
                        Ok(Err(_)) => break,
                        Err(_) => {
                            sh.read_done(Err("hang"));
                            break;
                        }
                    }
                }
                deaf = true;
                sh.ev.push(json!({"op": "rgone"}));
            }
            Op::Write(n, decoy, cancel) => {
                let (id, pl) = sh.new_call(*n, *decoy);
                if sh.gated && cancel.is_none() {
                    tokio::spawn(open_later(sh.wire.clone(), 700));
                    sh.gated = false;
                }
                let f = Cancel(Box::pin(conn.write(&pl)), *cancel);
                let limit = if cancel.is_some() { Duration::from_secs(5) } else { LONG };
                match tokio::time::timeout(limit, f).await {
                    Ok(Some(r)) => sh.ret(id, wres(r)),
                    Ok(None) => {
                        sh.sync_log();
                        sh.ev.push(json!({"op": "cancel", "id": id}));
                    }
                    Err(_) if cancel.is_some() => {
                        sh.sync_log();
                        sh.ev.push(json!({"op": "cancel", "id": id}));
                    }
                    Err(_) => sh.ret(id, json!({"res": "hang"})),
                }
            }
            Op::Big => {
                let (id, pl) = sh.new_call(0x100_0000, false);
                match tokio::time::timeout(LONG, conn.write(&pl)).await {
                    Ok(r) => sh.ret(id, wres(r)),
                    Err(_) => sh.ret(id, json!({"res": "hang"})),
                }
            }
            Op::Burst(k) => {
                if sh.gated {
                    tokio::spawn(open_later(sh.wire.clone(), 700));
                    sh.gated = false;
                }
                for i in 0..*k {
                    let (id, pl) = sh.new_call(i % 60, false);
                    match tokio::time::timeout(LONG, conn.write(&pl)).await {
                        Ok(r) => sh.ret(id, wres(r)),
                        Err(_) => sh.ret(id, json!({"res": "hang"})),
                    }
                }
            }
            Op::Idle(ms) => {
                sh.sync_log();
                let (gated, before) = (sh.gated, sh.decoys_seen);
                tokio::time::sleep(Duration::from_millis(*ms)).await;
                sh.sync_log();
                let n = sh.decoys_seen - before;
                sh.ev.push(json!({"op": "idle", "ms": ms, "n": n, "gated": gated}));
            }
            Op::Read(chunk, cancel) => {
                if matches!(&conn, AConn::Halves(None, _)) {
                    continue;
                }
                if cancel.is_some() {
                    let mut g = lock(&sh.wire);
                    g.rscript.extend([Act::Pause, Act::Chunk(2), Act::Pause, Act::Chunk(5), Act::Pause]);
                }
                lock(&sh.wire).rdefault = (*chunk).max(1);
                let f = Cancel(Box::pin(conn.read()), *cancel);
                match tokio::time::timeout(LONG, f).await {
                    Ok(r) => sh.read_done(Ok(r.map(rres))),
                    Err(_) => sh.read_done(Err("hang")),
                }
            }
            Op::StuckWrite(n, reads) => {
                conn.split();
                if let AConn::Halves(Some(r), Some(w)) = &mut conn {
                    sh.close(*n / 2, false);
                    let (id, pl) = sh.new_call(*n, false);
                    let wire = sh.wire.clone();
                    let (b, seen) = tokio::join!(tokio::time::timeout(LONG * 20, w.write(&pl)), async {
                        tokio::time::sleep(Duration::from_millis(350)).await;
                        let mut seen = vec![];
                        for _ in 0..*reads {
                            seen.push(tokio::time::timeout(LONG, r.read()).await);
                        }
                        open_later(wire, 0).await;
                        seen
                    });
                    sh.gated = false;
                    sh.stuck = true;
                    for x in seen {
                        match x {
                            Ok(r) => sh.read_done(Ok(Some(rres(r)))),
                            Err(_) => sh.read_done(Err("hang")),
                        }
                    }
                    sh.stuck = false;
                    match b {
                        Ok(r) => sh.ret(id, wres(r)),
                        Err(_) => sh.ret(id, json!({"res": "hang"})),
                    }
                }
            }
            Op::HeldRead(n, ms) => {
                conn.split();
                if let AConn::Halves(Some(r), Some(w)) = &mut conn {
                    let (id, pl) = sh.new_call(*n, false);
                    let d = lock(&sh.wire).dlv;
                    lock(&sh.wire).release = d + 1;
                    if sh.gated {
                        tokio::spawn(open_later(sh.wire.clone(), 300));
                        sh.gated = false;
                    }
                    let wire = sh.wire.clone();
                    let opener = async move {
                        tokio::time::sleep(Duration::from_millis(*ms)).await;
                        set_release(&wire, usize::MAX);
                    };
                    let (a, b, _) = tokio::join!(
                        tokio::time::timeout(LONG + Duration::from_millis(*ms), r.read()),
                        async {
                            let res = tokio::time::timeout(LONG, w.write(&pl)).await;
                            match res {
                                Ok(r) => sh.ret(id, wres(r)),
                                Err(_) => sh.ret(id, json!({"res": "hang"})),
                            }
                        },
                        opener
                    );
                    let _ = b;
                    match a {
                        Ok(r) => sh.read_done(Ok(Some(rres(r)))),
                        Err(_) => sh.read_done(Err("hang")),
                    }
                }
            }
            Op::Gate(d) => sh.close(*d, d % 2 == 0),
            Op::AwaitBlocked => {
                for _ in 0..3000 {
                    if lock(&sh.wire).blocked {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(100)).await;
                }
            }
            Op::Open => {
                sh.open();
                tokio::task::yield_now().await;
            }
            Op::Fail(d, k, h, t) => sh.arm(*d, *k, *h, *t),
            Op::Slow(d, s) => sh.slow(*d, s),
            Op::Split => conn.split(),
            Op::DropReader => {
                conn.split();
                if let AConn::Halves(r, _) = &mut conn {
                    drop(r.take());
                }
                sh.ev.push(json!({"op": "rgone"}));
            }
        }
    }
    sh.sync_log();
    let failing = p.ops.len() % 3 == 1;
    let reader = match std::mem::replace(&mut conn, AConn::None) {
        AConn::Whole(c) => {
            let_go(c, failing);
            None
        }
        AConn::Halves(r, w) => {
            let_go(w, failing);
            r
        }
        AConn::None => None,
    };
    sh.ev.push(json!({"op": "drop", "res": "ok"}));
    if sh.gated {
        tokio::time::sleep(Duration::from_millis(250)).await;
        sh.open();
    }
    tokio::time::sleep(Duration::from_secs(10)).await;
    sh.released();
    tokio::time::sleep(Duration::from_secs(30)).await;
    if let Some(mut r) = reader.filter(|_| !deaf) {
        match tokio::time::timeout(LONG, r.read()).await {
            Ok(x) => sh.read_done(Ok(Some(rres(x)))),
            Err(_) => sh.read_done(Err("hang")),
        }
    }
}

/// The reading half comes to nothing: an altered byte, a failure of the transport, the end.
fn break_reads(w: &Shared, how: u8, ahead: usize) {
    let mut g = lock(w);
    let at = (g.dlv + ahead).min(g.inb.len());
    match how {
        0 if at < g.inb.len() => g.inb[at] ^= 0x10,
        1 => {
            g.inb.truncate(at);
            g.end = End::Err(*[ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::Other, ErrorKind::BrokenPipe].get(ahead % 4).unwrap());
        }
        _ => {
            g.inb.truncate(at);
            g.end = End::Eof;
        }
    }
}

/// Drop it; `failing`: in the course of a panic of the caller's.
fn let_go<T>(v: T, failing: bool) {
    if failing {
        let _ = guarded(|| {
            let _v = v;
            std::panic::resume_unwind(Box::new(()));
        });
    } else {
        drop(v);
    }
}

fn arun_case(p: &Prog) -> Vec<Value> {
    let (mut sh, mr, mw, _g) = Sh::new(p);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    MY_PANICS.with(|c| c.set(0));
    let r = guarded(|| rt.block_on(async {
        crate::clock::follow(true);
        match &p.sched {
            Some(s) => areplay(p, s, &mut sh, mr, mw).await,
            None => arun(p, &mut sh, mr, mw).await,
        }
    }));
    crate::clock::follow(false);
    let mut panics = MY_PANICS.with(|c| c.get());
    if r.is_err() {
        panics = panics.max(1);
    }
    let _ = guarded(|| drop(rt));
    sh.end(panics);
    sh.ev
}

// ---------------------------------------------------------------------------------------------
// blocking

/// Real time to wait before something is called a hang.
const HANG: Duration = Duration::from_secs(25);
static HANGS: AtomicUsize = AtomicUsize::new(0);

/// Runs jobs on a value living in its own thread.
struct Actor<T: 'static> {
    tx: mpsc::Sender<Box<dyn FnOnce(&mut Option<T>) -> Value + Send>>,
    rx: mpsc::Receiver<Result<Value, ()>>,
}
impl<T: Send + 'static> Actor<T> {
    fn new(v: T) -> Actor<T> {
        let (tx, jobs) = mpsc::channel::<Box<dyn FnOnce(&mut Option<T>) -> Value + Send>>();
        let (done, rx) = mpsc::channel();
        std::thread::spawn(move || {
            OURS.with(|o| o.set(true));
            let mut v = Some(v);
            while let Ok(j) = jobs.recv() {
                let r = guarded(|| j(&mut v));
                if done.send(r).is_err() {
                    break;
                }
            }
            if guarded(|| drop(v)).is_err() {}
        });
        Actor { tx, rx }
    }
    fn begin(&self, f: impl FnOnce(&mut Option<T>) -> Value + Send + 'static) {
        let _ = self.tx.send(Box::new(f));
    }
    fn finish(&self) -> Value {
        match self.rx.recv_timeout(HANG) {
            Ok(Ok(v)) => v,
            Ok(Err(())) => json!({"res": "panic"}),
            Err(_) => {
                HANGS.fetch_add(1, SeqCst);
                json!({"res": "hang"})
            }
        }
    }
    fn call(&self, f: impl FnOnce(&mut Option<T>) -> Value + Send + 'static) -> Value {
        self.begin(f);
        self.finish()
    }
}
enum SConn {
    Whole(ti::ShapedProtocol<MR, MW>),
    Writer(ti::ShapedProtocolWriter<MW>),
}
impl SConn {
    fn write(&mut self, p: &Payload) -> Value {
        wres(match self {
            SConn::Whole(c) => c.write(p),
            SConn::Writer(w) => w.write(p),
        })
    }
}
fn rval(r: Result<Payload, ProtocolError>) -> Value {
    match rres(r) {
        Ok((t, c)) => json!({"res": "ok", "d": t == PacketType::Decoy, "c": c}),
        Err(v) => v,
    }
}
fn unrval(v: Value) -> Result<Option<Result<(PacketType, Vec<u8>), Value>>, &'static str> {
    match v["res"].as_str().unwrap() {
        "ok" => {
            let c = v["c"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
            Ok(Some(Ok((if v["d"] == true { PacketType::Decoy } else { PacketType::Genuine }, c))))
        }
        "hang" => Err("hang"),
        "panic" => Err("panic"),
        _ => Ok(Some(Err(v))),
    }
}

fn srun_case(p: &Prog) -> Vec<Value> {
    let (mut sh, mr, mw, rgate) = Sh::new(p);
    let before = FOREIGN_PANICS.load(SeqCst);
    match &p.sched {
        Some(s) => sreplay(p, s, &mut sh, mr, mw),
        None => srun(p, &mut sh, mr, mw, &rgate),
    }
    // nobody waits for good
    sh.open();
    {
        let (m, c) = &*rgate;
        m.lock().unwrap().0 = false;
        c.notify_all();
    }
    let panics = FOREIGN_PANICS.load(SeqCst) - before;
    sh.end(panics);
    sh.ev
}

fn srun(p: &Prog, sh: &mut Sh, mr: MR, mw: MW, rgate: &Gate) {
    let (role, pad, dec, way) = (p.role, p.pad, p.dec, p.ops.len());
    let boot = Actor::<(MR, MW)>::new((mr, mw));
    let (ctx, crx) = mpsc::channel();
    let r = boot.call(move |v| {
        let (mr, mw) = v.take().unwrap();
        match ti::ShapedProtocol::new(MAGIC, role, config(pad, dec, way), mr, mw) {
            Ok(c) => {
                let _ = ctx.send(c);
                json!({"res": "ok"})
            }
            Err(e) => crate::drv::perr(&e),
        }
    });
    if r["res"] != "ok" {
        let honest = r["res"] == "hang" || r["res"] == "panic";
        sh.hs(Err(r), p.peer_fails > 0 && !honest);
        sh.ev.push(json!({"op": "drop", "res": "ok"}));
        sh.released();
        nap(5);
        return;
    }
    sh.hs(Ok(()), p.peer_fails > 0);
    let whole = Actor::new(SConn::Whole(crx.recv().unwrap()));
    let mut reader: Option<Actor<ti::ShapedProtocolReader<MR>>> = None;
    let mut is_whole = true;
    fn split(is_whole: &mut bool, whole: &Actor<SConn>) -> Actor<ti::ShapedProtocolReader<MR>> {
        *is_whole = false;
        let (tx, rx) = mpsc::channel();
        whole.call(move |v| {
            if let Some(SConn::Whole(c)) = v.take() {
                let (r, w) = c.into_split();
                *v = Some(SConn::Writer(w));
                let _ = tx.send(r);
            }
            json!({})
        });
        Actor::new(rx.recv().unwrap())
    }
    let write = |sh: &mut Sh, n: usize, decoy: bool| -> bool {
        let (id, pl) = sh.new_call(n, decoy);
        whole.begin(move |v| v.as_mut().unwrap().write(&pl));
        if sh.gated {
            nap(6);
            sh.open();
        }
        let r = whole.finish();
        let go = r["res"] != "hang" && r["res"] != "panic";
        sh.ret(id, r);
        go
    };
    let mut deaf = false;
    for op in &p.ops {
        if deaf && matches!(op, Op::Read(..) | Op::StuckWrite(..) | Op::HeldRead(..) | Op::BreakReads(..)) {
            continue;
        }
        match op {
            Op::BreakReads(how, ahead) => {
                break_reads(&sh.wire, *how, *ahead);
                for _ in 0..14 {
                    let r = if is_whole {
                        whole.call(|v| match v.as_mut().unwrap() {
                            SConn::Whole(c) => rval(c.read()),
                            _ => unreachable!(),
                        })
                    } else if let Some(r) = &reader {
                        r.call(|v| rval(v.as_mut().unwrap().read()))
                    } else {
                        break;
                    };
                    let stop = r["res"] == "hang" || r["res"] == "panic";
                    if stop || r["res"] == "ok" {
                        sh.read_done(unrval(r));
                        if stop {
                            return;
                        }
                    } else {
                        break;
                    }
                }
                deaf = true;
                sh.ev.push(json!({"op": "rgone"}));
            }
            Op::Write(n, decoy, _) => {
                if !write(sh, *n, *decoy) {
                    return;
                }
            }
            Op::Big => {
                if !write(sh, 0x100_0000, false) {
                    return;
                }
            }
            Op::Burst(k) => {
                for i in 0..*k {
                    if !write(sh, i % 60, false) {
                        return;
                    }
                }
            }
            Op::Idle(ms) => {
                sh.sync_log();
                let (gated, before) = (sh.gated, sh.decoys_seen);
                let t0 = Instant::now();
                // At most as long as asked for, in real time, but no longer than it takes.
                let want = p.dec && !gated && *ms >= 20_000 && !sh.torn;
                loop {
                    nap(3);
                    let passed = t0.elapsed().as_millis() as u64;
                    sh.sync_log();
                    let n = sh.decoys_seen - before;
                    let done = if want { n > 0 || sh.torn || passed >= *ms } else { passed * SPEED as u64 >= *ms };
                    if done {
                        let ms = if want && passed >= *ms { *ms } else { (passed * SPEED as u64).min(*ms).min(19_000) };
                        sh.ev.push(json!({"op": "idle", "ms": ms, "n": n, "gated": gated}));
                        break;
                    }
                }
            }
            Op::Read(chunk, _) => {
                lock(&sh.wire).rdefault = (*chunk).max(1);
                if *chunk < 8 {
                    lock(&sh.wire).rscript.extend([Act::Pause, Act::Chunk(1), Act::Pause, Act::Chunk(5)]);
                }
                let r = if is_whole {
                    whole.call(|v| match v.as_mut().unwrap() {
                        SConn::Whole(c) => rval(c.read()),
                        _ => unreachable!(),
                    })
                } else if let Some(r) = &reader {
                    r.call(|v| rval(v.as_mut().unwrap().read()))
                } else {
                    continue;
                };
                let stop = r["res"] == "hang" || r["res"] == "panic";
                sh.read_done(unrval(r));
                if stop {
                    return;
                }
            }
            Op::StuckWrite(n, reads) => {
                if is_whole {
                    reader = Some(split(&mut is_whole, &whole));
                }
                let Some(r) = &reader else { continue };
                sh.close(*n / 2, false);
                let (id, pl) = sh.new_call(*n, false);
                whole.begin(move |v| v.as_mut().unwrap().write(&pl));
                let t0 = Instant::now();
                while !lock(&sh.wire).blocked && t0.elapsed() < Duration::from_secs(20) {
                    nap(2);
                }
                sh.stuck = true;
                for _ in 0..*reads {
                    let v = r.call(|v| rval(v.as_mut().unwrap().read()));
                    let stop = v["res"] == "hang" || v["res"] == "panic";
                    sh.read_done(unrval(v));
                    if stop {
                        return;
                    }
                }
                sh.stuck = false;
                sh.open();
                let v = whole.finish();
                let stop = v["res"] == "hang" || v["res"] == "panic";
                sh.ret(id, v);
                if stop {
                    return;
                }
            }
            Op::HeldRead(n, _) => {
                if is_whole {
                    reader = Some(split(&mut is_whole, &whole));
                }
                let Some(r) = &reader else { continue };
                let (m, c) = &**rgate;
                *m.lock().unwrap() = (true, false);
                r.begin(|v| rval(v.as_mut().unwrap().read()));
                {
                    let mut g = m.lock().unwrap();
                    let t0 = Instant::now();
                    while !g.1 && t0.elapsed() < Duration::from_secs(2) {
                        g = c.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                    }
                }
                let go = write(sh, *n, false);
                m.lock().unwrap().0 = false;
                c.notify_all();
                let v = r.finish();
                let stop = v["res"] == "hang" || v["res"] == "panic";
                sh.read_done(unrval(v));
                if stop || !go {
                    return;
                }
            }
            Op::Gate(d) => sh.close(*d, d % 2 == 0),
            Op::AwaitBlocked => {
                let t0 = Instant::now();
                while !lock(&sh.wire).blocked && t0.elapsed() < Duration::from_secs(20) {
                    nap(2);
                }
            }
            Op::Open => sh.open(),
            Op::Fail(d, k, h, t) => sh.arm(*d, *k, *h, *t),
            Op::Slow(d, s) => sh.slow(*d, s),
            Op::Split => {
                if is_whole {
                    reader = Some(split(&mut is_whole, &whole));
                }
            }
            Op::DropReader => {
                if is_whole {
                    reader = Some(split(&mut is_whole, &whole));
                }
                if let Some(r) = reader.take() {
                    r.call(|v| {
                        drop(v.take());
                        json!({"res": "ok"})
                    });
                }
                sh.ev.push(json!({"op": "rgone"}));
            }
        }
    }
    sh.sync_log();
    let failing = p.ops.len() % 3 == 1;
    whole.begin(move |v| {
        let_go(v.take(), failing);
        json!({"res": "ok"})
    });
    if sh.gated {
        nap(8);
        sh.open();
    }
    let r = whole.finish();
    let ok = r["res"] == "ok";
    sh.ev.push(merge(json!({"op": "drop"}), r));
    sh.released();
    if !ok {
        return;
    }
    nap(15);
    sh.sync_log();
    if let Some(r) = reader.filter(|_| !deaf) {
        let v = r.call(|v| rval(v.as_mut().unwrap().read()));
        sh.read_done(unrval(v));
    }
}

// ---------------------------------------------------------------------------------------------
// running

fn run_all(log: &mut Log, progs: Vec<Prog>, threads: usize) {
    hook();
    let n = progs.len();
    let progs = std::sync::Arc::new(progs);
    let next = std::sync::Arc::new(AtomicUsize::new(0));
    let (tx, rx) = mpsc::channel::<(usize, Option<Vec<Value>>)>();
    for _ in 0..threads.min(n.max(1)) {
        let (progs, next, tx) = (progs.clone(), next.clone(), tx.clone());
        std::thread::spawn(move || {
            OURS.with(|o| o.set(true));
            loop {
                let k = next.fetch_add(1, SeqCst);
                if k >= progs.len() {
                    break;
                }
                let p = &progs[k];
                let ev = if HANGS.load(SeqCst) >= 4 {
                    None
                } else if p.is_async {
                    Some(arun_case(p))
                } else {
                    Some(srun_case(p))
                };
                if tx.send((k, ev)).is_err() {
                    break;
                }
            }
        });
    }
    drop(tx);
    let mut got: Vec<Option<Option<Vec<Value>>>> = (0..n).map(|_| None).collect();
    let mut at = 0;
    while let Ok((k, ev)) = rx.recv() {
        got[k] = Some(ev);
        while at < n {
            let Some(ev) = got[at].take() else { break };
            if let Some(ev) = ev {
                log.case(&progs[at].props, progs[at].desc.clone());
                for e in ev {
                    log.ev(e);
                }
            }
            at += 1;
        }
    }
}

const SIZES: [usize; 9] = [0, 1, 15, 16, 17, 100, 1000, 4096, 70_000];
const KINDS: [ErrorKind; 10] = [
    ErrorKind::Other,
    ErrorKind::NotConnected,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionAborted,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
];
const ALLP: [&str; 10] = ["C15", "C16", "C17", "C18", "C01", "C04", "C08", "C13", "C14", "C21"];

fn base(c: &Cfg, is_async: bool, k: usize, tag: u64) -> (Prog, Rng) {
    let seed = c.seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(tag * 1_000_003 + k as u64);
    let p = Prog {
        is_async,
        role: if k & 1 == 0 { Role::Initiator } else { Role::Responder },
        pad: k & 2 != 0,
        dec: k & 4 != 0,
        ops: vec![],
        seed,
        desc: String::new(),
        props: ALLP.to_vec(),
        peer_fails: 0,
        big_peer: 0,
        sched: None,
    };
    (p, Rng::new(seed, tag))
}

fn name(p: &mut Prog, what: &str) {
    p.desc = format!(
        "shaped {} {:?} padding={} decoys={} {what} {:?}",
        if p.is_async { "async" } else { "blocking" },
        p.role,
        p.pad,
        p.dec,
        p.ops
    );
    if p.desc.len() > 600 {
        p.desc.truncate(600);
    }
}

fn rnd_slow(r: &mut Rng) -> Op {
    let mut s = vec![];
    for _ in 0..r.below(12) {
        s.push(if r.chance(40) { Act::Pause } else { Act::Chunk(r.range(1, 30)) });
    }
    Op::Slow(if r.chance(50) { r.range(1, 50) } else { usize::MAX }, s)
}

/// Everything a caller can do on a working transport.
pub fn mixed(log: &mut Log, c: &Cfg, is_async: bool) {
    fast(!is_async);
    let n = match (is_async, c.thorough) {
        (true, false) => 700,
        (true, true) => 20_000,
        (false, false) => 240,
        (false, true) => 4000,
    };
    let mut v = vec![];
    for k in 0..n {
        let (mut p, mut r) = base(c, is_async, k, 1);
        let mut reads = 0;
        for _ in 0..r.range(3, 14) {
            let op = match r.below(100) {
                0..=29 => Op::Write(*r.pick(&SIZES), r.chance(10), None),
                30..=44 => Op::Write(*r.pick(&SIZES), r.chance(10), Some(r.range(1, 3))),
                45..=59 => Op::Idle(*r.pick(&[0u64, 40, 100, 350, 1500])),
                60..=64 if is_async || r.chance(25) => Op::Idle(20_000),
                65..=72 if reads < 10 => {
                    reads += 1;
                    Op::Read(*r.pick(&[1usize, 7, usize::MAX]), if is_async && r.chance(50) { Some(r.range(1, 4)) } else { None })
                }
                73..=75 if reads < 10 => {
                    reads += 1;
                    Op::HeldRead(*r.pick(&SIZES), 2000)
                }
                76..=82 => Op::Gate(r.below(60)),
                83..=86 => Op::Open,
                87..=92 => rnd_slow(&mut r),
                93..=94 => Op::Split,
                95 => Op::DropReader,
                98 => Op::BreakReads(r.below(3) as u8, *r.pick(&[0usize, 2, 5, 40, 400])),
                96..=97 => Op::Burst(r.range(2, 12)),
                _ => continue,
            };
            p.ops.push(op);
        }
        name(&mut p, "mixed");
        v.push(p);
    }
    // Reading while the transport does not take what is written.
    for k in 0..8 {
        let (mut p, _) = base(c, is_async, k, 18);
        p.ops = vec![Op::StuckWrite(50, 3), Op::Write(20, false, None), Op::Idle(300), Op::StuckWrite(3000, 2), Op::Read(usize::MAX, None), Op::StuckWrite(0, 1)];
        name(&mut p, "reads while a write is held up");
        v.push(p);
    }
    // Many cancelled writes are waiting for the transport.
    if is_async {
        for k in 0..24 {
            let (mut p, mut r) = base(c, is_async, k, 14);
            p.ops.push(Op::Gate(r.below(60)));
            for _ in 0..[3, 20, 70, 300][k / 8 % 3 + usize::from(k == 23)] {
                p.ops.push(Op::Write(r.range(0, 30), r.chance(10), Some(1)));
            }
            if r.chance(50) {
                p.ops.push(Op::Open);
            }
            p.ops.extend([Op::Write(40, false, None), Op::Idle(300), Op::Write(41, false, None)]);
            name(&mut p, "many cancelled writes");
            v.push(p);
        }
    }
    run_all(log, v, if is_async { 8 } else { 24 });
}

/// The transport fails at some point.
pub fn fails(log: &mut Log, c: &Cfg, is_async: bool) {
    fast(!is_async);
    let n = match (is_async, c.thorough) {
        (true, false) => 900,
        (true, true) => 20_000,
        (false, false) => 280,
        (false, true) => 4000,
    };
    let mut v = vec![];
    for k in 0..n {
        let (mut p, mut r) = base(c, is_async, k, 2);
        let pick = |r: &mut Rng| {
            let how = *r.pick(&[How::Write, How::Write, How::Zero, How::Flush]);
            let d = if r.chance(30) { r.below(4) } else if r.chance(50) { r.below(60) } else { r.below(1200) };
            Op::Fail(d, *r.pick(&KINDS), how, r.chance(40))
        };
        match k / 8 % 4 {
            // in a background decoy (if there are any)
            0 => {
                if r.chance(50) {
                    p.ops.push(Op::Write(*r.pick(&SIZES), r.chance(15), None));
                }
                p.ops.push(Op::Fail(r.below(20), *r.pick(&KINDS), *r.pick(&[How::Write, How::Zero, How::Flush]), r.chance(50)));
                p.ops.push(Op::Idle(20_000));
                if r.chance(60) {
                    p.ops.push(Op::Idle(if r.chance(50) { 1000 } else { 6000 }));
                }
            }
            // with commands waiting
            1 => {
                p.ops.push(Op::Gate(r.below(40)));
                for _ in 0..r.range(1, 3) {
                    p.ops.push(Op::Write(*r.pick(&SIZES[..7]), false, Some(1)));
                }
                p.ops.push(pick(&mut r));
                if r.chance(50) {
                    p.ops.push(Op::Open);
                }
            }
            _ => {
                for _ in 0..r.below(4) {
                    p.ops.push(Op::Write(*r.pick(&SIZES[..7]), false, None));
                }
                p.ops.push(pick(&mut r));
            }
        }
        if r.chance(15) {
            p.ops.push(Op::Split);
        }
        for _ in 0..r.range(1, 5) {
            if r.chance(20) {
                p.ops.push(Op::Idle(*r.pick(&[100u64, 500])));
            }
            p.ops.push(Op::Write(*r.pick(&SIZES[..7]), r.chance(15), if r.chance(15) { Some(1) } else { None }));
        }
        if r.chance(20) {
            p.ops.push(Op::Read(usize::MAX, None));
        }
        name(&mut p, "failing");
        v.push(p);
    }
    // every kind of failure in a background decoy, in the padding, in a packet
    for (j, kind) in crate::drv_scn::KINDS.into_iter().enumerate() {
        for place in 0..3 {
            let (mut p, mut r) = base(c, is_async, [4, 2, 0][place] + j % 2, 13);
            p.seed += 7 * j as u64;
            let how = *r.pick(&[How::Write, How::Flush]);
            p.ops = vec![Op::Write(5, false, None), Op::Fail(r.below(15), kind, how, j % 3 == 0)];
            match place {
                0 => p.ops.push(Op::Idle(20_000)),
                _ => p.ops.push(Op::Write(40, false, None)),
            }
            p.ops.extend([Op::Idle(1000), Op::Write(30, j % 4 == 1, None), Op::Write(31, false, None)]);
            name(&mut p, "every kind of failure");
            v.push(p);
        }
    }
    // an interrupted call: `write_all` of std tries it again, nothing else does
    for j in 0..6 {
        let (mut p, mut r) = base(c, is_async, [4, 2, 0][j % 3] + j / 3, 14);
        let how = if is_async && j % 2 == 0 { How::Write } else { How::Flush };
        p.ops = vec![Op::Write(5, false, None), Op::Fail(r.below(15), ErrorKind::Interrupted, how, false)];
        match j % 3 {
            0 => p.ops.push(Op::Idle(20_000)),
            _ => p.ops.push(Op::Write(40, false, None)),
        }
        p.ops.extend([Op::Idle(1000), Op::Write(30, j % 4 == 1, None), Op::Write(31, false, None)]);
        name(&mut p, "interrupted");
        v.push(p);
    }
    run_all(log, v, if is_async { 8 } else { 24 });
}

/// Dropping at awkward moments.
pub fn drops(log: &mut Log, c: &Cfg, is_async: bool) {
    fast(!is_async);
    let n = match (is_async, c.thorough) {
        (true, false) => 400,
        (true, true) => 8000,
        (false, false) => 160,
        (false, true) => 2000,
    };
    let mut v = vec![];
    for k in 0..n {
        let (mut p, mut r) = base(c, is_async, k, 3);
        let split = k / 8 % 2 == 1;
        if split {
            p.ops.push(if r.chance(30) { Op::DropReader } else { Op::Split });
        }
        match k / 16 % 5 {
            0 => {}
            1 => p.ops.push(Op::Idle(r.below(400) as u64)),
            // accepted, not yet written
            2 => {
                if !is_async {
                    p.ops.push(Op::Write(50, false, None));
                }
                p.ops.push(Op::Gate(r.below(1300)));
                for _ in 0..r.range(1, 4) {
                    p.ops.push(if is_async { Op::Write(*r.pick(&SIZES[..7]), false, Some(1)) } else { Op::Idle(10) });
                }
                if r.chance(40) {
                    p.ops.push(Op::Idle(r.below(600) as u64));
                }
            }
            // in the middle of a decoy
            3 => {
                p.ops.push(Op::Gate(r.below(30)));
                if p.dec {
                    p.ops.push(Op::AwaitBlocked);
                }
                if is_async && r.chance(50) {
                    p.ops.push(Op::Write(*r.pick(&SIZES[..7]), false, Some(1)));
                }
            }
            _ => {
                p.ops.push(Op::Write(*r.pick(&SIZES[..7]), false, None));
                p.ops.push(Op::Idle(r.below(200) as u64));
                p.ops.push(Op::Fail(r.below(30), *r.pick(&KINDS), How::Write, false));
                if r.chance(50) {
                    p.ops.push(Op::Write(*r.pick(&SIZES[..7]), false, None));
                }
            }
        }
        name(&mut p, "dropped");
        v.push(p);
    }
    // one half goes, the other goes on
    for k in 0..16 {
        let (mut p, _) = base(c, is_async, k, 15);
        p.ops = vec![
            Op::Write(5, false, None), Op::DropReader, Op::Idle(20_000), Op::Write(300, k % 3 == 0, None), Op::Idle(20_000), Op::Burst(9), Op::Idle(20_000),
        ];
        if k >= 8 {
            p.ops.remove(0);
        }
        name(&mut p, "reader dropped");
        v.push(p);
    }
    for k in 0..72 {
        let (mut p, mut r) = base(c, is_async, k, 19);
        let how = (k / 8 % 3) as u8;
        p.ops = vec![
            Op::Write(5, false, None), Op::BreakReads(how, *r.pick(&[0usize, 1, 2, 3, 5, 40, 400])), Op::Idle(20_000), Op::Write(300, k % 3 == 0, None),
            Op::Idle(20_000), Op::Burst(9), Op::Idle(20_000),
        ];
        if k >= 24 {
            p.ops.insert(1, Op::Split);
        }
        if k >= 48 {
            p.ops.insert(1, Op::Read(usize::MAX, None));
        }
        name(&mut p, "reader fails");
        v.push(p);
    }
    // failed handshakes leave nothing behind
    for k in 0..32 {
        let (mut p, _) = base(c, is_async, k, 4);
        p.peer_fails = 1 + (k / 8) as u8;
        let what = format!("handshake fails {}", p.peer_fails);
        name(&mut p, &what);
        v.push(p);
    }
    run_all(log, v, if is_async { 8 } else { 24 });
}

/// How much is sent: sizes and numbers over long runs.
pub fn amounts(log: &mut Log, c: &Cfg, is_async: bool) {
    fast(!is_async);
    let mut v = vec![];
    let bursts = if c.thorough { 4000 } else { 500 };
    for k in 0..8 {
        let (mut p, _) = base(c, is_async, k, 5);
        p.ops = vec![Op::Burst(if !p.pad { 60 } else if k == 2 || k == 7 { bursts.max(2100) } else { bursts })];
        name(&mut p, "many writes");
        v.push(p);
    }
    for k in 0..8 {
        let (mut p, _) = base(c, is_async, k, 6);
        if is_async {
            p.ops = vec![Op::Idle(if c.thorough { 36_000_000 } else { 7_200_000 }), Op::Write(5, false, None)];
            for _ in 0..30 {
                p.ops.push(Op::Idle(20_000));
            }
        } else {
            // 15 in 100 ticks of (100 / SPEED) ms
            for _ in 0..(if c.thorough { 400 } else { 40 }) {
                p.ops.push(Op::Idle(if p.dec { 19_000 } else { 1000 }));
            }
            p.ops.push(Op::Write(5, false, None));
            p.ops.push(Op::Idle(20_000));
        }
        name(&mut p, "idle for long");
        v.push(p);
    }
    for k in 0..4 {
        let (mut p, _) = base(c, is_async, 2 * k, 7);
        p.ops = vec![Op::Write(3, false, None), Op::Big, Op::Write(9, false, None), Op::Idle(20_000), Op::Write(0, false, None)];
        name(&mut p, "too big");
        v.push(p);
    }
    // large packets
    let large = [
        4095usize, 8191, 8192, 16_383, 16_384, 32_767, 32_768, 65_519, 65_535, 65_536, 65_537, 99_999, 100_001, 131_072, 200_000, 262_145, 524_287,
        1 << 20, (1 << 20) + 1, 2_000_000, 3_999_999, 4_000_014, 4_194_304, 5_000_000, (1 << 23) + 1, (1 << 24) - 1,
    ];
    for (j, n) in large.into_iter().enumerate() {
        for k in 0..if n < 1 << 20 { 4 } else { 2 } {
            let (mut p, mut r) = base(c, is_async, if n < 1 << 20 { 2 * k + j % 2 } else { [2, 6][k] + j % 2 }, 9);
            p.seed += 31 * j as u64;
            let reps = if n < 1 << 18 { 6 } else { 3 };
            for i in 0..reps {
                p.ops.push(Op::Write(n, r.chance(15), if is_async && i == 1 && r.chance(30) { Some(2) } else { None }));
                if i == 2 {
                    p.ops.push(Op::Write(5, false, None));
                    p.ops.push(Op::Idle(300));
                }
            }
            name(&mut p, "large writes");
            v.push(p);
        }
    }
    // stalled for long, then idle: decoys resume
    for k in 0..8 {
        for (j, d) in (if is_async { [5_500u64, 31_000, 61_000, 700_000, 4_000_000, 90_000_000] } else { [5_500, 12_000, 31_000, 61_000, 130_000, 190_000] }).into_iter().enumerate() {
            let (mut p, _) = base(c, is_async, k, 11);
            p.seed += 17 * j as u64;
            p.ops = vec![
                Op::Write(5, false, None), Op::Gate(0), Op::Idle(d), Op::Open, Op::Idle(20_000), Op::Write(7, false, None), Op::Idle(20_000),
                Op::Read(usize::MAX, None), Op::Idle(20_000),
            ];
            name(&mut p, "stalled for long");
            v.push(p);
        }
    }
    for k in 0..if c.thorough { 400 } else { 32 } {
        let (mut p, mut r) = base(c, is_async, k, 12);
        p.big_peer = 2;
        for _ in 0..12 {
            p.ops.push(Op::Read(*r.pick(&[usize::MAX, 1460, 100]), if is_async && r.chance(30) { Some(r.range(1, 3)) } else { None }));
            if r.chance(20) {
                p.ops.push(Op::Write(9, false, None));
            }
        }
        name(&mut p, "reads of packets like padding");
        v.push(p);
    }
    for k in 0..8 {
        let (mut p, _) = base(c, is_async, k, 10);
        p.big_peer = 1;
        for i in 0..9 {
            p.ops.push(Op::Read([usize::MAX, 4096, 1460, 65_536][(i + k) % 4], if is_async && i % 3 == 1 { Some(3) } else { None }));
            if i % 3 == 2 {
                p.ops.push(Op::Write(100, false, None));
            }
        }
        name(&mut p, "large reads");
        v.push(p);
    }
    // a connection which receives far more than it sends still emits decoys
    for k in 4..8 {
        let (mut p, _) = base(c, is_async, k, 16);
        p.big_peer = 3;
        p.ops = vec![Op::Read(usize::MAX, None); 5];
        p.ops.extend([Op::Idle(20_000), Op::Write(100, false, None), Op::Read(usize::MAX, None), Op::Idle(20_000)]);
        name(&mut p, "one-sided");
        v.push(p);
    }
    // a read that waits for long
    if is_async {
        for k in 0..8 {
            let (mut p, _) = base(c, is_async, k, 17);
            for ms in if p.dec { [20_000u64, 61_000, 700_000, 4_000_000] } else { [61_000, 4_000_000, 40_000_000, 90_000_000] } {
                p.ops.extend([Op::HeldRead(20, ms), Op::Write(30, false, None), Op::Read(usize::MAX, None)]);
            }
            name(&mut p, "a long wait for the peer");
            v.push(p);
        }
    }
    run_all(log, v, if is_async { 8 } else { 24 });
}

/// Handshakes, many of them; one event sums up a batch.
pub fn handshakes(log: &mut Log, c: &Cfg) {
    hook();
    fast(true);
    let per = if c.thorough { 20_000 } else { 1500 };
    let mut jobs = vec![];
    for k in 0..32usize {
        let seed = c.seed;
        let cfg = Cfg { seed, thorough: c.thorough };
        jobs.push((k, std::thread::spawn(move || {
            OURS.with(|o| o.set(true));
            let is_async = k & 1 == 0;
            let (pad, dec) = (k & 2 != 0, k & 4 != 0);
            // blocking connections come with a thread to wait for
            let n = if !pad && !dec { 50 } else if is_async { per } else { per / 6 };
            let mut sum: Option<Value> = None;
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
            for i in 0..n {
                let (mut p, _) = base(&cfg, is_async, i * 32 + k, 8);
                p.role = if k & 8 == 0 { Role::Initiator } else { Role::Responder };
                p.pad = pad;
                p.dec = dec;
                let (mut sh, mr, mw, _g) = Sh::new(&p);
                let r = guarded(|| {
                    if is_async {
                        rt.block_on(async {
                            match tokio::time::timeout(LONG, tf::ShapedProtocol::new(MAGIC, p.role, config(pad, dec, i), mr, mw)).await {
                                Ok(Ok(_)) => Ok(()),
                                Ok(Err(e)) => Err(crate::drv::perr(&e)),
                                Err(_) => Err(json!({"res": "hang"})),
                            }
                        })
                    } else {
                        // the connection is dropped by a thread of its own
                        match ti::ShapedProtocol::new(MAGIC, p.role, config(pad, dec, i), mr, mw) {
                            Ok(c) => {
                                std::thread::spawn(move || drop(c));
                                Ok(())
                            }
                            Err(e) => Err(crate::drv::perr(&e)),
                        }
                    }
                });
                sh.hs(r.unwrap_or_else(|_| Err(json!({"res": "panic"}))), false);
                let e = sh.ev.pop().unwrap();
                let bad = e["res"] != "ok" || e["wellformed"] != true;
                sum = Some(match sum {
                    None => e,
                    Some(_) if bad => e,
                    Some(s) => {
                        let g = |v: &Value, k: &str| v[k].as_u64().unwrap();
                        let mut m = s.clone();
                        m["g"] = g(&s, "g").max(g(&e, "g")).into();
                        if g(&e, "nd") > 0 {
                            m["min"] = if g(&s, "nd") == 0 { e["min"].clone() } else { g(&s, "min").min(g(&e, "min")).into() };
                            m["max"] = g(&s, "max").max(g(&e, "max")).into();
                            m["nd"] = g(&s, "nd").max(g(&e, "nd")).into();
                        }
                        m
                    }
                });
                if bad {
                    break;
                }
            }
            (is_async, pad, dec, n, sum.unwrap())
        })));
    }
    for (k, j) in jobs {
        let (is_async, pad, dec, n, sum) = j.join().unwrap();
        let iface = if is_async { "async" } else { "sync" };
        log.case(&["C15", "C16"], format!("{n} shaped handshakes {iface} padding={pad} decoys={dec} ({k})"));
        log.ev(json!({"op": "shape", "iface": iface, "pad": pad, "dec": dec}));
        log.ev(sum);
    }
}

// ---------------------------------------------------------------------------------------------
// schedules generated from the specification

impl Sh {
    /// Let the transport take part of a packet, or the rest of it.
    fn step_part(&mut self) {
        let n = self.rng.range(1, 19);
        let at = lock(&self.wire).out.len();
        // never past the end of a packet that was started
        let at = if at > self.pos { at } else { at + n };
        set_gate(&self.wire, at);
    }
    /// Where the packet being written ends, once its length is on the wire.
    fn packet_end(&mut self) -> Option<usize> {
        let mut g = lock(&self.wire);
        if !self.hs_done || g.out.len() < self.pos + 3 {
            return None;
        }
        let mut sess = g.sess.take().unwrap();
        let f: [u8; 3] = g.out[self.pos..self.pos + 3].try_into().unwrap();
        let n = sess.dir[self.mine].dec_len(self.idx, f) + 20;
        g.sess = Some(sess);
        Some(self.pos + n)
    }
    fn free(&mut self) {
        self.gated = false;
        set_gate(&self.wire, usize::MAX);
    }
}

async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}

type WFut = Pin<Box<dyn Future<Output = Result<(), ProtocolError>>>>;

async fn areplay(p: &Prog, sched: &[String], sh: &mut Sh, mr: MR, mw: MW) {
    use std::rc::Rc;
    use tokio::sync::Mutex as AMutex;
    let conn = match tf::ShapedProtocol::new(MAGIC, p.role, config(p.pad, p.dec, p.ops.len()), mr, mw).await {
        Ok(c) => c,
        Err(e) => {
            sh.hs(Err(crate::drv::perr(&e)), false);
            return;
        }
    };
    sh.hs(Ok(()), false);
    let (reader, writer) = conn.into_split();
    let mut writer = Some(Rc::new(AMutex::new(writer)));
    settle().await;
    sh.sync_log();
    sh.close(0, false);
    let mut out: Option<(usize, WFut)> = None;
    async fn look(sh: &mut Sh, out: &mut Option<(usize, WFut)>) {
        settle().await;
        let done = match out {
            Some((id, f)) => {
                let r = std::future::poll_fn(|cx| Poll::Ready(match f.as_mut().poll(cx) {
                    Poll::Ready(v) => Some(v),
                    Poll::Pending => None,
                }))
                .await;
                r.map(|v| (*id, v))
            }
            None => None,
        };
        if let Some((id, v)) = done {
            *out = None;
            sh.ret(id, wres(v));
        }
        settle().await;
        sh.sync_log();
    }
    fn give_up(sh: &mut Sh, out: &mut Option<(usize, WFut)>) {
        if let Some((id, f)) = out.take() {
            drop(f);
            sh.sync_log();
            sh.ev.push(json!({"op": "cancel", "id": id}));
        }
    }
    let mut failed = false;
    for a in sched {
        match a.as_str() {
            "call" => {
                give_up(sh, &mut out);
                if let Some(w) = &writer {
                    let n = *sh.rng.pick(&[0usize, 1, 40, 3000]);
                    let (id, pl) = sh.new_call(n, false);
                    let w = w.clone();
                    out = Some((id, Box::pin(async move { w.lock().await.write(&pl).await })));
                }
            }
            "cancel" => give_up(sh, &mut out),
            "tick" => {
                for _ in 0..150 {
                    if lock(&sh.wire).blocked || failed {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(100)).await;
                }
            }
            "part" if !failed => sh.step_part(),
            "rest" if !failed => {
                if sh.packet_end().is_none() {
                    set_gate(&sh.wire, sh.pos + 3);
                    settle().await;
                }
                match sh.packet_end() {
                    Some(e) => set_gate(&sh.wire, e),
                    None => sh.step_part(),
                }
            }
            "fail" if !failed => {
                failed = true;
                let (k, h, t) = (*sh.rng.pick(&KINDS), *sh.rng.pick(&[How::Write, How::Write, How::Zero]), sh.rng.chance(50));
                sh.arm(0, k, h, t);
                sh.free();
            }
            "drop" => {
                give_up(sh, &mut out);
                sh.sync_log();
                if writer.take().is_some() {
                    sh.ev.push(json!({"op": "drop", "res": "ok"}));
                }
            }
            _ => {}
        }
        look(sh, &mut out).await;
    }
    if out.is_some() {
        sh.free();
        settle().await;
        look(sh, &mut out).await;
        if let Some((id, f)) = out.take() {
            match tokio::time::timeout(LONG, f).await {
                Ok(r) => sh.ret(id, wres(r)),
                Err(_) => sh.ret(id, json!({"res": "hang"})),
            }
        }
    }
    sh.sync_log();
    if writer.take().is_some() {
        sh.ev.push(json!({"op": "drop", "res": "ok"}));
    }
    sh.free();
    tokio::time::sleep(Duration::from_secs(10)).await;
    sh.released();
    tokio::time::sleep(Duration::from_secs(30)).await;
    drop(reader);
}

fn sreplay(p: &Prog, sched: &[String], sh: &mut Sh, mr: MR, mw: MW) {
    let conn = match ti::ShapedProtocol::new(MAGIC, p.role, config(p.pad, p.dec, p.ops.len()), mr, mw) {
        Ok(c) => c,
        Err(e) => {
            sh.hs(Err(crate::drv::perr(&e)), false);
            return;
        }
    };
    sh.hs(Ok(()), false);
    sh.close(0, false);
    let (reader, writer) = conn.into_split();
    let whole = Actor::new(SConn::Writer(writer));
    let mut out: Option<usize> = None;
    let mut dropping = false;
    let mut failed = false;
    // Wait until somebody waits at the gate or the call is done.
    fn look(sh: &mut Sh, whole: &Actor<SConn>, out: &mut Option<usize>, dropping: bool, ms: u64) -> bool {
        let t0 = Instant::now();
        loop {
            if let Some(id) = *out {
                match whole.rx.try_recv() {
                    Ok(r) => {
                        let r = r.unwrap_or_else(|_| json!({"res": "panic"}));
                        let go = r["res"] != "panic";
                        *out = None;
                        sh.ret(id, r);
                        return go;
                    }
                    Err(mpsc::TryRecvError::Empty) => {}
                    Err(_) => return false,
                }
            }
            if lock(&sh.wire).blocked || t0.elapsed() >= Duration::from_millis(ms) || dropping {
                break;
            }
            nap(1);
        }
        sh.sync_log();
        true
    }
    fn finish(sh: &mut Sh, whole: &Actor<SConn>, out: &mut Option<usize>) -> bool {
        if let Some(id) = out.take() {
            sh.free();
            let r = whole.finish();
            let go = r["res"] != "hang" && r["res"] != "panic";
            sh.ret(id, r);
            sh.close(0, false);
            return go;
        }
        true
    }
    for a in sched {
        let mut ms = 8;
        match a.as_str() {
            "call" if !dropping => {
                if !finish(sh, &whole, &mut out) {
                    return;
                }
                if failed {
                    sh.free();
                }
                let n = *sh.rng.pick(&[0usize, 1, 40, 3000]);
                let (id, pl) = sh.new_call(n, false);
                whole.begin(move |v| v.as_mut().unwrap().write(&pl));
                out = Some(id);
            }
            "tick" => ms = 3000,
            "part" if !failed => sh.step_part(),
            "rest" if !failed => {
                if sh.packet_end().is_none() {
                    set_gate(&sh.wire, sh.pos + 3);
                    for _ in 0..10 {
                        if lock(&sh.wire).blocked {
                            break;
                        }
                        nap(1);
                    }
                }
                match sh.packet_end() {
                    Some(e) => set_gate(&sh.wire, e),
                    None => sh.step_part(),
                }
            }
            "fail" if !failed => {
                failed = true;
                let (k, h, t) = (*sh.rng.pick(&KINDS), *sh.rng.pick(&[How::Write, How::Write, How::Zero]), sh.rng.chance(50));
                sh.arm(0, k, h, t);
                sh.free();
            }
            "drop" if !dropping => {
                if !finish(sh, &whole, &mut out) {
                    return;
                }
                sh.sync_log();
                dropping = true;
                whole.begin(|v| {
                    drop(v.take());
                    json!({"res": "ok"})
                });
            }
            _ => {}
        }
        if failed && ms > 100 {
            ms = 20;
        }
        if !look(sh, &whole, &mut out, dropping, ms) {
            return;
        }
    }
    if !finish(sh, &whole, &mut out) {
        return;
    }
    sh.free();
    if !dropping {
        sh.sync_log();
        whole.begin(|v| {
            drop(v.take());
            json!({"res": "ok"})
        });
    }
    let r = whole.finish();
    sh.ev.push(merge(json!({"op": "drop"}), r));
    sh.released();
    nap(10);
    drop(reader);
}

pub fn replay(log: &mut Log, c: &Cfg, file: &str) {
    fast(true);
    let text = std::fs::read_to_string(file).expect("schedules");
    let mut progs = vec![];
    for (k, l) in text.lines().enumerate() {
        let v: Value = serde_json::from_str(l).expect("schedule");
        let a = v.as_array().unwrap();
        let (mut p, _) = base(c, a[0][0] == "async", k, 20);
        p.pad = a[0][1] == true;
        p.dec = a[0][2] == true;
        let sched: Vec<String> = a[1..].iter().map(|x| x.as_str().unwrap().to_string()).collect();
        name(&mut p, &sched.join(" "));
        p.sched = Some(sched);
        progs.push(p);
    }
    run_all(log, progs, 24);
}
