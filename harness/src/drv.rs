//! Drives the blocking and asynchronous interfaces over a scripted transport whose far end is the
//! reference implementation, and logs what the driver did.
use crate::log::{guarded, Log, Rng};
use crate::low::MAGIC;
use crate::refimpl::{self, RefSession};
use crate::sess::{at, pt_name, rname};
use bip324::io::{Payload, ProtocolError, ProtocolFailureSuggestion};
use bip324_traffic::{futures as tf, io as ti, DecoyStrategy, PaddingStrategy, TrafficConfig};
use bip324::{futures as fu, io as bio, InboundCipher, OutboundCipher, PacketType, Role};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::future::Future;
use std::io::{ErrorKind, Read, Write};
use std::pin::Pin;
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::Duration;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// transfer at most so many bytes
    Chunk(usize),
    /// asynchronous: not ready; blocking: interrupted
    Pause,
    /// interrupted: reported by an asynchronous read, which can be tried again
    Intr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Silence,
    Eof,
    Err(ErrorKind),
}
impl End {
    pub fn name(self) -> String {
        match self {
            End::Silence => "silence".into(),
            End::Eof => "eof".into(),
            End::Err(k) => format!("{k:?}"),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Write,
    Zero,
    Flush,
}
#[derive(Clone, Copy, Debug)]
pub struct WErr {
    /// first byte of the output that is not accepted (or not flushed)
    pub at: usize,
    pub kind: ErrorKind,
    pub how: How,
}
#[derive(Clone, Debug)]
pub enum Tamper {
    Xor(usize, u8),
    Remove(usize),
    Insert(usize, u8),
    /// everything from here on is replaced by these bytes
    Replace(usize, Vec<u8>),
    Swap(usize, usize, usize),
}

/// The peer: what it sends once it has seen our key.
#[derive(Clone)]
pub struct Plan {
    pub role: Role,
    pub magic: [u8; 4],
    pub secret: [u8; 32],
    pub garbage: Vec<u8>,
    /// header, contents, handshake packets first
    pub pkts: Vec<(u8, Vec<u8>)>,
    /// associated data of the first packet is something else
    pub wrong_aad: Option<(usize, Vec<u8>)>,
    pub v1: bool,
    pub raw_key: Option<[u8; 64]>,
    pub tamper: Vec<Tamper>,
    pub cut: Option<usize>,
    pub end: End,
}
#[derive(Clone, Debug)]
pub struct PktFact {
    pub len: usize,
    pub auth: &'static str,
    pub hdr: i64,
    pub contents: Vec<u8>,
}

pub struct Wire {
    pub is_async: bool,
    pub inb: Vec<u8>,
    pub release: usize,
    pub dlv: usize,
    pub rscript: VecDeque<Act>,
    pub rdefault: usize,
    pub end: End,
    /// stream positions at which the transport stops: 0 just so, 1 with a pause, 2 with a cancellation
    pub stops: VecDeque<(usize, u8)>,
    pub cancel_now: bool,
    /// the output accepts no byte from here on until opened
    pub gate: usize,
    /// flushing is held up as well while the gate is closed
    pub gate_flush: bool,
    /// somebody waits at the gate
    pub blocked: bool,
    pub wakers: Vec<Waker>,
    /// the transport writer was dropped
    pub wdropped: bool,
    /// first byte of the output that was not accepted or flushed because the transport failed
    pub torn: Option<usize>,
    /// bytes accepted when the transport first failed
    pub torn_at: Option<usize>,
    /// fail once only
    pub transient: bool,
    pub stuck: bool,
    pub scripted: bool,
    pub out: Vec<u8>,
    pub flushed: usize,
    pub wscript: VecDeque<Act>,
    pub wdefault: usize,
    pub werr: Option<WErr>,
    pub waits: Vec<(usize, usize, usize)>,
    pub log_waits: bool,
    plan: Option<Plan>,
    pub me: (Role, [u8; 4]),
    /// the session in the view of the code under test
    pub sess: Option<RefSession>,
    pub facts: Vec<PktFact>,
    pub occ: i64,
    pub key_fact: &'static str,
}

impl Wire {
    pub fn new(is_async: bool, me: (Role, [u8; 4]), plan: Plan) -> Wire {
        Wire {
            is_async,
            inb: vec![],
            release: usize::MAX,
            dlv: 0,
            rscript: VecDeque::new(),
            rdefault: usize::MAX,
            end: plan.end,
            stops: VecDeque::new(),
            cancel_now: false,
            gate: usize::MAX,
            gate_flush: false,
            blocked: false,
            wakers: vec![],
            wdropped: false,
            torn: None,
            torn_at: None,
            transient: false,
            stuck: false,
            scripted: false,
            out: vec![],
            flushed: 0,
            wscript: VecDeque::new(),
            wdefault: usize::MAX,
            werr: None,
            waits: vec![],
            log_waits: true,
            plan: Some(plan),
            me,
            sess: None,
            facts: vec![],
            occ: -1,
            key_fact: "ok",
        }
    }
    fn react(&mut self) {
        if self.out.len() < 64 || self.plan.is_none() {
            return;
        }
        let p = self.plan.take().unwrap();
        let theirs: [u8; 64] = self.out[..64].try_into().unwrap();
        let (sk, mut key) = refimpl::keypair(p.secret).expect("valid secret");
        let own_key = key;
        if p.v1 {
            key[..4].copy_from_slice(&self.me.1);
        }
        if let Some(k) = p.raw_key {
            key = k;
        }
        let view = |role: Role, magic: &[u8; 4]| -> RefSession {
            // `role` is the peer's
            if role == Role::Initiator {
                RefSession::derive(&own_key, &theirs, &sk, true, magic)
            } else {
                RefSession::derive(&theirs, &own_key, &sk, false, magic)
            }
        };
        let mut mine = view(p.role, &p.magic);
        let d = if p.role == Role::Initiator { 0 } else { 1 };
        let mut s = key.to_vec();
        s.extend_from_slice(&p.garbage);
        s.extend_from_slice(&mine.term[d]);
        for (i, (h, c)) in p.pkts.iter().enumerate() {
            let mut aad: &[u8] = if i == 0 { &p.garbage } else { &[] };
            if let Some((k, a)) = &p.wrong_aad {
                if *k == i {
                    aad = a;
                }
            }
            s.extend(mine.dir[d].seal(i as u64, *h, c, aad));
        }
        for t in &p.tamper {
            match t {
                Tamper::Xor(at, m) => {
                    if let Some(b) = s.get_mut(*at) {
                        *b ^= m;
                    }
                }
                Tamper::Remove(at) => {
                    if *at < s.len() {
                        s.remove(*at);
                    }
                }
                Tamper::Insert(at, b) => {
                    if *at <= s.len() {
                        s.insert(*at, *b);
                    }
                }
                Tamper::Replace(at, v) => {
                    s.truncate(*at);
                    s.extend_from_slice(v);
                }
                Tamper::Swap(a, b, n) => {
                    if a + n <= *b && b + n <= s.len() {
                        let (l, r) = s.split_at_mut(*b);
                        l[*a..a + n].swap_with_slice(&mut r[..*n]);
                    }
                }
            }
        }
        if let Some(c) = p.cut {
            s.truncate(c);
        }
        self.inb = s;
        // What the code under test is looking at.
        let my_role = self.me.0;
        let peer_role = if my_role == Role::Initiator { Role::Responder } else { Role::Initiator };
        self.key_fact = "ok";
        if self.inb.len() >= 4 && self.inb[..4] == self.me.1 {
            self.key_fact = "v1";
        } else if self.inb.len() >= 64 && self.inb[..64] != own_key {
            self.key_fact = "foreign";
        } else {
            let mut v = view(peer_role, &self.me.1);
            self.analyse(&mut v);
            self.sess = Some(v);
        }
    }
    fn analyse(&mut self, v: &mut RefSession) {
        if self.inb.len() < 64 {
            return;
        }
        let dirn = if self.me.0 == Role::Initiator { 1 } else { 0 };
        let rest = self.inb[64..].to_vec();
        let term = v.term[dirn];
        let Some(occ) = rest.windows(16).position(|w| w == term) else { return };
        self.occ = occ as i64;
        let garbage = rest[..occ].to_vec();
        let mut pos = occ + 16;
        let mut i = 0u64;
        while pos + 3 <= rest.len() {
            let lf: [u8; 3] = rest[pos..pos + 3].try_into().unwrap();
            let len = v.dir[dirn].dec_len(i, lf) + 17;
            if pos + 3 + len > rest.len() {
                self.facts.push(PktFact { len, auth: "cut", hdr: -1, contents: vec![] });
                break;
            }
            let body = &rest[pos + 3..pos + 3 + len];
            let e = v.dir[dirn].open_body(i, body, &[]);
            let g = if garbage.is_empty() { None } else { v.dir[dirn].open_body(i, body, &garbage) };
            let (auth, plain) = match (e, g) {
                (Some(p), _) => (if garbage.is_empty() { "ge" } else { "e" }, Some(p)),
                (None, Some(p)) => ("g", Some(p)),
                _ => ("none", None),
            };
            let stop = auth == "none";
            let (hdr, contents) = match plain {
                Some(p) => (p[0] as i64, p[1..].to_vec()),
                None => (-1, vec![]),
            };
            self.facts.push(PktFact { len, auth, hdr, contents });
            if stop {
                break;
            }
            pos += 3 + len;
            i += 1;
        }
    }
    fn wait(&mut self) {
        if !self.log_waits {
            return;
        }
        let s = (self.dlv, self.out.len(), self.flushed);
        let n = self.waits.len();
        let stage = |d: usize| (d >= 64) as u8;
        if n == 0 || stage(self.waits[n - 1].0) != stage(s.0) || n < 2 {
            self.waits.push(s);
        } else if self.waits[n - 1].1 != s.1 || self.waits[n - 1].2 != s.2 {
            if n < 40 {
                self.waits.push(s);
            }
        } else if n >= 2 && stage(self.waits[n - 2].0) == stage(s.0) {
            self.waits[n - 1] = s;
        } else {
            self.waits.push(s);
        }
    }
    /// Ok(Some(n)): n bytes; Ok(None): not ready.
    fn do_read(&mut self, buf: &mut [u8]) -> std::io::Result<Option<usize>> {
        if buf.is_empty() {
            return Ok(Some(0));
        }
        self.wait();
        let limit = self.inb.len().min(self.release);
        if self.dlv >= limit {
            if self.dlv < self.inb.len() || self.end == End::Silence {
                self.stuck = true;
                return if self.is_async { Ok(None) } else { Err(std::io::Error::new(ErrorKind::Other, "stuck")) };
            }
            return match self.end {
                End::Eof => Ok(Some(0)),
                End::Err(k) => Err(std::io::Error::new(k, "scripted")),
                End::Silence => unreachable!(),
            };
        }
        let max = match self.rscript.pop_front() {
            Some(Act::Pause) => {
                if self.is_async {
                    self.scripted = true;
                    return Ok(None);
                }
                return Err(ErrorKind::Interrupted.into());
            }
            Some(Act::Intr) => return Err(ErrorKind::Interrupted.into()),
            Some(Act::Chunk(n)) => n.max(1),
            None => self.rdefault,
        };
        while let Some(&(at, kind)) = self.stops.front() {
            if at > self.dlv {
                break;
            }
            self.stops.pop_front();
            if kind > 0 && at == self.dlv {
                if !self.is_async {
                    return Err(ErrorKind::Interrupted.into());
                }
                self.scripted = true;
                self.cancel_now = kind == 2;
                return Ok(None);
            }
        }
        let stop = self.stops.front().map(|s| s.0).unwrap_or(usize::MAX);
        let n = buf.len().min(max).min(limit - self.dlv).min(stop - self.dlv);
        buf[..n].copy_from_slice(&self.inb[self.dlv..self.dlv + n]);
        self.dlv += n;
        Ok(Some(n))
    }
    fn do_write(&mut self, buf: &[u8]) -> std::io::Result<Option<usize>> {
        if buf.is_empty() {
            return Ok(Some(0));
        }
        let mut max = match self.wscript.pop_front() {
            Some(Act::Pause) => {
                if self.is_async {
                    self.scripted = true;
                    return Ok(None);
                }
                return Err(ErrorKind::Interrupted.into());
            }
            Some(Act::Intr) => return Err(ErrorKind::Interrupted.into()),
            Some(Act::Chunk(n)) => n.max(1),
            None => self.wdefault,
        };
        if let Some(e) = self.werr {
            if e.how != How::Flush {
                if self.out.len() >= e.at {
                    self.torn.get_or_insert(self.out.len());
                    self.torn_at.get_or_insert(self.out.len());
                    if self.transient {
                        self.werr = None;
                    }
                    return if e.how == How::Zero { Ok(Some(0)) } else { Err(e.kind.into()) };
                }
                max = max.min(e.at - self.out.len());
            }
        }
        let n = buf.len().min(max).min(self.gate - self.out.len());
        self.out.extend_from_slice(&buf[..n]);
        self.react();
        Ok(Some(n))
    }
    fn do_flush(&mut self) -> std::io::Result<Option<()>> {
        if let Some(Act::Pause) = self.wscript.front() {
            if self.is_async {
                self.wscript.pop_front();
                self.scripted = true;
                return Ok(None);
            }
        }
        if let Some(e) = self.werr {
            if e.how == How::Flush && self.out.len() > e.at {
                self.torn.get_or_insert(self.flushed);
                self.torn_at.get_or_insert(self.out.len());
                if self.transient || e.kind == ErrorKind::Interrupted {
                    self.werr = None;
                }
                return Err(e.kind.into());
            }
        }
        self.flushed = self.out.len();
        Ok(Some(()))
    }
}

#[derive(Default)]
pub struct Cell<T> {
    m: Mutex<T>,
    c: Condvar,
}
pub type Shared = Arc<Cell<Wire>>;
pub fn shared(w: Wire) -> Shared {
    Arc::new(Cell { m: Mutex::new(w), c: Condvar::new() })
}
/// Move the output gate.
pub fn set_gate(s: &Shared, at: usize) {
    let mut g = lock(s);
    g.gate = at.max(g.out.len());
    g.blocked = false;
    for w in std::mem::take(&mut g.wakers) {
        w.wake();
    }
    s.c.notify_all();
}
/// Let the reader have everything up to `at`.
pub fn set_release(s: &Shared, at: usize) {
    let mut g = lock(s);
    g.release = at;
    for w in std::mem::take(&mut g.wakers) {
        w.wake();
    }
}
/// A reader that can be made to block inside a read: (closed, someone waits there).
pub type Gate = Arc<(Mutex<(bool, bool)>, Condvar)>;
pub struct MR(pub Shared, pub Gate);
pub struct MW(pub Shared);
pub fn lock(s: &Shared) -> std::sync::MutexGuard<'_, Wire> {
    s.m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Read for MR {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        {
            let (m, c) = &*self.1;
            let mut g = m.lock().unwrap();
            while g.0 {
                g.1 = true;
                c.notify_all();
                g = c.wait(g).unwrap();
            }
        }
        lock(&self.0).do_read(buf).map(|o| o.unwrap_or(0))
    }
}
impl Write for MW {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut g = lock(&self.0);
        while !buf.is_empty() && g.out.len() >= g.gate {
            g.blocked = true;
            self.0.c.notify_all();
            g = self.0.c.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.do_write(buf).map(|o| o.unwrap_or(0))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut g = lock(&self.0);
        while g.gate_flush && g.flushed < g.out.len() && g.out.len() >= g.gate {
            g.blocked = true;
            self.0.c.notify_all();
            g = self.0.c.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.do_flush().map(|_| ())
    }
}
fn poll_of<T>(r: std::io::Result<Option<T>>) -> Poll<std::io::Result<T>> {
    match r {
        Ok(Some(v)) => Poll::Ready(Ok(v)),
        Ok(None) => Poll::Pending,
        Err(e) => Poll::Ready(Err(e)),
    }
}
impl Drop for MW {
    fn drop(&mut self) {
        let mut g = lock(&self.0);
        g.wdropped = true;
        self.0.c.notify_all();
    }
}
impl AsyncRead for MR {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut g = lock(&self.0);
        let most = if g.rscript.is_empty() { buf.remaining().min(g.rdefault) } else { buf.remaining() };
        let mut tmp = vec![0u8; most];
        g.scripted = false;
        let r = g.do_read(&mut tmp);
        if let Ok(None) = r {
            if g.scripted {
                cx.waker().wake_by_ref();
            } else {
                g.wakers.push(cx.waker().clone());
            }
        }
        drop(g);
        match r {
            Ok(Some(n)) => {
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Ok(None) => Poll::Pending,
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}
impl AsyncWrite for MW {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut g = lock(&self.0);
        if !buf.is_empty() && g.out.len() >= g.gate {
            g.blocked = true;
            g.wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        let r = g.do_write(buf);
        if let Ok(None) = r {
            cx.waker().wake_by_ref();
        }
        poll_of(r)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut g = lock(&self.0);
        if g.gate_flush && g.flushed < g.out.len() && g.out.len() >= g.gate {
            g.blocked = true;
            g.wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        let r = g.do_flush();
        if let Ok(None) = r {
            cx.waker().wake_by_ref();
        }
        poll_of(r)
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Remembers that the task was woken: the code under test yielded of its own accord.
#[derive(Default)]
pub struct Woken(std::sync::atomic::AtomicBool);
impl std::task::Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}
impl Woken {
    fn take(&self) -> bool {
        self.0.swap(false, std::sync::atomic::Ordering::SeqCst)
    }
}

/// Cancel where the stops say so.
pub const SCRIPTED: usize = usize::MAX;

/// Why polling stopped.
pub enum Polled<T> {
    Done(T),
    /// really waiting for the transport
    Waiting,
    /// a scripted pause at which the caller asked to cancel
    Cancelled,
}
/// Poll until done, until the transport has nothing to give, or until scripted pause number `cancel`.
fn drive<F: Future>(w: &Shared, f: F, cancel: Option<usize>) -> Polled<F::Output> {
    let mut f = Box::pin(f);
    let woken = Arc::new(Woken::default());
    let wk = Waker::from(woken.clone());
    let mut cx = Context::from_waker(&wk);
    let (mut pauses, mut polls) = (0, 0usize);
    loop {
        woken.take();
        polls += 1;
        {
            let mut g = lock(w);
            g.scripted = false;
        }
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Polled::Done(v),
            Poll::Pending => {
                if !lock(w).scripted && (!woken.take() || polls > 10_000_000) {
                    return Polled::Waiting;
                }
                let now = std::mem::take(&mut lock(w).cancel_now);
                if cancel == Some(pauses) || (cancel == Some(SCRIPTED) && now) {
                    return Polled::Cancelled;
                }
                pauses += 1;
            }
        }
    }
}

fn plain() -> TrafficConfig {
    TrafficConfig::new().with_padding_strategy(PaddingStrategy::Disabled).with_decoy_strategy(DecoyStrategy::Disabled)
}
/// The runtime behind a shaped asynchronous connection; its time stands still.
pub type Rt = Option<tokio::runtime::Runtime>;
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}
/// The same with the tasks of a runtime running in between.
fn drive_rt<F: Future>(rt: &Rt, w: &Shared, f: F, cancel: Option<usize>) -> Polled<F::Output> {
    let Some(rt) = rt else { return drive(w, f, cancel) };
    let mut f = Box::pin(f);
    let woken = Arc::new(Woken::default());
    let wk = Waker::from(woken.clone());
    let mut cx = Context::from_waker(&wk);
    let (mut pauses, mut polls, mut idle) = (0, 0usize, 0);
    loop {
        woken.take();
        polls += 1;
        lock(w).scripted = false;
        let r = {
            let _g = rt.enter();
            f.as_mut().poll(&mut cx)
        };
        if let Poll::Ready(v) = r {
            return Polled::Done(v);
        }
        if lock(w).scripted {
            let now = std::mem::take(&mut lock(w).cancel_now);
            if cancel == Some(pauses) || (cancel == Some(SCRIPTED) && now) {
                return Polled::Cancelled;
            }
            pauses += 1;
            idle = 0;
        } else if woken.take() && polls < 10_000_000 {
            idle = 0;
        } else {
            idle += 1;
            if idle > 100 {
                return Polled::Waiting;
            }
        }
        rt.block_on(tokio::task::yield_now());
    }
}

#[allow(unreachable_patterns)]
pub fn perr(e: &ProtocolError) -> Value {
    if guarded(|| (e.to_string(), format!("{e:?}"))).is_err() {
        return json!({"res": "panic"});
    }
    match e {
        ProtocolError::Io(e2, s) => {
            // the cause is found at the error, too
            let cause = std::error::Error::source(e).and_then(|c| c.downcast_ref::<std::io::Error>()).map(|c| c.kind());
            let kind = if cause == Some(e2.kind()) { format!("{:?}", e2.kind()) } else { "another cause".into() };
            json!({"res": "Io", "kind": kind, "sug": match s {
                ProtocolFailureSuggestion::RetryV1 => "RetryV1",
                ProtocolFailureSuggestion::Abort => "Abort",
                _ => "another",
            }})
        }
        ProtocolError::Internal(e) => crate::sess::err_json(e),
        other => json!({"res": format!("other: {other:?}")}),
    }
}

/// Facts about a packet found in the output of the code under test.
pub fn out_facts(sess: &mut RefSession, mine: usize, hint: u64, bytes: &[u8], contents: &[u8], own: &[u8]) -> Value {
    if bytes.len() < 20 {
        return json!({"lk": [-1, -1], "pk": [-1, -1], "n": -1, "hdr": -1, "aad": "?", "d": "short", "same": false});
    }
    let lf: [u8; 3] = bytes[..3].try_into().unwrap();
    let body = &bytes[3..];
    let lpos = sess.dir[mine].identify_len(hint, lf, body.len() - 17);
    let declared = sess.dir[mine].dec_len(lpos.unwrap_or(hint), lf);
    for (d, label) in [(mine, "own"), (1 - mine, "peer")] {
        let aads: Vec<&[u8]> = if own.is_empty() { vec![&[]] } else { vec![&[], own] };
        if let Some(o) = sess.dir[d].identify(hint, body, &aads) {
            let aad = if o.aad == 0 { "e" } else { "own" };
            return json!({"lk": at(lpos), "pk": at(Some(o.pos)), "d": label, "n": declared, "hdr": o.plain[0],
                "aad": aad, "same": o.plain[1..] == *contents});
        }
    }
    json!({"lk": at(lpos), "pk": [-1, -1], "d": "unknown", "n": declared, "hdr": -1, "aad": "?", "same": false})
}

pub enum Conn {
    SWhole(bio::Protocol<MR, MW>),
    AWhole(fu::Protocol<MR, MW>),
    ShS(ti::ShapedProtocol<MR, MW>),
    ShA(tf::ShapedProtocol<MR>),
    Halves(Option<Rd>, Option<Wr>),
}
pub enum Rd {
    S(bio::ProtocolReader<MR>),
    A(fu::ProtocolReader<MR>),
    SRaw(InboundCipher, bio::ProtocolSessionReader<MR>),
    ARaw(InboundCipher, fu::ProtocolSessionReader<MR>),
    ShS(ti::ShapedProtocolReader<MR>),
    ShA(tf::ShapedProtocolReader<MR>),
}
pub enum Wr {
    S(bio::ProtocolWriter<MW>),
    A(fu::ProtocolWriter<MW>),
    Raw(OutboundCipher, MW, bool),
    ShS(ti::ShapedProtocolWriter<MW>),
    ShA(tf::ShapedProtocolWriter),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Iface {
    Sync,
    Async,
    SyncFn,
    AsyncFn,
    /// shaped, with every strategy disabled: nothing may be different
    ShSync,
    ShAsync,
}
impl Iface {
    pub fn is_async(self) -> bool {
        matches!(self, Iface::Async | Iface::AsyncFn | Iface::ShAsync)
    }
    pub fn name(self) -> &'static str {
        match self {
            Iface::Sync => "sync",
            Iface::Async => "async",
            Iface::SyncFn => "syncfn",
            Iface::AsyncFn => "asyncfn",
            Iface::ShSync => "shaped sync",
            Iface::ShAsync => "shaped async",
        }
    }
    fn shaped(self) -> bool {
        matches!(self, Iface::ShSync | Iface::ShAsync)
    }
}

pub struct Setup {
    pub iface: Iface,
    pub role: Role,
    pub magic: [u8; 4],
    pub garbage: Option<Vec<u8>>,
    pub decoys: Option<Vec<Vec<u8>>>,
    pub plan: Plan,
    pub rscript: Vec<Act>,
    pub rdefault: usize,
    pub wscript: Vec<Act>,
    pub wdefault: usize,
    pub werr: Option<WErr>,
    pub stops: Vec<(usize, u8)>,
}
/// Every driver is the shaped one.
pub static SHAPED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
impl Setup {
    pub fn honest(r: &mut Rng, iface: Iface) -> Setup {
        let iface = match (SHAPED.load(std::sync::atomic::Ordering::SeqCst), iface.is_async()) {
            (true, true) => Iface::ShAsync,
            (true, false) => Iface::ShSync,
            _ => iface,
        };
        let role = if r.chance(50) { Role::Initiator } else { Role::Responder };
        Setup {
            iface,
            role,
            magic: MAGIC,
            garbage: None,
            decoys: None,
            plan: Plan {
                role: if role == Role::Initiator { Role::Responder } else { Role::Initiator },
                magic: MAGIC,
                secret: r.arr32(),
                garbage: vec![],
                pkts: vec![(0, vec![])],
                wrong_aad: None,
                v1: false,
                raw_key: None,
                tamper: vec![],
                cut: None,
                end: End::Silence,
            },
            rscript: vec![],
            rdefault: usize::MAX,
            wscript: vec![],
            wdefault: usize::MAX,
            werr: None,
            stops: vec![],
        }
    }
}

pub struct Drv<'l> {
    pub log: &'l mut Log,
    pub w: Shared,
    pub conn: Option<Conn>,
    /// of the background task of a shaped connection; ends after the connection
    rt: Rt,
    pub iface: Iface,
    /// packets of the stream consumed so far
    pub got: usize,
    pub out_n: u64,
    mine: usize,
    /// a read did not deliver: bytes may be held inside the reader, or be lost
    spoiled: bool,
    intr: bool,
    gate: Gate,
    /// what was read last
    last: Option<Payload>,
}

/// Run the handshake; the case must have been started.
pub fn handshake<'l>(log: &'l mut Log, mut s: Setup) -> Drv<'l> {
    if s.iface.shaped() {
        s.garbage = None;
        s.decoys = None;
    }
    let rt = if s.iface == Iface::ShAsync { Some(runtime()) } else { None };
    let w = shared(Wire::new(s.iface.is_async(), (s.role, s.magic), s.plan.clone()));
    {
        let mut g = lock(&w);
        g.rscript = s.rscript.iter().copied().collect();
        g.rdefault = s.rdefault;
        g.wscript = s.wscript.iter().copied().collect();
        g.wdefault = s.wdefault;
        g.werr = s.werr;
        g.stops = s.stops.iter().copied().collect();
    }
    let decoy_sizes: Vec<usize> = s.decoys.as_ref().map(|d| d.iter().map(|v| v.len()).collect()).unwrap_or_default();
    let glen = s.garbage.as_ref().map(|g| g.len()).unwrap_or(0);
    log.ev(json!({"op": "drv", "iface": s.iface.name(), "role": rname(s.role), "g": glen, "decoys": decoy_sizes,
        "werr": match s.werr {
            Some(e) => json!({"at": e.at, "kind": if e.how == How::Zero { "WriteZero".into() } else { format!("{:?}", e.kind) }}),
            None => json!({"at": -1, "kind": "none"}),
        }}));
    let (g2, d2) = (s.garbage.clone(), s.decoys.clone());
    let gate: Gate = Default::default();
    let (mr, mut mw) = (MR(w.clone(), gate.clone()), MW(w.clone()));
    enum Out {
        Conn(Conn),
        Err(Value),
    }
    let res = guarded(|| match s.iface {
        Iface::Sync => match bio::Protocol::new(s.magic, s.role, g2, d2, mr, mw) {
            Ok(p) => Out::Conn(Conn::SWhole(p)),
            Err(e) => Out::Err(perr(&e)),
        },
        Iface::SyncFn => match bio::handshake(s.magic, s.role, g2, d2, mr, &mut mw) {
            Ok((i, o, r)) => Out::Conn(Conn::Halves(Some(Rd::SRaw(i, r)), Some(Wr::Raw(o, mw, false)))),
            Err(e) => Out::Err(perr(&e)),
        },
        Iface::Async => match drive(&w, fu::Protocol::new(s.magic, s.role, g2, d2, mr, mw), None) {
            Polled::Done(Ok(p)) => Out::Conn(Conn::AWhole(p)),
            Polled::Done(Err(e)) => Out::Err(perr(&e)),
            _ => Out::Err(json!({"res": "stuck"})),
        },
        Iface::AsyncFn => {
            let r = drive(&w, fu::handshake(s.magic, s.role, g2, d2, mr, &mut mw), None);
            match r {
                Polled::Done(Ok((i, o, r))) => Out::Conn(Conn::Halves(Some(Rd::ARaw(i, r)), Some(Wr::Raw(o, mw, true)))),
                Polled::Done(Err(e)) => Out::Err(perr(&e)),
                _ => Out::Err(json!({"res": "stuck"})),
            }
        }
        Iface::ShSync => match ti::ShapedProtocol::new(s.magic, s.role, plain(), mr, mw) {
            Ok(p) => Out::Conn(Conn::ShS(p)),
            Err(e) => Out::Err(perr(&e)),
        },
        Iface::ShAsync => match drive_rt(&rt, &w, tf::ShapedProtocol::new(s.magic, s.role, plain(), mr, mw), None) {
            Polled::Done(Ok(p)) => Out::Conn(Conn::ShA(p)),
            Polled::Done(Err(e)) => Out::Err(perr(&e)),
            _ => Out::Err(json!({"res": "stuck"})),
        },
    });
    let mine = if s.role == Role::Initiator { 0 } else { 1 };
    let mut g = lock(&w);
    let pk: Vec<Value> = g.facts.iter().map(|f| json!({"len": f.len, "auth": f.auth, "hdr": f.hdr})).collect();
    log.ev(json!({"op": "stream", "key": g.key_fact, "total": g.inb.len(), "occ": g.occ, "pkts": pk, "end": g.end.name()}));
    for (d, wr, f) in g.waits.clone() {
        log.ev(json!({"op": "wait", "dlv": d, "w": wr, "f": f}));
    }
    let (obs, conn) = match res {
        Ok(Out::Conn(c)) => (json!({"res": "ok"}), Some(c)),
        Ok(Out::Err(v)) => (if g.stuck && !s.iface.is_async() && v["res"] == "Io" { json!({"res": "stuck"}) } else { v }, None),
        Err(()) => (json!({"res": "panic"}), None),
    };
    let own = s.garbage.clone().unwrap_or_default();
    let f1 = g.out.len() >= 64 + own.len() && g.out[64..64 + own.len()] == own[..];
    let mut f2 = json!({"term": "?", "pkts": []});
    let need = 64 + own.len() + 16 + 20 + decoy_sizes.iter().map(|n| n + 20).sum::<usize>();
    if g.out.len() >= need {
        if let Some(mut sess) = g.sess.take() {
            let mut pos = 64 + own.len();
            let t = &g.out[pos..pos + 16];
            let term = if *t == sess.term[mine] { "own" } else if *t == sess.term[1 - mine] { "peer" } else { "unknown" };
            pos += 16;
            let mut v = vec![];
            for (i, n) in decoy_sizes.iter().chain(std::iter::once(&0)).enumerate() {
                let c: &[u8] = s.decoys.as_ref().and_then(|d| d.get(i)).map(|v| &v[..]).unwrap_or(&[]);
                v.push(out_facts(&mut sess, mine, i as u64, &g.out[pos..pos + n + 20], c, &own));
                pos += n + 20;
            }
            g.sess = Some(sess);
            f2 = json!({"term": term, "pkts": v});
        }
    }
    let (wn, fl) = (g.out.len(), g.flushed);
    g.log_waits = false;
    // the scenario ends with the version packet: the handshake consumed everything up to the first non-decoy
    let got = g.facts.iter().position(|f| f.hdr >= 0 && f.hdr < 128).map(|p| p + 1).unwrap_or(0);
    drop(g);
    log.ev(crate::log::merge(json!({"op": "hs", "w": wn, "f": fl, "f1": f1, "f2": f2}), obs));
    Drv { log, w, conn, rt, iface: s.iface, got, out_n: decoy_sizes.len() as u64 + 1, mine, spoiled: false, intr: false, gate, last: None }
}

impl<'l> Drv<'l> {
    pub fn is_open(&self) -> bool {
        self.conn.is_some()
    }
    pub fn wire(&self) -> std::sync::MutexGuard<'_, Wire> {
        lock(&self.w)
    }
    pub fn split(&mut self) {
        self.conn = match self.conn.take() {
            Some(Conn::SWhole(p)) => {
                let (r, w) = p.into_split();
                Some(Conn::Halves(Some(Rd::S(r)), Some(Wr::S(w))))
            }
            Some(Conn::AWhole(p)) => {
                let (r, w) = p.into_split();
                Some(Conn::Halves(Some(Rd::A(r)), Some(Wr::A(w))))
            }
            Some(Conn::ShS(p)) => {
                let (r, w) = p.into_split();
                Some(Conn::Halves(Some(Rd::ShS(r)), Some(Wr::ShS(w))))
            }
            Some(Conn::ShA(p)) => {
                let (r, w) = p.into_split();
                Some(Conn::Halves(Some(Rd::ShA(r)), Some(Wr::ShA(w))))
            }
            c => c,
        };
    }
    pub fn unwrap_reader(&mut self) {
        if self.spoiled {
            return;
        }
        self.split();
        if let Some(Conn::Halves(r, _)) = &mut self.conn {
            *r = match r.take() {
                Some(Rd::S(r)) => {
                    let (c, r) = r.into_inner();
                    Some(Rd::SRaw(c, r))
                }
                Some(Rd::A(r)) => {
                    let (c, r) = r.into_inner();
                    Some(Rd::ARaw(c, r))
                }
                r => r,
            };
        }
    }
    pub fn unwrap_writer(&mut self) {
        self.split();
        let a = self.iface.is_async();
        if let Some(Conn::Halves(_, w)) = &mut self.conn {
            *w = match w.take() {
                Some(Wr::S(w)) => {
                    let (c, w) = w.into_inner();
                    Some(Wr::Raw(c, w, a))
                }
                Some(Wr::A(w)) => {
                    let (c, w) = w.into_inner();
                    Some(Wr::Raw(c, w, a))
                }
                w => w,
            };
        }
    }
    fn payload(&self, p: &Payload) -> Value {
        let g = self.wire();
        let hit = |f: &PktFact| f.contents == p.contents();
        let next = g.facts.get(self.got);
        let idx = match next {
            Some(f) if hit(f) => self.got as i64 + 1,
            _ => g.facts.iter().position(hit).map(|i| i as i64 + 1).unwrap_or(-1),
        };
        json!({"res": "ok", "idx": idx, "same": idx > 0, "ty": pt_name(p.packet_type()), "n": p.contents().len()})
    }
    /// Read a packet with everything up to `release` available; `cancel`: drop the future at that pause.
    pub fn read(&mut self, release: usize, script: &[Act], cancel: Option<usize>) -> bool {
        let (avail, intr);
        {
            let mut g = self.wire();
            g.release = release.max(g.dlv);
            g.stuck = false;
            g.rscript.extend(script.iter().copied());
            avail = g.release.min(g.inb.len());
            intr = g.rscript.contains(&Act::Intr);
        }
        self.intr = intr;
        if let Some(Conn::Halves(Some(Rd::SRaw(..) | Rd::ARaw(..)), _)) = &self.conn {
            return self.raw_read();
        }
        let (w, rt) = (self.w.clone(), &self.rt);
        let Some(conn) = self.conn.as_mut() else { return false };
        let r = guarded(|| match conn {
            Conn::SWhole(p) => Polled::Done(p.read()),
            Conn::AWhole(p) => drive(&w, p.read(), cancel),
            Conn::Halves(Some(Rd::S(r)), _) => Polled::Done(r.read()),
            Conn::Halves(Some(Rd::A(r)), _) => drive(&w, r.read(), cancel),
            Conn::ShS(p) => Polled::Done(p.read()),
            Conn::Halves(Some(Rd::ShS(r)), _) => Polled::Done(r.read()),
            Conn::ShA(p) => drive_rt(rt, &w, p.read(), cancel),
            Conn::Halves(Some(Rd::ShA(r)), _) => drive_rt(rt, &w, r.read(), cancel),
            _ => Polled::Waiting,
        });
        self.read_done(r, avail, cancel.is_some())
    }
    fn read_done(&mut self, r: Result<Polled<Result<Payload, ProtocolError>>, ()>, avail: usize, cancel: bool) -> bool {
        let mut ok = false;
        let obs = match r {
            Ok(Polled::Done(Ok(p))) => {
                ok = true;
                let v = self.payload(&p);
                self.last = Some(p);
                v
            }
            Ok(Polled::Done(Err(e))) => {
                if self.wire().stuck && !self.iface.is_async() {
                    json!({"res": "pending"})
                } else {
                    perr(&e)
                }
            }
            Ok(Polled::Waiting) => json!({"res": "pending"}),
            Ok(Polled::Cancelled) => json!({"res": "cancelled"}),
            Err(()) => json!({"res": "panic"}),
        };
        if ok {
            self.got += 1;
        }
        self.spoiled = !ok;
        let intr = std::mem::take(&mut self.intr);
        self.log.ev(crate::log::merge(json!({"op": "read", "avail": avail, "cancel": cancel, "intr": intr}), obs));
        ok
    }
    /// `n` packets in a row, reported as one step.
    pub fn reads(&mut self, n: usize) -> bool {
        let avail;
        {
            let mut g = self.wire();
            g.release = usize::MAX;
            g.stuck = false;
            avail = g.inb.len();
        }
        let w = self.w.clone();
        let (mut got, mut same) = (0usize, true);
        let mut last = json!({"res": "ok"});
        while got < n {
            let Some(conn) = self.conn.as_mut() else { break };
            let r = guarded(|| match conn {
                Conn::SWhole(p) => Some(p.read()),
                Conn::AWhole(p) => match drive(&w, p.read(), None) {
                    Polled::Done(r) => Some(r),
                    _ => None,
                },
                Conn::Halves(Some(Rd::S(r)), _) => Some(r.read()),
                Conn::Halves(Some(Rd::A(r)), _) => match drive(&w, r.read(), None) {
                    Polled::Done(r) => Some(r),
                    _ => None,
                },
                Conn::ShS(p) => Some(p.read()),
                Conn::Halves(Some(Rd::ShS(r)), _) => Some(r.read()),
                Conn::ShA(p) => match drive_rt(&self.rt, &w, p.read(), None) {
                    Polled::Done(r) => Some(r),
                    _ => None,
                },
                Conn::Halves(Some(Rd::ShA(r)), _) => match drive_rt(&self.rt, &w, r.read(), None) {
                    Polled::Done(r) => Some(r),
                    _ => None,
                },
                _ => None,
            });
            match r {
                Ok(Some(Ok(p))) => {
                    let g = self.wire();
                    let ok = match g.facts.get(self.got) {
                        Some(f) => f.contents == p.contents() && (p.packet_type() == PacketType::Decoy) == (f.hdr >= 128),
                        None => false,
                    };
                    drop(g);
                    same &= ok;
                    self.got += 1;
                    got += 1;
                }
                Ok(Some(Err(e))) => {
                    last = perr(&e);
                    break;
                }
                Ok(None) => {
                    last = json!({"res": "pending"});
                    break;
                }
                Err(()) => {
                    last = json!({"res": "panic"});
                    break;
                }
            }
        }
        self.spoiled |= got < n;
        self.log.ev(json!({"op": "reads", "want": n, "avail": avail, "n": got, "same": same, "last": last["res"]}));
        got == n
    }
    /// `n` packets written in a row, reported as one step.
    pub fn writes(&mut self, n: usize, sizes: &[usize]) -> bool {
        let w0;
        {
            let mut g = self.wire();
            g.wscript.clear();
            g.wdefault = usize::MAX;
            g.werr = None;
            w0 = g.out.len();
        }
        let w = self.w.clone();
        let (mut done, mut same) = (0usize, true);
        let mut last = json!({"res": "ok"});
        let mut first = Value::Null;
        let mut lastpos = Value::Null;
        while done < n {
            let k = sizes[done % sizes.len()];
            let contents: Vec<u8> = (0..k).map(|i| (i * 31 + done * 7) as u8).collect();
            let ty = if done % 3 == 2 { PacketType::Decoy } else { PacketType::Genuine };
            let p = match ty {
                PacketType::Genuine => Payload::genuine(contents.clone()),
                PacketType::Decoy => Payload::decoy(contents.clone()),
            };
            let Some(conn) = self.conn.as_mut() else { break };
            let at0 = lock(&w).out.len();
            let r = guarded(|| match conn {
                Conn::SWhole(c) => Some(c.write(&p)),
                Conn::AWhole(c) => match drive(&w, c.write(&p), None) {
                    Polled::Done(r) => Some(r),
                    _ => None,
                },
                Conn::Halves(_, Some(Wr::S(c))) => Some(c.write(&p)),
                Conn::Halves(_, Some(Wr::A(c))) => match drive(&w, c.write(&p), None) {
                    Polled::Done(r) => Some(r),
                    _ => None,
                },
                Conn::ShS(c) => Some(c.write(&p)),
                Conn::Halves(_, Some(Wr::ShS(c))) => Some(c.write(&p)),
                Conn::ShA(c) => match drive_rt(&self.rt, &w, c.write(&p), None) {
                    Polled::Done(r) => Some(r),
                    _ => None,
                },
                Conn::Halves(_, Some(Wr::ShA(c))) => match drive_rt(&self.rt, &w, c.write(&p), None) {
                    Polled::Done(r) => Some(r),
                    _ => None,
                },
                _ => None,
            });
            match r {
                Ok(Some(Ok(()))) => {
                    let (mine, hint) = (self.mine, self.out_n);
                    let mut g = lock(&self.w);
                    let bytes = g.out[at0..].to_vec();
                    if let Some(mut s) = g.sess.take() {
                        let f = out_facts(&mut s, mine, hint, &bytes, &contents, &[]);
                        same &= bytes.len() == k + 20
                            && f["lk"] == at(Some(hint))
                            && f["pk"] == at(Some(hint))
                            && f["n"] == json!(k)
                            && f["hdr"] == json!(if ty == PacketType::Decoy { 128 } else { 0 })
                            && f["aad"] == "e"
                            && f["d"] == "own"
                            && f["same"] == true;
                        if done == 0 {
                            first = f["pk"].clone();
                        }
                        lastpos = f["pk"].clone();
                        g.sess = Some(s);
                    }
                    drop(g);
                    self.out_n += 1;
                    done += 1;
                }
                Ok(Some(Err(e))) => {
                    last = perr(&e);
                    break;
                }
                Ok(None) => {
                    last = json!({"res": "pending"});
                    break;
                }
                Err(()) => {
                    last = json!({"res": "panic"});
                    break;
                }
            }
        }
        let g = lock(&self.w);
        let (bytes, unflushed) = (g.out.len() - w0, g.out.len() - g.flushed);
        drop(g);
        let total: usize = (0..n).map(|i| sizes[i % sizes.len()]).sum();
        self.log.ev(json!({"op": "writes", "want": n, "sum": total, "n": done, "w": bytes, "unflushed": unflushed,
            "first": first, "lastpos": lastpos, "same": same, "last": last["res"]}));
        done == n
    }
    /// A read waits for its first `release` bytes while a write runs on the other half.
    pub fn held(&mut self, release: usize, contents: &[u8], ty: PacketType) {
        self.split();
        let w = self.w.clone();
        let w0;
        {
            let mut g = self.wire();
            g.release = release.max(g.dlv);
            g.stuck = false;
            g.wscript.clear();
            g.wdefault = usize::MAX;
            g.werr = None;
            w0 = g.out.len();
        }
        let p = match ty {
            PacketType::Genuine => Payload::genuine(contents),
            PacketType::Decoy => Payload::decoy(contents),
        };
        macro_rules! polled {
            ($r:ident, $wr_:ident, $rd:path, $wr:path) => {{
                let (mut r, mut wr) = ($r, $wr_);
                let woken = Arc::new(Woken::default());
                let wk = Waker::from(woken.clone());
                let mut cx = Context::from_waker(&wk);
                let (rres, wres);
                {
                    let mut f = Box::pin(r.read());
                    let mut first = None;
                    for _ in 0..1000 {
                        lock(&w).scripted = false;
                        match f.as_mut().poll(&mut cx) {
                            Poll::Ready(v) => {
                                first = Some(v);
                                break;
                            }
                            Poll::Pending if lock(&w).scripted || woken.take() => {}
                            Poll::Pending => break,
                        }
                    }
                    wres = guarded(|| drive_rt(&self.rt, &w, wr.write(&p), None));
                    lock(&w).release = usize::MAX;
                    rres = match first {
                        Some(v) => Ok(Polled::Done(v)),
                        None => guarded(|| {
                            let mut n = 0;
                            loop {
                                lock(&w).scripted = false;
                                match f.as_mut().poll(&mut cx) {
                                    Poll::Ready(v) => return Polled::Done(v),
                                    Poll::Pending if (lock(&w).scripted || woken.take()) && n < 10000 => n += 1,
                                    Poll::Pending => return Polled::Waiting,
                                }
                            }
                        }),
                    };
                }
                self.conn = Some(Conn::Halves(Some($rd(r)), Some($wr(wr))));
                self.write_done(wres, w0, contents, ty, None);
                let avail = self.wire().inb.len();
                self.read_done(rres, avail, false);
                        }};
        }
        macro_rules! threads {
            ($r:ident, $wr_:ident, $rd:path, $wr:path) => {{
                let (mut r, mut wr) = ($r, $wr_);
                lock(&w).release = usize::MAX;
                let gate = self.gate.clone();
                *gate.0.lock().unwrap() = (true, false);
                let (rtx, rrx) = mpsc::channel();
                let (wtx, wrx) = mpsc::channel();
                std::thread::spawn(move || {
                    let v = guarded(|| r.read());
                    let _ = rtx.send((v, r));
                });
                {
                    let g = gate.0.lock().unwrap();
                    let _ = gate.1.wait_timeout_while(g, Duration::from_secs(20), |g| !g.1);
                }
                std::thread::spawn(move || {
                    let v = guarded(|| wr.write(&p));
                    let _ = wtx.send((v, wr));
                });
                let wv = wrx.recv_timeout(Duration::from_secs(20));
                gate.0.lock().unwrap().0 = false;
                gate.1.notify_all();
                let rv = rrx.recv_timeout(Duration::from_secs(20));
                let (wres, wr) = match wv {
                    Ok((v, wr)) => (v.map(Polled::Done), Some(wr)),
                    Err(_) => (Ok(Polled::Waiting), None),
                };
                let (rres, r) = match rv {
                    Ok((v, r)) => (v.map(Polled::Done), Some(r)),
                    Err(_) => (Ok(Polled::Waiting), None),
                };
                if let (Some(r), Some(wr)) = (r, wr) {
                    self.conn = Some(Conn::Halves(Some($rd(r)), Some($wr(wr))));
                }
                self.write_done(wres, w0, contents, ty, None);
                let avail = self.wire().inb.len();
                self.read_done(rres, avail, false);
                        }};
        }
        match self.conn.take() {
            Some(Conn::Halves(Some(Rd::A(r)), Some(Wr::A(wr)))) => polled!(r, wr, Rd::A, Wr::A),
            Some(Conn::Halves(Some(Rd::ShA(r)), Some(Wr::ShA(wr)))) => polled!(r, wr, Rd::ShA, Wr::ShA),
            Some(Conn::Halves(Some(Rd::S(r)), Some(Wr::S(wr)))) => threads!(r, wr, Rd::S, Wr::S),
            Some(Conn::Halves(Some(Rd::ShS(r)), Some(Wr::ShS(wr)))) => threads!(r, wr, Rd::ShS, Wr::ShS),
            c => self.conn = c,
        }
    }
    /// `n` bytes from the session reader itself, through the various ways a caller can read from it.
    fn raw_bytes(&mut self, n: usize) -> Vec<u8> {
        use std::pin::Pin;
        use tokio::io::{AsyncRead, ReadBuf};
        let w = self.w.clone();
        let mut b = vec![0u8; n];
        let mut have = 0;
        let mut turn = self.got;
        if let Some(Conn::Halves(Some(rd), _)) = self.conn.as_mut() {
            while have < n {
                turn += 1;
                let left = n - have;
                let r = match rd {
                    Rd::SRaw(_, r) => {
                        let k = match turn % 3 {
                            0 => r.read(&mut b[have..]),
                            1 => {
                                // scattered over several buffers
                                let (x, y) = b[have..].split_at_mut(left / 2);
                                r.read_vectored(&mut [std::io::IoSliceMut::new(&mut []), std::io::IoSliceMut::new(x), std::io::IoSliceMut::new(y)])
                            }
                            _ => {
                                // appended to what a vector holds
                                let mut v = vec![0xA5; 7];
                                let want = left.min(50);
                                let k = std::io::Read::take(std::io::Read::by_ref(r), want as u64).read_to_end(&mut v);
                                if v[..7.min(v.len())] != [0xA5; 7] {
                                    break;
                                }
                                b[have..have + v.len() - 7].copy_from_slice(&v[7..]);
                                if k.is_err() && v.len() > 7 { Ok(v.len() - 7) } else { k }
                            }
                        };
                        match k {
                            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                            r => r.ok(),
                        }
                    }
                    Rd::ARaw(_, r) => match turn % 4 {
                        0 => match drive(&w, r.read(&mut b[have..]), None) {
                            Polled::Done(Err(e)) if e.kind() == ErrorKind::Interrupted => continue,
                            Polled::Done(r) => r.ok(),
                            _ => None,
                        },
                        1 | 2 => {
                            // a buffer that holds something already
                            let held = [1usize, 4096, 30][turn % 3];
                            let mut store = vec![std::mem::MaybeUninit::new(0xA5u8); held + left];
                            let mut rb = if turn % 4 == 1 { ReadBuf::uninit(&mut store) } else { ReadBuf::uninit(&mut store[..held + left.min(9)]) };
                            rb.put_slice(&vec![0xA5; held]);
                            let k = match drive(&w, std::future::poll_fn(|cx| Pin::new(&mut *r).poll_read(cx, &mut rb)), None) {
                                Polled::Done(Ok(())) => {
                                    let f = rb.filled();
                                    if f.len() < held || f[..held].iter().any(|x| *x != 0xA5) {
                                        b[have] ^= 1;
                                        None
                                    } else {
                                        b[have..have + f.len() - held].copy_from_slice(&f[held..]);
                                        Some(f.len() - held)
                                    }
                                }
                                Polled::Done(Err(e)) if e.kind() == ErrorKind::Interrupted => continue,
                                _ => None,
                            };
                            k
                        }
                        _ => {
                            let mut v = vec![0xA5; 7];
                            let want = left.min(50);
                            let k = drive(&w, async { tokio::io::AsyncReadExt::take(&mut *r, want as u64).read_to_end(&mut v).await }, None);
                            if v[..7.min(v.len())] != [0xA5; 7] {
                                break;
                            }
                            b[have..have + v.len() - 7].copy_from_slice(&v[7..]);
                            // what came before a failure, too, is in the vector
                            match k {
                                Polled::Done(Err(e)) if e.kind() == ErrorKind::Interrupted => {
                                    have += v.len() - 7;
                                    continue;
                                }
                                _ => Some(v.len() - 7),
                            }
                        }
                    },
                    _ => None,
                };
                match r {
                    Some(k) if k > 0 => have += k,
                    _ => break,
                }
            }
        }
        b.truncate(have);
        b
    }
    fn raw_read(&mut self) -> bool {
        if self.spoiled {
            return false;
        }
        // stream offset of the next packet
        let mut off = 0;
        let (exp, len) = {
            let g = self.wire();
            off += 64 + g.occ.max(0) as usize + 16;
            for f in &g.facts[..self.got.min(g.facts.len())] {
                off += 3 + f.len;
            }
            let len = match g.facts.get(self.got) {
                Some(f) => f.len,
                None => return false,
            };
            (g.inb[off.min(g.inb.len())..(off + 3 + len).min(g.inb.len())].to_vec(), len)
        };
        let b = guarded(|| self.raw_bytes(3 + len)).unwrap_or_default();
        self.log.ev(json!({"op": "raw", "want": 3 + len, "n": b.len(), "same": b == exp[..b.len().min(exp.len())] && b.len() <= exp.len()}));
        if b.len() < 3 + len {
            self.spoiled = true;
            return false;
        }
        let lf: [u8; 3] = b[..3].try_into().unwrap();
        let copy = self.got % 3 == 0;
        let Some(Conn::Halves(Some(Rd::SRaw(c, _) | Rd::ARaw(c, _)), _)) = self.conn.as_mut() else { return false };
        if copy {
            *c = c.clone();
        }
        let r = guarded(|| {
            let l = c.decrypt_packet_len(lf);
            let mut body = b[3..].to_vec();
            c.decrypt_in_place(&mut body, None).map(|(t, p)| (l, t, p.to_vec()))
        });
        let obs = match r {
            Ok(Ok((l, _t, p))) if l == len => {
                let g = self.wire();
                let hit = |f: &PktFact| f.contents == p[1..] && f.hdr == p[0] as i64;
                let idx = match g.facts.get(self.got) {
                    Some(f) if hit(f) => self.got as i64 + 1,
                    _ => g.facts.iter().position(hit).map(|i| i as i64 + 1).unwrap_or(-1),
                };
                json!({"res": "ok", "idx": idx, "same": idx > 0})
            }
            Ok(Ok(_)) => json!({"res": "wrong length"}),
            Ok(Err(e)) => crate::sess::err_json(&e),
            Err(()) => json!({"res": "panic"}),
        };
        let ok = obs["res"] == "ok";
        if ok {
            self.got += 1;
        }
        self.spoiled = !ok;
        self.log.ev(crate::log::merge(json!({"op": "rawopen"}), obs));
        ok
    }
    /// `inj`: fail after so many bytes of this packet.
    pub fn write(&mut self, contents: &[u8], ty: PacketType, script: &[Act], wdefault: usize, inj: Option<WErr>) -> bool {
        let w0;
        {
            let mut g = self.wire();
            g.wscript = script.iter().copied().collect();
            g.wdefault = wdefault;
            w0 = g.out.len();
            g.werr = inj.map(|e| WErr { at: e.at + w0, ..e });
        }
        let p = match ty {
            PacketType::Genuine => Payload::genuine(contents),
            PacketType::Decoy => Payload::decoy(contents),
        };
        self.send(p, contents, ty, w0, inj)
    }
    /// Send on what was read last, as it is or a copy of it.
    pub fn relay(&mut self) -> bool {
        let Some(p) = self.last.take() else { return false };
        let (contents, ty) = (p.contents().to_vec(), p.packet_type());
        let p = if self.got % 2 == 0 { p.clone() } else { p };
        let w0;
        {
            let mut g = self.wire();
            g.wscript.clear();
            g.wdefault = usize::MAX;
            w0 = g.out.len();
            g.werr = None;
        }
        self.send(p, &contents, ty, w0, None)
    }
    fn send(&mut self, p: Payload, contents: &[u8], ty: PacketType, w0: usize, inj: Option<WErr>) -> bool {
        let (w, rt) = (self.w.clone(), &self.rt);
        let copy = self.out_n % 3 == 0;
        let Some(conn) = self.conn.as_mut() else { return false };
        let r = guarded(|| match conn {
            Conn::SWhole(c) => Polled::Done(c.write(&p)),
            Conn::AWhole(c) => drive(&w, c.write(&p), None),
            Conn::Halves(_, Some(Wr::S(c))) => Polled::Done(c.write(&p)),
            Conn::Halves(_, Some(Wr::A(c))) => drive(&w, c.write(&p), None),
            Conn::ShS(c) => Polled::Done(c.write(&p)),
            Conn::Halves(_, Some(Wr::ShS(c))) => Polled::Done(c.write(&p)),
            Conn::ShA(c) => drive_rt(rt, &w, c.write(&p), None),
            Conn::Halves(_, Some(Wr::ShA(c))) => drive_rt(rt, &w, c.write(&p), None),
            Conn::Halves(_, Some(Wr::Raw(c, mw, is_async))) => {
                if copy {
                    *c = c.clone();
                }
                if contents.len() > 0xffffff {
                    let mut b = vec![0u8; contents.len() + 20];
                    return Polled::Done(c.encrypt(contents, &mut b, ty, None).map_err(ProtocolError::from));
                }
                let b = c.encrypt_to_vec(contents, ty, None);
                if *is_async {
                    drive(&w, async { AsyncWriteExt::write_all(mw, &b).await?; AsyncWriteExt::flush(mw).await.map_err(ProtocolError::from) }, None)
                } else {
                    Polled::Done(Write::write_all(mw, &b).and_then(|_| Write::flush(mw)).map_err(ProtocolError::from))
                }
            }
            _ => Polled::Waiting,
        });
        self.write_done(r, w0, contents, ty, inj)
    }
    fn write_done(&mut self, r: Result<Polled<Result<(), ProtocolError>>, ()>, w0: usize, contents: &[u8], ty: PacketType, inj: Option<WErr>) -> bool {
        let mut ok = false;
        let mut obs = match r {
            Ok(Polled::Done(Ok(()))) => {
                ok = true;
                json!({"res": "ok"})
            }
            Ok(Polled::Done(Err(e))) => perr(&e),
            Ok(_) => json!({"res": "pending"}),
            Err(()) => json!({"res": "panic"}),
        };
        let (mine, hint) = (self.mine, self.out_n);
        let mut g = lock(&self.w);
        obs["w"] = json!(g.out.len() - w0);
        obs["unflushed"] = json!(g.out.len() - g.flushed);
        if ok {
            let bytes = g.out[w0..].to_vec();
            if let Some(mut s) = g.sess.take() {
                obs["pkt"] = out_facts(&mut s, mine, hint, &bytes, contents, &[]);
                g.sess = Some(s);
            }
            self.out_n += 1;
        }
        drop(g);
        self.log.ev(crate::log::merge(json!({"op": "write", "n": contents.len(), "ty": pt_name(ty), "inj": match inj {
            Some(e) => json!({"at": e.at, "kind": if e.how == How::Zero { "WriteZero".into() } else { format!("{:?}", e.kind) }}),
            None => json!({"at": -1, "kind": "none"}),
        }}), obs));
        ok
    }
}

