//! Drives the sans-IO API and logs every call with its arguments and observable result.
use crate::log::{guarded, merge, Log};
use crate::refimpl::{self, RefSession};
use bip324::{
    CipherSession, Error, FillBytes, GarbageResult, Handshake, InboundCipher, Initialized, OutboundCipher, PacketType,
    ReceivedGarbage, ReceivedKey, Role, SentKey, SentVersion, VersionResult,
};
use secp256k1::SecretKey;
use serde_json::{json, Value};
use std::collections::HashMap;

pub struct FixedRng(pub [u8; 32]);
impl FillBytes for FixedRng {
    fn fill_bytes(&mut self, dest: &mut [u8; 32]) {
        *dest = self.0;
    }
}

#[allow(unreachable_patterns)]
pub fn err_name(e: &Error) -> (String, Option<usize>) {
    match e {
        Error::CiphertextTooSmall => ("CiphertextTooSmall".into(), None),
        Error::BufferTooSmall { required_bytes } => ("BufferTooSmall".into(), Some(*required_bytes)),
        Error::PacketTooBig => ("PacketTooBig".into(), None),
        Error::TooMuchGarbage => ("TooMuchGarbage".into(), None),
        Error::NoGarbageTerminator => ("NoGarbageTerminator".into(), None),
        Error::V1Protocol => ("V1Protocol".into(), None),
        Error::SecretGeneration(_) => ("SecretGeneration".into(), None),
        Error::Decryption(_) => ("Decryption".into(), None),
        other => (format!("other: {other:?}"), None),
    }
}
pub fn err_json(e: &Error) -> Value {
    // showing an error, and asking for its cause, always works
    if guarded(|| (e.to_string(), std::error::Error::source(e).map(|s| s.to_string()))).is_err() {
        return panic_json();
    }
    let (n, r) = err_name(e);
    match r {
        Some(r) => json!({"res": n, "need": r}),
        None => json!({ "res": n }),
    }
}
pub fn panic_json() -> Value {
    json!({"res": "panic"})
}

/// Does the handshake tell its own role and magic?
fn told<S>(h: &Handshake<S>, p: (Role, [u8; 4])) -> &'static str {
    if *h.magic() == p.1 && rname(h.role()) == rname(p.0) {
        "ok"
    } else {
        "ok, with another role or magic"
    }
}

pub enum Ciphers {
    Whole(CipherSession),
    Split(InboundCipher, OutboundCipher),
}
impl Ciphers {
    /// Carry on with a copy, or put one to some other use first: no difference to the original.
    fn copied(&mut self, k: u64) {
        let r = guarded(|| match (k % 5, &mut *self) {
            (0, Ciphers::Whole(c)) => *c = c.clone(),
            (0, Ciphers::Split(i, o)) => (*i, *o) = (i.clone(), o.clone()),
            (2, Ciphers::Split(_, o)) => *o = o.clone(),
            (4, Ciphers::Split(i, _)) => *i = i.clone(),
            (1 | 3, c) => {
                let (mut i, mut o) = (c.inb().clone(), c.outb().clone());
                let mut b = [0u8; 23];
                for _ in 0..k % 7 {
                    let _ = o.encrypt(b"abc", &mut b, PacketType::Genuine, None);
                    i.decrypt_packet_len([b[0], b[1], b[2]]);
                    let _ = i.decrypt_in_place(&mut b[3..], None);
                }
            }
            _ => {}
        });
        // a panic shows as a party that is gone
        r.unwrap_or(())
    }
    pub fn inb(&mut self) -> &mut InboundCipher {
        match self {
            Ciphers::Whole(c) => c.inbound(),
            Ciphers::Split(i, _) => i,
        }
    }
    pub fn outb(&mut self) -> &mut OutboundCipher {
        match self {
            Ciphers::Whole(c) => c.outbound(),
            Ciphers::Split(_, o) => o,
        }
    }
}

pub enum St {
    None,
    Init(Handshake<Initialized>),
    SentKey(Handshake<SentKey<'static>>),
    RecvKey(Handshake<ReceivedKey<'static>>),
    SentVer(Handshake<SentVersion>),
    Garb(Handshake<ReceivedGarbage<'static>>),
    Done(Ciphers),
    Ref,
    Dead,
}

pub struct Party {
    pub st: St,
    pub role: Role,
    pub magic: [u8; 4],
    pub secret: Option<SecretKey>,
    pub key: [u8; 64],
    pub garbage: Vec<u8>,
    /// session as this party should see it
    pub sess: Option<RefSession>,
    pub sess_id: [i64; 3],
    pub out_n: u64,
    pub in_len: u64,
    pub in_pkt: u64,
    /// bytes produced by send_key / send_version
    pub flight1: Vec<u8>,
    pub flight2: Vec<u8>,
}

#[derive(Clone)]
pub struct SealedPkt {
    pub bytes: Vec<u8>,
    pub contents: Vec<u8>,
    pub aad: String,
}

pub struct World<'l> {
    pub log: &'l mut Log,
    pub p: [Party; 2],
    pub sealed: Vec<SealedPkt>,
    pub aads: HashMap<String, Vec<u8>>,
    keys: HashMap<[u8; 64], i64>,
    magics: HashMap<[u8; 4], i64>,
    rngs: HashMap<[u8; 32], i64>,
}

pub fn name(x: usize) -> &'static str {
    ["A", "B"][x]
}
pub fn rname(r: Role) -> &'static str {
    match r {
        Role::Initiator => "I",
        Role::Responder => "R",
    }
}
fn dirno(r: Role) -> usize {
    match r {
        Role::Initiator => 0,
        Role::Responder => 1,
    }
}
pub fn pt_name(t: PacketType) -> &'static str {
    match t {
        PacketType::Genuine => "G",
        PacketType::Decoy => "D",
    }
}

pub const FILL: u8 = 0xA5;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OpenApi {
    Buf,
    InPlace,
    Vec,
}
#[derive(Clone, Debug)]
pub enum Mut {
    None,
    Flip(usize),
    Trunc(usize),
    Ext(usize),
    /// replace everything by other bytes of this length
    Junk(Vec<u8>),
    /// last 16 bytes taken from another sealed packet
    TagOf(usize),
}
impl Mut {
    pub fn name(&self) -> &'static str {
        match self {
            Mut::None => "none",
            Mut::Flip(_) => "flip",
            Mut::Trunc(_) => "trunc",
            Mut::Ext(_) => "ext",
            Mut::Junk(_) => "junk",
            Mut::TagOf(_) => "tagof",
        }
    }
}

impl Party {
    fn empty() -> Party {
        Party {
            st: St::None,
            role: Role::Initiator,
            magic: [0; 4],
            secret: None,
            key: [0; 64],
            garbage: vec![],
            sess: None,
            sess_id: [0; 3],
            out_n: 0,
            in_len: 0,
            in_pkt: 0,
            flight1: vec![],
            flight2: vec![],
        }
    }
}

pub fn at(pos: Option<u64>) -> Value {
    match pos {
        Some(p) => json!([p / refimpl::REKEY, p % refimpl::REKEY]),
        None => json!([-1, -1]),
    }
}

impl<'l> World<'l> {
    pub fn new(log: &'l mut Log) -> World<'l> {
        let mut aads = HashMap::new();
        aads.insert("e".to_string(), vec![]);
        World {
            log,
            p: [Party::empty(), Party::empty()],
            sealed: vec![],
            aads,
            keys: HashMap::new(),
            magics: HashMap::new(),
            rngs: HashMap::new(),
        }
    }
    pub fn case(&mut self, props: &[&str], desc: String) {
        self.log.case(props, desc);
        self.p = [Party::empty(), Party::empty()];
        self.sealed.clear();
        self.aads.retain(|k, _| k == "e");
        self.keys.clear();
        self.magics.clear();
        self.rngs.clear();
    }
    pub fn key_id(&mut self, k: &[u8; 64]) -> i64 {
        let n = self.keys.len() as i64 + 1;
        *self.keys.entry(*k).or_insert(n)
    }
    fn magic_id(&mut self, m: &[u8; 4]) -> i64 {
        let n = self.magics.len() as i64 + 1;
        *self.magics.entry(*m).or_insert(n)
    }
    /// Name for associated data; equal bytes share a name.
    pub fn aad_id(&mut self, b: &[u8]) -> String {
        for (k, v) in &self.aads {
            if v == b {
                return k.clone();
            }
        }
        let id = format!("a{}", self.aads.len());
        self.aads.insert(id.clone(), b.to_vec());
        id
    }
    fn call(&mut self, req: Value, obs: Value) {
        self.log.ev(merge(req, obs));
    }

    /// A party running the code under test. `secret`: None = the library's own random source.
    pub fn new_party(&mut self, x: usize, role: Role, magic: [u8; 4], secret: Option<[u8; 32]>) -> bool {
        self.p[x] = Party::empty();
        self.p[x].role = role;
        self.p[x].magic = magic;
        let mid = self.magic_id(&magic);
        let r = guarded(|| match secret {
            Some(sk) => Handshake::<Initialized>::new_with_rng(magic, role, &mut FixedRng(sk), secp256k1::SECP256K1),
            None => Handshake::<Initialized>::new(magic, role),
        });
        let rng = match secret {
            None => 0,
            Some(sk) if SecretKey::from_slice(&sk).is_err() => -1,
            Some(sk) => {
                let n = self.rngs.len() as i64 + 1;
                *self.rngs.entry(sk).or_insert(n)
            }
        };
        let mut req = json!({"op": "new", "x": name(x), "role": rname(role), "magic": mid, "rng": rng, "fresh": 0});
        match r {
            Ok(Ok(h)) => {
                // The key shows in the bytes send_key writes; probe it with a clone made by replay.
                let sk = secret.and_then(|s| SecretKey::from_slice(&s).ok());
                self.p[x].secret = sk;
                // Handshake is not Clone: learn the key from a second, identical construction if possible.
                let key = match secret {
                    Some(s) => {
                        let h2 = Handshake::<Initialized>::new_with_rng(magic, role, &mut FixedRng(s), secp256k1::SECP256K1);
                        let mut b = [0u8; 64];
                        match h2.and_then(|h2| h2.send_key(None, &mut b).map(|_| ())) {
                            Ok(()) => Some(b),
                            Err(_) => None,
                        }
                    }
                    None => None,
                };
                let mut obs = json!({"res": told(&h, (role, magic)), "valid": true});
                if let Some(k) = key {
                    let id = self.key_id(&k);
                    let es = secp256k1::ellswift::ElligatorSwift::from_array(k);
                    let valid = sk
                        .map(|sk| {
                            secp256k1::PublicKey::from_ellswift(es).x_only_public_key().0
                                == sk.public_key(secp256k1::SECP256K1).x_only_public_key().0
                        })
                        .unwrap_or(false);
                    obs = json!({"res": "ok", "valid": valid, "key": id});
                    req["fresh"] = json!(id);
                    self.p[x].key = k;
                } else {
                    // key unknown until it is sent
                    obs["key"] = json!(0);
                }
                self.p[x].st = St::Init(h);
                self.call(req, obs);
                true
            }
            Ok(Err(e)) => {
                self.p[x].st = St::Dead;
                self.call(req, err_json(&e));
                false
            }
            Err(()) => {
                self.p[x].st = St::Dead;
                self.call(req, panic_json());
                false
            }
        }
    }

    /// A party played by the reference implementation.
    pub fn new_ref(&mut self, x: usize, role: Role, magic: [u8; 4], secret: [u8; 32], garbage: &[u8]) {
        self.p[x] = Party::empty();
        let (sk, key) = refimpl::keypair(secret).expect("valid secret");
        self.p[x].role = role;
        self.p[x].magic = magic;
        self.p[x].secret = Some(sk);
        self.p[x].key = key;
        self.p[x].garbage = garbage.to_vec();
        self.p[x].st = St::Ref;
        self.p[x].flight1 = [&key[..], garbage].concat();
        let (mid, kid) = (self.magic_id(&magic), self.key_id(&key));
        self.call(
            json!({"op": "refkey", "x": name(x), "role": rname(role), "magic": mid, "key": kid}),
            json!({"res": "ok"}),
        );
    }
    pub fn ref_receive_key(&mut self, x: usize, key: [u8; 64]) {
        let kid = self.key_id(&key);
        self.derive(x, key, kid);
        self.call(json!({"op": "refsess", "x": name(x), "key": kid}), json!({"res": "ok"}));
    }
    fn derive(&mut self, x: usize, theirs: [u8; 64], kid: i64) {
        let me = self.key_id(&self.p[x].key.clone());
        let mid = self.magic_id(&self.p[x].magic.clone());
        let p = &mut self.p[x];
        let init = p.role == Role::Initiator;
        p.sess_id = if init { [me, kid, mid] } else { [kid, me, mid] };
        if let Some(sk) = p.secret {
            let (i, r) = if init { (p.key, theirs) } else { (theirs, p.key) };
            p.sess = Some(RefSession::derive(&i, &r, &sk, init, &p.magic));
        }
    }
    /// The reference peer seals a packet at any position, with any header; returns its index.
    pub fn ref_seal(&mut self, x: usize, as_role: Role, pos: u64, hdr: u8, contents: &[u8], aad: &str) -> usize {
        let aadb = self.aads[aad].clone();
        let d = dirno(as_role);
        let bytes = self.p[x].sess.as_mut().expect("session").dir[d].seal(pos, hdr, contents, &aadb);
        self.sealed.push(SealedPkt { bytes, contents: contents.to_vec(), aad: aad.into() });
        self.call(
            json!({"op": "refseal", "x": name(x), "d": rname(as_role), "pos": pos, "n": contents.len(), "hdr": hdr, "aad": aad}),
            json!({"res": "ok"}),
        );
        self.sealed.len() - 1
    }

    /// `slack` bytes more (or fewer, if negative) than required.
    pub fn send_key(&mut self, x: usize, garbage: Option<Vec<u8>>, slack: i64) -> bool {
        let h = match std::mem::replace(&mut self.p[x].st, St::Dead) {
            St::Init(h) => h,
            _ => return false,
        };
        let g: Option<&'static [u8]> = garbage.map(|g| &*Box::leak(g.into_boxed_slice()));
        let glen = g.map(|g| g.len()).unwrap_or(0);
        let gid = self.aad_id(g.unwrap_or(&[]));
        let lenfn = guarded(|| Handshake::<Initialized>::send_key_len(g));
        let size = ((64 + glen) as i64 + slack).max(0) as usize;
        let mut buf = vec![FILL; size];
        let mut req = json!({"op": "sendkey", "x": name(x), "g": glen, "gid": gid, "buf": size, "fresh": 0,
            "gopt": g.is_some(), "lenfn": lenfn.map(|l| l as i64).unwrap_or(-1)});
        match guarded(|| h.send_key(g, &mut buf)) {
            Ok(Ok(h)) => {
                let k: [u8; 64] = buf[..64].try_into().unwrap();
                let known = self.p[x].secret.is_some();
                if !known {
                    self.p[x].key = k;
                }
                let kid = self.key_id(&k);
                req["fresh"] = json!(kid);
                let gok = buf.len() >= 64 + glen && buf[64..64 + glen] == *g.unwrap_or(&[]);
                let tail = buf[64 + glen..].iter().all(|b| *b == FILL);
                self.p[x].garbage = g.unwrap_or(&[]).to_vec();
                self.p[x].flight1 = buf[..64 + glen].to_vec();
                let res = told(&h, (self.p[x].role, self.p[x].magic));
                self.p[x].st = St::SentKey(h);
                self.call(req, json!({"res": res, "key": kid, "gok": gok, "tail": tail}));
                true
            }
            Ok(Err(e)) => {
                self.call(req, err_json(&e));
                false
            }
            Err(()) => {
                self.call(req, panic_json());
                false
            }
        }
    }

    pub fn recv_key(&mut self, x: usize, key: [u8; 64]) -> bool {
        let h = match std::mem::replace(&mut self.p[x].st, St::Dead) {
            St::SentKey(h) => h,
            _ => return false,
        };
        let kid = self.key_id(&key);
        let v1 = key[..4] == self.p[x].magic;
        let req = json!({"op": "recvkey", "x": name(x), "key": kid, "v1": v1});
        match guarded(|| h.receive_key(key)) {
            Ok(Ok(h)) => {
                let res = told(&h, (self.p[x].role, self.p[x].magic));
                self.derive(x, key, kid);
                self.p[x].st = St::RecvKey(h);
                self.call(req, json!({"res": res}));
                true
            }
            Ok(Err(e)) => {
                self.call(req, err_json(&e));
                false
            }
            Err(()) => {
                self.call(req, panic_json());
                false
            }
        }
    }

    /// Facts about a whole packet that party x sealed.
    fn facts(&mut self, x: usize, bytes: &[u8], contents: &[u8], asked_aad: &str) -> Value {
        let hint = self.p[x].out_n;
        let ids: Vec<String> = {
            let mut v = vec![asked_aad.to_string()];
            v.extend(self.aads.keys().filter(|k| *k != asked_aad).cloned());
            v
        };
        let aads: Vec<Vec<u8>> = ids.iter().map(|i| self.aads[i].clone()).collect();
        let refs: Vec<&[u8]> = aads.iter().map(|v| v.as_slice()).collect();
        let lf: [u8; 3] = bytes[..3].try_into().unwrap();
        let body = &bytes[3..];
        let p = &mut self.p[x];
        let mine = dirno(p.role);
        let Some(sess) = p.sess.as_mut() else {
            return json!({"lk": [-1, -1]});
        };
        let lpos = sess.dir[mine].identify_len(hint, lf, body.len() - 17);
        let declared = match lpos {
            Some(l) => sess.dir[mine].dec_len(l, lf),
            None => sess.dir[mine].dec_len(hint, lf),
        };
        for (d, label) in [(mine, "own"), (1 - mine, "peer")] {
            if let Some(o) = sess.dir[d].identify(hint, body, &refs) {
                return json!({"lk": at(lpos), "pk": at(Some(o.pos)), "d": label, "n": declared,
                    "hdr": o.plain[0], "aad": ids[o.aad], "same": o.plain[1..] == *contents});
            }
        }
        json!({"lk": at(lpos), "pk": [-1, -1], "d": "unknown", "n": declared, "hdr": -1, "aad": "?", "same": false})
    }

    pub fn send_version(&mut self, x: usize, decoys: Option<&[Vec<u8>]>, slack: i64) -> bool {
        let h = match std::mem::replace(&mut self.p[x].st, St::Dead) {
            St::RecvKey(h) => h,
            _ => return false,
        };
        let refs: Option<Vec<&[u8]>> = decoys.map(|d| d.iter().map(|v| v.as_slice()).collect());
        let sizes: Vec<usize> = decoys.unwrap_or(&[]).iter().map(|d| d.len()).collect();
        let need = 16 + 20 + sizes.iter().map(|n| n + 20).sum::<usize>();
        let lenfn = guarded(|| Handshake::<ReceivedKey>::send_version_len(refs.as_deref()));
        let size = (need as i64 + slack).max(0) as usize;
        let mut buf = vec![FILL; size];
        let req = json!({"op": "sendver", "x": name(x), "decoys": sizes, "buf": size,
            "lenfn": lenfn.map(|l| l as i64).unwrap_or(-1)});
        match guarded(|| h.send_version(&mut buf, refs.as_deref())) {
            Ok(Ok(h)) => {
                self.p[x].st = St::SentVer(h);
                let tail = buf[need..].iter().all(|b| *b == FILL);
                let mine = dirno(self.p[x].role);
                let term = match &self.p[x].sess {
                    Some(s) if buf[..16] == s.term[mine] => "own",
                    Some(s) if buf[..16] == s.term[1 - mine] => "peer",
                    _ => "unknown",
                };
                let mut pkts = vec![];
                let mut pos = 16;
                let gid = self.aad_id(&self.p[x].garbage.clone());
                let empty: Vec<u8> = vec![];
                for (i, n) in sizes.iter().chain(std::iter::once(&0)).enumerate() {
                    let bytes = buf[pos..pos + n + 20].to_vec();
                    let contents = decoys.and_then(|d| d.get(i)).unwrap_or(&empty).clone();
                    let aad = if i == 0 { gid.clone() } else { "e".to_string() };
                    let f = self.facts(x, &bytes, &contents, &aad);
                    pkts.push(f);
                    self.sealed.push(SealedPkt { bytes, contents, aad });
                    self.p[x].out_n += 1;
                    pos += n + 20;
                }
                self.p[x].flight2 = buf[..need].to_vec();
                self.call(req, json!({"res": "ok", "term": term, "pkts": pkts, "tail": tail}));
                true
            }
            Ok(Err(e)) => {
                self.call(req, err_json(&e));
                false
            }
            Err(()) => {
                self.call(req, panic_json());
                false
            }
        }
    }

    /// Present `input` (everything received after the key). Returns consumed bytes when found.
    pub fn recv_garbage(&mut self, x: usize, input: &[u8]) -> Option<usize> {
        let h = match std::mem::replace(&mut self.p[x].st, St::Dead) {
            St::SentVer(h) => h,
            _ => return None,
        };
        let term = self.p[x].sess.as_ref().map(|s| s.term[1 - dirno(self.p[x].role)]);
        let occ = term.and_then(|t| input.windows(16).position(|w| w == t));
        let gid = match occ {
            Some(o) => self.aad_id(&input[..o]),
            None => "?".to_string(),
        };
        let leaked: &'static [u8] = Box::leak(input.to_vec().into_boxed_slice());
        let req = json!({"op": "recvgarb", "x": name(x), "n": input.len(),
            "occ": occ.map(|o| o as i64).unwrap_or(-1), "gid": gid});
        match guarded(|| h.receive_garbage(leaked)) {
            Ok(Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes })) => {
                let res = told(&handshake, (self.p[x].role, self.p[x].magic));
                self.p[x].st = St::Garb(handshake);
                self.call(req, json!({"res": if res == "ok" { "found" } else { res }, "used": consumed_bytes}));
                Some(consumed_bytes)
            }
            Ok(Ok(GarbageResult::NeedMoreData(h))) => {
                let res = told(&h, (self.p[x].role, self.p[x].magic));
                self.p[x].st = St::SentVer(h);
                self.call(req, json!({"res": if res == "ok" { "more" } else { res }}));
                None
            }
            Ok(Err(e)) => {
                self.call(req, err_json(&e));
                None
            }
            Err(()) => {
                self.call(req, panic_json());
                None
            }
        }
    }

    fn src_json(src: Option<usize>) -> i64 {
        src.map(|s| s as i64 + 1).unwrap_or(0)
    }

    fn input(&self, src: Option<usize>, m: &Mut) -> Vec<u8> {
        let mut b = match src {
            Some(s) => self.sealed[s].bytes[3..].to_vec(),
            None => vec![],
        };
        match m {
            Mut::None => {}
            Mut::Flip(bit) => {
                let n = b.len() * 8;
                let bit = bit % n;
                b[bit / 8] ^= 1 << (bit % 8);
            }
            Mut::Trunc(n) => b.truncate(*n),
            Mut::Ext(n) => b.extend(vec![0u8; *n]),
            Mut::Junk(v) => b = v.clone(),
            Mut::TagOf(o) => {
                let n = b.len();
                let ob = &self.sealed[*o].bytes;
                b[n - 16..].copy_from_slice(&ob[ob.len() - 16..]);
            }
        }
        b
    }

    /// The three length bytes of packet `src` (or the given ones) to the handshake.
    pub fn len_bytes(&mut self, x: usize, src: Option<usize>, other: Option<[u8; 3]>) -> Option<usize> {
        let bytes: [u8; 3] = match (src, other) {
            (_, Some(b)) => b,
            (Some(s), None) => self.sealed[s].bytes[..3].try_into().unwrap(),
            _ => [0; 3],
        };
        let mutn = if other.is_some() { "flip" } else { "none" };
        let hs = matches!(self.p[x].st, St::Garb(_));
        let req = json!({"op": if hs {"hslen"} else {"declen"}, "x": name(x), "src": Self::src_json(src), "mut": mutn});
        let r = match &mut self.p[x].st {
            St::Garb(h) => guarded(|| h.decrypt_packet_len(bytes)),
            St::Done(c) => {
                let c = c.inb();
                guarded(|| Ok(c.decrypt_packet_len(bytes)))
            }
            _ => return None,
        };
        self.p[x].in_len += 1;
        match r {
            Ok(Ok(v)) => {
                self.call(req, json!({"res": "ok", "val": v}));
                Some(v)
            }
            Ok(Err(e)) => {
                self.call(req, err_json(&e));
                None
            }
            Err(()) => {
                self.call(req, panic_json());
                None
            }
        }
    }

    /// Returns Some(true) when the handshake completed, Some(false) on a decoy.
    pub fn recv_version(&mut self, x: usize, src: Option<usize>, m: &Mut) -> Option<bool> {
        let h = match std::mem::replace(&mut self.p[x].st, St::Dead) {
            St::Garb(h) => h,
            _ => return None,
        };
        let mut b = self.input(src, m);
        let req = json!({"op": "recvver", "x": name(x), "src": Self::src_json(src), "mut": m.name(), "clen": b.len()});
        match guarded(|| h.receive_version(&mut b)) {
            Ok(Ok(VersionResult::Complete { cipher })) => {
                self.p[x].st = St::Done(Ciphers::Whole(cipher));
                self.p[x].in_pkt += 1;
                self.call(req, json!({"res": "complete"}));
                Some(true)
            }
            Ok(Ok(VersionResult::Decoy(h))) => {
                self.p[x].st = St::Garb(h);
                self.p[x].in_pkt += 1;
                self.call(req, json!({"res": "decoy"}));
                Some(false)
            }
            Ok(Err(e)) => {
                self.call(req, err_json(&e));
                None
            }
            Err(()) => {
                self.call(req, panic_json());
                None
            }
        }
    }

    pub fn done(&mut self, x: usize) {
        let id = match &self.p[x].st {
            St::Done(Ciphers::Whole(c)) => *c.id(),
            _ => return,
        };
        let sid = match &self.p[x].sess {
            Some(s) if s.id == id => self.p[x].sess_id,
            _ => [-1, -1, -1],
        };
        self.call(json!({"op": "done", "x": name(x)}), json!({"res": "ok", "sid": sid}));
    }
    pub fn split(&mut self, x: usize) {
        if let St::Done(c) = std::mem::replace(&mut self.p[x].st, St::Dead) {
            self.p[x].st = match c {
                Ciphers::Whole(c) => {
                    let (i, o) = c.into_split();
                    St::Done(Ciphers::Split(i, o))
                }
                c => St::Done(c),
            };
        }
    }
    pub fn is_done(&self, x: usize) -> bool {
        matches!(self.p[x].st, St::Done(_))
    }

    /// `slack`: None uses the allocating call.
    pub fn seal(&mut self, x: usize, contents: &[u8], ty: PacketType, aad: &str, slack: Option<i64>) -> Option<usize> {
        let aadb = self.aads[aad].clone();
        let aref: Option<&[u8]> = if aad == "e" && contents.len() % 2 == 0 { None } else { Some(&aadb) };
        let need = contents.len() + 20;
        let lenfn = guarded(|| OutboundCipher::encryption_buffer_len(contents.len()));
        let size = (need as i64 + slack.unwrap_or(0)).max(0) as usize;
        let mut buf = vec![FILL; size];
        let api = if slack.is_some() { "buf" } else { "vec" };
        let req = json!({"op": "seal", "x": name(x), "api": api, "n": contents.len(), "ty": pt_name(ty), "aad": aad,
            "buf": size, "lenfn": lenfn.map(|l| l as i64).unwrap_or(-1)});
        let k = self.p[x].out_n + self.p[x].in_pkt;
        let c = match &mut self.p[x].st {
            St::Done(c) => {
                if k % 3 == 0 {
                    c.copied(k / 3);
                }
                c.outb()
            }
            _ => return None,
        };
        let r = guarded(|| {
            if slack.is_some() {
                c.encrypt(contents, &mut buf, ty, aref).map(|_| ())
            } else {
                buf = c.encrypt_to_vec(contents, ty, aref);
                Ok(())
            }
        });
        match r {
            Ok(Ok(())) => {
                let bytes = buf[..need.min(buf.len())].to_vec();
                if bytes.len() < need {
                    self.call(req, json!({"res": "ok", "tail": false, "pkt": {"lk": [-1, -1]}}));
                    return None;
                }
                let tail = buf[need..].iter().all(|b| *b == FILL) && (slack.is_some() || buf.len() == need);
                let f = self.facts(x, &bytes, contents, aad);
                self.p[x].out_n += 1;
                self.sealed.push(SealedPkt { bytes, contents: contents.to_vec(), aad: aad.into() });
                self.call(req, json!({"res": "ok", "tail": tail, "pkt": f}));
                Some(self.sealed.len() - 1)
            }
            Ok(Err(e)) => {
                self.call(req, err_json(&e));
                None
            }
            Err(()) => {
                self.call(req, panic_json());
                None
            }
        }
    }

    pub fn open(&mut self, x: usize, api: OpenApi, src: Option<usize>, m: &Mut, aad: &str, slack: i64) -> bool {
        let aadb = self.aads[aad].clone();
        let input = self.input(src, m);
        let aref: Option<&[u8]> = if aad == "e" && input.len() % 2 == 0 { None } else { Some(&aadb) };
        let plain = input.len().saturating_sub(16);
        let size = (plain as i64 + slack).max(0) as usize;
        let apin = match api {
            OpenApi::Buf => "buf",
            OpenApi::InPlace => "inplace",
            OpenApi::Vec => "vec",
        };
        let req = json!({"op": "open", "x": name(x), "api": apin, "src": Self::src_json(src), "mut": m.name(),
            "clen": input.len(), "aad": aad, "buf": size});
        let k = self.p[x].out_n + self.p[x].in_pkt;
        let c = match &mut self.p[x].st {
            St::Done(c) => {
                if k % 3 == 1 {
                    c.copied(k / 3);
                }
                c.inb()
            }
            _ => return false,
        };
        let mut buf = vec![FILL; size];
        let mut own = input.clone();
        let r = guarded(|| match api {
            OpenApi::Buf => c.decrypt(&input, &mut buf, aref).map(|t| (t, buf.clone())),
            OpenApi::InPlace => c.decrypt_in_place(&mut own, aref).map(|(t, s)| (t, s.to_vec())),
            OpenApi::Vec => c.decrypt_to_vec(&input, aref).map(|(t, v)| (t, v)),
        });
        match r {
            Ok(Ok((t, out))) => {
                let (hdr, same, tail) = match src {
                    Some(s) => {
                        let k = &self.sealed[s];
                        let n = k.contents.len();
                        let got = out.len() > n && out[1..1 + n] == k.contents[..];
                        let tail = if api == OpenApi::Buf {
                            out.len() == size && out[(1 + n).min(out.len())..].iter().all(|b| *b == FILL)
                        } else {
                            out.len() == n + 1
                        };
                        (out.first().map(|b| *b as i64).unwrap_or(-1), got, tail)
                    }
                    None => (-1, false, false),
                };
                self.p[x].in_pkt += 1;
                self.call(req, json!({"res": "ok", "ty": pt_name(t), "hdr": hdr, "same": same, "tail": tail}));
                true
            }
            Ok(Err(e)) => {
                // The ciphertext the caller lent stays what it was, for the corrected call.
                let mut o = err_json(&e);
                o["kept"] = json!(own == input);
                self.call(req, o);
                false
            }
            Err(()) => {
                self.call(req, panic_json());
                false
            }
        }
    }

    /// n packets from x to the other party: sealed by the code under test (`seal`) or by the
    /// reference, opened by the code under test (`open`) or dropped. Sizes cycle over `sizes`.
    pub fn bulk(&mut self, x: usize, n: u64, sizes: &[usize], seal: bool, open: bool, full_check: bool) {
        let mut segs: Vec<[u64; 3]> = vec![];
        let mut bad = 0u64;
        let req = json!({"op": "bulk", "x": name(x), "n": n, "seal": seal, "open": open});
        let (l, r) = self.p.split_at_mut(1);
        let (px, py) = if x == 0 { (&mut l[0], &mut r[0]) } else { (&mut r[0], &mut l[0]) };
        let role = px.role;
        let mut pos = if seal { px.out_n } else { py.in_pkt };
        // The reference session: of either party (the same one for honest peers).
        let own = seal && px.sess.is_some();
        let mut rs = if own { px.sess.take() } else { py.sess.take() };
        let dir = &mut rs.as_mut().expect("session").dir[dirno(role)];
        let mut buf = vec![0u8; sizes.iter().max().unwrap() + 20];
        let mut plain = vec![0u8; sizes.iter().max().unwrap() + 1];
        let contents: Vec<u8> = (0..*sizes.iter().max().unwrap()).map(|i| i as u8).collect();
        let outcome = guarded(|| {
            for i in 0..n {
                let size = sizes[(pos as usize) % sizes.len()];
                let decoy = pos % 3 == 2;
                let ty = if decoy { PacketType::Decoy } else { PacketType::Genuine };
                let hdr = if decoy { 128 } else { 0 };
                let wire = &mut buf[..size + 20];
                let off = pos % refimpl::REKEY;
                let check = full_check || off < 2 || off > 221 || i == 0 || i == n - 1;
                if pos % 53 == 52 {
                    for q in [&mut *px, &mut *py] {
                        if let St::Done(c) = &mut q.st {
                            c.copied(pos / 53);
                        }
                    }
                }
                if seal {
                    let St::Done(c) = &mut px.st else { bad += 1; return };
                    if c.outb().encrypt(&contents[..size], wire, ty, None).is_err() {
                        bad += 1;
                        break;
                    }
                    if check {
                        let body = &wire[3..];
                        let lf: [u8; 3] = wire[..3].try_into().unwrap();
                        let lpos = dir.identify_len(pos, lf, size);
                        let o = dir.identify(pos, body, &[&[]]);
                        match (lpos, o) {
                            (Some(lp), Some(o)) if lp == o.pos && o.plain[0] == hdr && o.plain[1..] == contents[..size] => {
                                push_seg(&mut segs, o.pos, full_check);
                            }
                            _ => bad += 1,
                        }
                    }
                } else {
                    wire.copy_from_slice(&dir.seal(pos, hdr, &contents[..size], &[]));
                }
                if open {
                    let St::Done(c) = &mut py.st else { bad += 1; return };
                    let lf: [u8; 3] = wire[..3].try_into().unwrap();
                    let bl = c.inb().decrypt_packet_len(lf);
                    if bl != size + 17 {
                        bad += 1;
                    }
                    let t = c.inb().decrypt(&wire[3..], &mut plain[..size + 1], None);
                    match t {
                        Ok(t) if t == ty && plain[1..size + 1] == contents[..size] && plain[0] == hdr => {}
                        _ => bad += 1,
                    }
                }
                pos += 1;
                if bad > 3 {
                    break;
                }
            }
        });
        if own {
            px.sess = rs;
        } else {
            py.sess = rs;
        }
        if seal {
            px.out_n += n;
        }
        if open {
            py.in_len += n;
            py.in_pkt += n;
        }
        let obs = match outcome {
            Ok(()) => json!({"res": "ok", "segs": segs, "bad": bad}),
            Err(()) => panic_json(),
        };
        self.call(req, obs);
    }
}

/// Extend the run of consecutive positions (an unchecked stretch counts as part of the run when
/// both its ends were identified at the right distance).
fn push_seg(segs: &mut Vec<[u64; 3]>, pos: u64, full: bool) {
    let (g, o) = (pos / refimpl::REKEY, pos % refimpl::REKEY);
    if let Some(l) = segs.last_mut() {
        if l[0] == g && (l[2] + 1 == o || (!full && o > l[2])) {
            l[2] = o;
            return;
        }
    }
    segs.push([g, o, o]);
}
