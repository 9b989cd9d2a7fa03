//! Scenario groups for the sans-IO API.
use crate::log::{Log, Rng};
use crate::refimpl::{self, RefSession};
use crate::sess::*;
use bip324::{PacketType, Role};
use secp256k1::{ellswift::ElligatorSwift, PublicKey, SecretKey};
use PacketType::{Decoy, Genuine};

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
}

pub const MAGIC: [u8; 4] = [0xF9, 0xBE, 0xB4, 0xD9];

/// How a connection is set up.
#[derive(Clone)]
pub struct Hs {
    pub role: [Role; 2],
    pub magic: [[u8; 4]; 2],
    pub secret: [[u8; 32]; 2],
    pub garb: [Option<Vec<u8>>; 2],
    /// packets after the terminator: header byte and contents (the code under test can only send
    /// decoys with header 128 and an empty version)
    pub pk: [Vec<(u8, Vec<u8>)>; 2],
    pub is_ref: [bool; 2],
}
impl Hs {
    pub fn honest(r: &mut Rng) -> Hs {
        let flip = r.chance(50);
        Hs {
            role: if flip { [Role::Responder, Role::Initiator] } else { [Role::Initiator, Role::Responder] },
            magic: [MAGIC; 2],
            secret: [r.arr32(), r.arr32()],
            garb: [None, None],
            pk: [vec![(0, vec![])], vec![(0, vec![])]],
            is_ref: [false, false],
        }
    }
    pub fn garbage(mut self, x: usize, g: Vec<u8>) -> Hs {
        self.garb[x] = Some(g);
        self
    }
    pub fn decoys(mut self, x: usize, d: Vec<Vec<u8>>) -> Hs {
        self.pk[x] = d.into_iter().map(|c| (128, c)).collect();
        self.pk[x].push((0, vec![]));
        self
    }
    pub fn reference(mut self, x: usize) -> Hs {
        self.is_ref[x] = true;
        self
    }
}

pub type Idx = [Vec<usize>; 2];

/// Keys exchanged and second flights produced.
pub fn prepare(w: &mut World, h: &Hs) -> Option<Idx> {
    for x in 0..2 {
        if h.is_ref[x] {
            w.new_ref(x, h.role[x], h.magic[x], h.secret[x], h.garb[x].as_deref().unwrap_or(&[]));
        } else {
            if !w.new_party(x, h.role[x], h.magic[x], Some(h.secret[x])) {
                return None;
            }
            if !w.send_key(x, h.garb[x].clone(), 0) {
                return None;
            }
        }
    }
    for x in 0..2 {
        let k = w.p[1 - x].key;
        if h.is_ref[x] {
            w.ref_receive_key(x, k);
        } else if !w.recv_key(x, k) {
            return None;
        }
    }
    let mut idx: Idx = [vec![], vec![]];
    for x in 0..2 {
        idx[x] = second_flight(w, h, x)?;
    }
    Some(idx)
}

pub fn second_flight(w: &mut World, h: &Hs, x: usize) -> Option<Vec<usize>> {
    let first = w.sealed.len();
    if h.is_ref[x] {
        let gid = w.aad_id(h.garb[x].as_deref().unwrap_or(&[]));
        let sess = w.p[x].sess.as_ref().unwrap();
        let d = if h.role[x] == Role::Initiator { 0 } else { 1 };
        let mut f = sess.term[d].to_vec();
        let mut v = vec![];
        for (i, (hdr, c)) in h.pk[x].iter().enumerate() {
            let aad = if i == 0 { gid.clone() } else { "e".into() };
            let s = w.ref_seal(x, h.role[x], i as u64, *hdr, c, &aad);
            f.extend_from_slice(&w.sealed[s].bytes);
            v.push(s);
        }
        w.p[x].flight2 = f;
        w.p[x].out_n = h.pk[x].len() as u64;
        Some(v)
    } else {
        let n = h.pk[x].len() - 1;
        let decoys: Vec<Vec<u8>> = h.pk[x][..n].iter().map(|p| p.1.clone()).collect();
        let opt = if decoys.is_empty() && h.secret[x][5] % 2 == 0 { None } else { Some(&decoys[..]) };
        if !w.send_version(x, opt, 0) {
            return None;
        }
        Some((first..w.sealed.len()).collect())
    }
}

pub fn inbound_bytes(w: &World, x: usize) -> Vec<u8> {
    let y = 1 - x;
    [&w.p[y].garbage[..], &w.p[y].flight2[..]].concat()
}

/// x reads its peer's garbage, terminator and handshake packets.
pub fn finish(w: &mut World, x: usize, pk: &[usize]) -> bool {
    let input = inbound_bytes(w, x);
    if w.recv_garbage(x, &input).is_none() {
        return false;
    }
    for s in pk {
        w.len_bytes(x, Some(*s), None);
        match w.recv_version(x, Some(*s), &Mut::None) {
            Some(true) => {
                w.done(x);
                return true;
            }
            Some(false) => {}
            None => return false,
        }
    }
    false
}

pub fn connect(w: &mut World, h: &Hs) -> Option<Idx> {
    let idx = prepare(w, h)?;
    for x in 0..2 {
        if !h.is_ref[x] && !finish(w, x, &idx[1 - x]) {
            return None;
        }
    }
    Some(idx)
}

/// One packet from x to y through given calls, untouched.
pub fn pass(w: &mut World, x: usize, contents: &[u8], ty: PacketType, vec: bool, api: OpenApi) -> bool {
    match w.seal(x, contents, ty, "e", if vec { None } else { Some(0) }) {
        Some(s) => {
            w.len_bytes(1 - x, Some(s), None);
            w.open(1 - x, api, Some(s), &Mut::None, "e", 0)
        }
        None => false,
    }
}

const APIS: [OpenApi; 3] = [OpenApi::Buf, OpenApi::InPlace, OpenApi::Vec];

fn ping_pong(w: &mut World, r: &mut Rng, n: usize) {
    for i in 0..n {
        let x = r.below(2);
        let sz = [0, 1, 2, 31, 64, 100][r.below(6)];
        let c = r.bytes(sz);
        let ty = if r.chance(30) { Decoy } else { Genuine };
        pass(w, x, &c, ty, i % 2 == 0, APIS[r.below(3)]);
    }
}

fn fill(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => r.bytes(n),
    }
}

/// Honest handshakes over garbage lengths, decoy lists, magics; a few packets after each.
pub fn honest(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 1);
    let mut w = World::new(log);
    let props = &["C01", "C03", "C04", "C06", "C13", "C05", "C09", "C21"];
    let mut lens: Vec<usize> = (0..40).chain(4060..4096).chain([63, 64, 65, 127, 128, 223, 224, 225, 255, 256, 257, 511, 512, 513, 1023, 1024, 2047, 2048, 2049]).collect();
    if c.thorough {
        lens = (0..4096).collect();
    } else {
        for _ in 0..60 {
            lens.push(r.below(4096));
        }
    }
    for (i, g) in lens.iter().enumerate() {
        let g2 = if i % 3 == 0 { *g } else { *r.pick(&[0, 1, 15, 16, 17, 4095, 100]) };
        let mut h = Hs::honest(&mut r);
        let (a, b) = (fill(&mut r, *g), fill(&mut r, g2));
        if *g > 0 || i % 2 == 0 {
            h = h.garbage(0, a);
        }
        h = h.garbage(1, b);
        if i % 4 == 1 {
            let d = (0..r.range(1, 4)).map(|_| { let n = *r.pick(&[0usize, 1, 16, 100, 1000]); r.bytes(n) }).collect();
            h = h.decoys(r.below(2), d);
        }
        if i % 5 == 2 {
            h = h.reference(1);
            // an interoperable peer may send a version with contents and set unused header bits
            let n = r.below(40);
            h.pk[1] = vec![(0x80 | (r.next() as u8 & 0x7f), r.bytes(n)), ((r.next() as u8) & 0x7f, r.bytes(n))];
        }
        if i % 6 == 3 {
            h.magic = [r.magic(); 2];
        }
        w.case(props, format!("honest handshake, garbage {}/{}", g, g2));
        if connect(&mut w, &h).is_some() && !h.is_ref[1] {
            ping_pong(&mut w, &mut r, 4);
        }
    }
    // decoy counts, sizes and orders of the steps
    for n in [0usize, 1, 2, 3, 5, 10, 223, 224, 225, 255, 256, 257, 300, 1000, 5000] {
        if n > 1000 && !c.thorough {
            continue;
        }
        for side in 0..if n > 300 { 1 } else { 2 } {
            let mut h = Hs::honest(&mut r);
            let sz = if n > 10 { 3 } else { 50 };
            let d = (0..n).map(|_| { let k = r.below(sz); r.bytes(k) }).collect();
            h = h.decoys(side, d);
            if n % 2 == 1 || n > 200 {
                h = h.garbage(side, r.shaped(20));
            }
            if n > 250 {
                h = h.garbage(1 - side, r.shaped(3));
            }
            w.case(props, format!("honest handshake, {} decoys", n));
            if connect(&mut w, &h).is_some() {
                ping_pong(&mut w, &mut r, 6);
                w.split(0);
                ping_pong(&mut w, &mut r, 4);
                w.split(1);
                ping_pong(&mut w, &mut r, 4);
            }
        }
    }
    // large decoys in the handshake
    for n in [70_000usize, 1 << 20] {
        let h = Hs::honest(&mut r).decoys(0, vec![vec![3; n], vec![]]).garbage(0, r.bytes(9));
        w.case(props, format!("honest handshake, decoy of {} bytes", n));
        if connect(&mut w, &h).is_some() {
            ping_pong(&mut w, &mut r, 4);
        }
    }
    // one side finishes before the other has sent its second flight
    for k in 0..8 {
        let h = Hs::honest(&mut r).garbage(0, r.shaped(k)).garbage(1, r.bytes(2 * k));
        w.case(props, "honest handshake, staggered".into());
        let mut ok = true;
        for x in 0..2 {
            ok &= w.new_party(x, h.role[x], h.magic[x], Some(h.secret[x])) && w.send_key(x, h.garb[x].clone(), 0);
        }
        let (a, b) = if k % 2 == 0 { (0, 1) } else { (1, 0) };
        let kb = w.p[b].key;
        ok = ok && w.recv_key(a, kb) && w.send_version(a, None, 0);
        let ka = w.p[a].key;
        ok = ok && w.recv_key(b, ka) && w.send_version(b, None, 0);
        if ok {
            finish(&mut w, b, &[0]);
            if w.is_done(b) {
                w.seal(b, b"early", Genuine, "e", Some(0));
            }
            finish(&mut w, a, &[1]);
            if w.is_done(a) {
                w.len_bytes(a, Some(2), None);
                w.open(a, OpenApi::Vec, Some(2), &Mut::None, "e", 0);
                ping_pong(&mut w, &mut r, 4);
            }
        }
    }
}

/// Garbage terminator search and local garbage limits.
pub fn garbage(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 2);
    let mut w = World::new(log);
    let props = &["C06", "C04", "C10", "C03", "C01"];
    // local garbage
    for g in [0usize, 1, 4094, 4095, 4096, 4097, 4111, 4112, 8191, 8192, 65535, 65536, 69631, 70000, 1 << 20] {
        for slack in [0i64, 64] {
            w.case(props, format!("local garbage {}", g));
            let s = r.arr32();
            w.new_party(0, Role::Initiator, MAGIC, Some(s));
            w.send_key(0, Some(r.bytes(g)), slack);
        }
    }
    // every buffer length without a terminator
    for (k, with) in [(0, false), (1, true)] {
        let step = if c.thorough { 1 } else { 7 };
        w.case(props, "growing buffer without terminator".into());
        let h = Hs::honest(&mut r).reference(1);
        if prepare(&mut w, &h).is_none() {
            continue;
        }
        let other = if k == 0 { vec![0u8; 4111] } else { r.bytes(4111) };
        let mut stream = other;
        if with {
            // all but the last byte of the terminator, over and over
            let d = 1 - if h.role[0] == Role::Initiator { 0 } else { 1 };
            let t = w.p[0].sess.as_ref().unwrap().term[d];
            for ch in stream.chunks_mut(15) {
                let n = ch.len();
                ch.copy_from_slice(&t[..n]);
            }
        }
        let mut n = 0;
        while n <= 4110 && matches!(w.p[0].st, St::SentVer(_)) {
            w.recv_garbage(0, &stream[..n]);
            n += if n < 40 || n > 4080 { 1 } else { step };
        }
        if matches!(w.p[0].st, St::SentVer(_)) {
            w.recv_garbage(0, &stream[..4111]);
        }
    }
    // terminator at position g, buffer cut at several places, bytes following
    let mut lens: Vec<usize> = (0..20).chain(4085..4100).chain([100, 255, 256, 1000, 2048, 4111, 4112, 5000]).collect();
    if c.thorough {
        lens = (0..4130).collect();
    }
    for (i, g) in lens.into_iter().enumerate() {
        let h = Hs::honest(&mut r).garbage(1, fill(&mut r, g)).reference(1);
        w.case(props, format!("terminator after {} bytes", g));
        let Some(idx) = prepare(&mut w, &h) else { continue };
        let mut input = inbound_bytes(&w, 0);
        match i % 3 {
            0 => {}
            1 => input.extend(r.bytes(300)),
            _ => input.truncate(g + 16),
        }
        // cuts inside the terminator ask for more
        for cut in [g, g + 1, g + 8, g + 15] {
            if cut <= 4110 && cut <= input.len() {
                w.recv_garbage(0, &input[..cut]);
            }
        }
        if w.recv_garbage(0, &input).is_some() {
            w.len_bytes(0, Some(idx[1][0]), None);
            w.recv_version(0, Some(idx[1][0]), &Mut::None);
            w.done(0);
        }
    }
    // much more behind the terminator, or no terminator in a lot of bytes
    for (i, total) in [8192usize, 16_383, 32_768, 65_535, 65_536, 65_537, 65_552, 65_700, 70_000, 131_072, 1 << 20].into_iter().enumerate() {
        for (j, g) in [0usize, 1, 40, 200, 4094, 4095, 4096, 5000].into_iter().enumerate() {
            if !c.thorough && (i + j) % 2 == 1 && total > 65_537 {
                continue;
            }
            let h = Hs::honest(&mut r).garbage(1, fill(&mut r, g)).reference(1);
            w.case(props, format!("terminator after {g} of {total} bytes"));
            let Some(idx) = prepare(&mut w, &h) else { continue };
            let mut input = inbound_bytes(&w, 0);
            input.extend(r.bytes(total.saturating_sub(input.len())));
            if w.recv_garbage(0, &input).is_some() {
                w.len_bytes(0, Some(idx[1][0]), None);
                w.recv_version(0, Some(idx[1][0]), &Mut::None);
                w.done(0);
            }
        }
    }
    for total in [4110usize, 4111, 4112, 8191, 65_535, 65_536, 65_537, 65_552, 69_646, 69_647, 131_072] {
        w.case(props, format!("no terminator in {total} bytes"));
        let h = Hs::honest(&mut r).reference(1);
        if prepare(&mut w, &h).is_some() {
            w.recv_garbage(0, &vec![7; total]);
        }
    }
    // tricky contents of the garbage
    for variant in 0..10 {
        for g in [16usize, 17, 31, 32, 33, 64, 500, 4095] {
            let h0 = Hs::honest(&mut r).reference(1);
            // derive the terminators first: secrets fixed, so a dry run gives the session
            w.case(&[], "dry run".into());
            if prepare(&mut w, &h0).is_none() {
                continue;
            }
            let d = if h0.role[1] == Role::Initiator { 0 } else { 1 };
            let s = w.p[0].sess.as_ref().unwrap();
            let (theirs, mine) = (s.term[d], s.term[1 - d]);
            let mut gb = r.bytes(g);
            match variant {
                0 => gb[g - 15..].copy_from_slice(&theirs[..15]), // partial match right before the real one
                1 => gb[g - 16..].copy_from_slice(&mine),         // own terminator is no terminator
                2 => {
                    for ch in gb.chunks_mut(16) {
                        let n = ch.len();
                        ch.copy_from_slice(&mine[..n])
                    }
                }
                3 => gb[..15].copy_from_slice(&theirs[1..]),
                4 => {
                    gb[g - 16..].copy_from_slice(&theirs);
                    gb[g - 1] ^= 1
                }
                5 => {
                    gb[g - 16..].copy_from_slice(&theirs);
                    gb[g - 16] ^= 0x80
                }
                6 => gb[..16].copy_from_slice(&theirs), // ends at the first occurrence
                7 => {
                    for (i, b) in gb.iter_mut().enumerate() {
                        *b = theirs[i % 8]
                    }
                }
                8 => gb = vec![theirs[0]; g],
                _ => {
                    let o = g / 2;
                    let n = (g - o).min(15);
                    gb[o..o + n].copy_from_slice(&theirs[..n]);
                }
            }
            let h = h0.garbage(1, gb);
            w.case(props, format!("tricky garbage {} of {} bytes", variant, g));
            let Some(idx) = prepare(&mut w, &h) else { continue };
            let input = inbound_bytes(&w, 0);
            let mut cut = 0;
            let mut found = false;
            while cut < input.len() && !found && matches!(w.p[0].st, St::SentVer(_)) {
                cut = (cut + r.range(1, g.max(40))).min(input.len());
                found = w.recv_garbage(0, &input[..cut]).is_some();
            }
            if found {
                w.len_bytes(0, Some(idx[1][0]), None);
                w.recv_version(0, Some(idx[1][0]), &Mut::None);
                w.done(0);
            }
        }
    }
    // a terminator whose first bytes come again, right behind these bytes: nothing may be skipped in the search
    for p in [1usize, 2, 3, 5] {
        for (k, g) in [p, 100, 4095].into_iter().enumerate() {
            let mut h = Hs::honest(&mut r).reference(1);
            let d = if h.role[1] == Role::Initiator { 0 } else { 1 };
            let Some(theirs) = (0..20_000).find_map(|_| {
                h.secret[1] = r.arr32();
                let (sk, key) = refimpl::keypair(h.secret[1])?;
                let other = SecretKey::from_slice(&h.secret[0]).ok()?;
                let other = ElligatorSwift::from_pubkey(PublicKey::from_secret_key(secp256k1::SECP256K1, &other)).to_array();
                let (i, o) = if d == 0 { (key, other) } else { (other, key) };
                let t = RefSession::derive(&i, &o, &sk, d == 0, &MAGIC).term[d];
                (t[p] == t[0]).then_some(t)
            }) else {
                continue;
            };
            let mut gb = r.bytes(g);
            if k == 1 {
                gb = theirs[..p].iter().copied().cycle().take(g / p * p).collect();
            }
            let n = gb.len();
            gb[n - p..].copy_from_slice(&theirs[..p]);
            let h = h.garbage(1, gb);
            w.case(props, format!("a terminator that begins again after {p} bytes, garbage of {n}"));
            let Some(idx) = prepare(&mut w, &h) else { continue };
            let input = inbound_bytes(&w, 0);
            if w.recv_garbage(0, &input).is_some() {
                w.len_bytes(0, Some(idx[1][0]), None);
                w.recv_version(0, Some(idx[1][0]), &Mut::None);
                w.done(0);
            }
        }
    }
    // arbitrary bytes
    for n in [0usize, 1, 15, 16, 17, 4095, 4096, 4110, 4111, 4112, 5000, 70000] {
        let h = Hs::honest(&mut r).reference(1);
        w.case(props, format!("{} arbitrary bytes", n));
        if prepare(&mut w, &h).is_some() {
            let b = r.bytes(n);
            w.recv_garbage(0, &b);
            if n < 4111 {
                w.recv_garbage(0, &b);
            }
        }
    }
}

/// Sizes of contents through every call.
pub fn sizes(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 3);
    let mut w = World::new(log);
    let props = &["C01", "C04", "C09", "C11", "C13", "C10"];
    let small: Vec<usize> = (0..if c.thorough { 1300 } else { 280 }).collect();
    let h = Hs::honest(&mut r);
    w.case(props, "all small sizes".into());
    if connect(&mut w, &h).is_some() {
        for n in small {
            let x = n % 2;
            let b = r.bytes(n);
            let ty = if n % 5 == 0 { Decoy } else { Genuine };
            pass(&mut w, x, &b, ty, n % 3 == 0, APIS[n % 3]);
        }
    }
    let mut big: Vec<usize> = vec![];
    for k in 9..24 {
        for d in [-1i64, 0, 1] {
            if k < 20 || d == 0 || c.thorough {
                big.push(((1i64 << k) + d) as usize);
            }
        }
    }
    big.extend([4_000_012, 4_000_013, 4_000_014, 4_000_015, 4_000_030, 4_000_031, 4_000_032, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 5, 1 << 25]);
    for n in big {
        let h = Hs::honest(&mut r);
        w.case(props, format!("contents of {} bytes", n));
        if connect(&mut w, &h).is_none() {
            continue;
        }
        let b: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        w.seal(0, &b, Genuine, "e", Some(-1));
        let s = w.seal(0, &b, if n % 2 == 0 { Genuine } else { Decoy }, "e", Some(0));
        if let Some(s) = s {
            w.len_bytes(1, Some(s), None);
            w.open(1, OpenApi::Buf, Some(s), &Mut::None, "e", -1);
            if w.open(1, OpenApi::Vec, Some(s), &Mut::None, "e", 0) {
            } else if n % 2 == 0 {
                w.open(1, OpenApi::Buf, Some(s), &Mut::None, "e", 0);
            } else {
                w.open(1, OpenApi::InPlace, Some(s), &Mut::None, "e", 0);
            }
        }
        if n >= 1 << 24 {
            w.seal(0, &b, Genuine, "e", None);
        }
        pass(&mut w, 0, b"after", Genuine, true, OpenApi::Vec);
        pass(&mut w, 1, b"back", Decoy, false, OpenApi::Buf);
        w.sealed.clear();
    }
}

/// Refused calls, exact buffer sizes, malformed inputs: then the correct call succeeds.
pub fn refuse(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 4);
    let mut w = World::new(log);
    let props = &["C09", "C10", "C11", "C02", "C05", "C04"];
    // handshake buffers
    for g in [0usize, 1, 5, 100, 4095] {
        for slack in [-(64 + g as i64), -65, -64, -16, -2, -1, 0, 1, 2, 33, 4096, 5000, 70_000] {
            w.case(props, format!("send_key with garbage {} and {} slack", g, slack));
            let s = r.arr32();
            w.new_party(0, Role::Responder, MAGIC, Some(s));
            w.send_key(0, if g == 0 { None } else { Some(r.bytes(g)) }, slack);
        }
    }
    for d in [vec![], vec![0usize], vec![1], vec![0, 0, 5], vec![100, 0, 1000]] {
        for slack in [-10000i64, -37, -36, -21, -20, -17, -16, -2, -1, 0, 1, 19, 20, 500, 4097, 70_000] {
            for x in 0..2 {
                w.case(props, format!("send_version with decoys {:?} and {} slack", d, slack));
                let h = Hs::honest(&mut r).garbage(0, r.shaped(3));
                for y in 0..2 {
                    w.new_party(y, h.role[y], h.magic[y], Some(h.secret[y]));
                    w.send_key(y, h.garb[y].clone(), 0);
                }
                let k = w.p[1 - x].key;
                w.recv_key(x, k);
                let dv: Vec<Vec<u8>> = d.iter().map(|n| r.bytes(*n)).collect();
                w.send_version(x, Some(&dv), slack);
            }
        }
    }
    w.case(props, "send_version with an unrepresentable decoy".into());
    let h = Hs::honest(&mut r);
    for y in 0..2 {
        w.new_party(y, h.role[y], h.magic[y], Some(h.secret[y]));
        w.send_key(y, None, 0);
    }
    let k = w.p[1].key;
    w.recv_key(0, k);
    w.send_version(0, Some(&[vec![0; 1 << 24]]), 0);
    // packets: at the start, around a re-key, several generations in
    for burn in [0u64, 220, 221, 222, 223, 446, 447, 1343] {
        for pass_no in 0..if c.thorough { 12 } else { 3 } {
            let h = Hs::honest(&mut r);
            w.case(props, format!("refused calls after {} packets", burn));
            if connect(&mut w, &h).is_none() {
                continue;
            }
            for x in 0..2 {
                w.bulk(x, burn.saturating_sub(1).max(1), &[0, 1, 5], true, true, true);
            }
            for round in 0..6 {
                let x = r.below(2);
                let y = 1 - x;
                let n = *r.pick(&[0usize, 1, 15, 16, 17, 100]);
                let b = r.shaped(n);
                let aad_n = if r.chance(40) { *r.pick(&[16usize, 32, 33, 64, 255, 256, 4096, 9000]) } else { r.range(1, 5) };
                let aad_b = r.shaped(aad_n);
                let aad = if r.chance(30) { w.aad_id(&aad_b) } else { "e".to_string() };
                for _ in 0..r.below(4) {
                    let s = *r.pick(&[-1000i64, -20, -19, -17, -16, -4, -3, -2, -1]);
                    w.seal(x, &b, Genuine, &aad, Some(s));
                }
                let slack = *r.pick(&[0i64, 1, 3, 20, 100, 256, 4097, 5000, 70_000]);
                let ty = if round % 2 == 0 { Genuine } else { Decoy };
                let Some(s) = w.seal(x, &b, ty, &aad, if pass_no == 0 && round == 0 { None } else { Some(slack) }) else { continue };
                w.len_bytes(y, Some(s), None);
                for _ in 0..r.below(7) {
                    let api = APIS[r.below(3)];
                    let m = match r.below(7) {
                        0 => Mut::Trunc(r.below(17)),
                        1 => Mut::Trunc(n + 16 - r.below(n.min(3) + 1)),
                        2 => Mut::Ext(r.range(1, 20)),
                        3 => Mut::Flip(r.next() as usize & 0xffff),
                        4 => { let k = r.below(60); Mut::Junk(r.bytes(k)) }
                        5 => Mut::None,
                        _ => Mut::Flip((n + 17) * 8 - 1 - r.below(128)),
                    };
                    let wrong_b = r.bytes(3);
                    let wrong = if matches!(m, Mut::None) { w.aad_id(&wrong_b) } else { aad.clone() };
                    w.open(y, api, Some(s), &m, &wrong, *r.pick(&[0i64, 0, 1, -1, -200, 4097, 70_000]));
                    if r.chance(30) {
                        w.open(y, OpenApi::Buf, Some(s), &Mut::None, &aad, *r.pick(&[-1i64, -2, -1000]));
                    }
                }
                let api = APIS[r.below(3)];
                w.open(y, api, Some(s), &Mut::None, &aad, *r.pick(&[0i64, 1, 50, 1024, 4097, 70_000]));
            }
            ping_pong(&mut w, &mut r, 4);
        }
    }
    // every short ciphertext through every call
    let h = Hs::honest(&mut r);
    w.case(props, "all short ciphertexts".into());
    if connect(&mut w, &h).is_some() {
        let s = w.seal(0, b"hello world, hello world", Genuine, "e", Some(0)).unwrap_or(0);
        for n in 0..40 {
            for api in APIS {
                for slack in [0, -1, 5] {
                    w.open(1, api, Some(s), &Mut::Trunc(n), "e", slack);
                    w.open(1, api, None, &Mut::Junk(vec![n as u8; n]), "e", slack);
                }
            }
        }
        w.len_bytes(1, Some(s), None);
        w.open(1, OpenApi::Vec, Some(s), &Mut::None, "e", 0);
        for n in [4_000_030usize, 4_000_031, 1 << 23] {
            for api in APIS {
                w.open(1, api, None, &Mut::Junk(vec![7; n]), "e", 0);
            }
        }
        ping_pong(&mut w, &mut r, 6);
    }
}

/// An attacker on the packet stream.
pub fn attack(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 5);
    let mut w = World::new(log);
    let props = &["C02", "C05", "C09", "C10", "C21", "C13", "C04"];
    for run in 0..if c.thorough { 600 } else { 120 } {
        let h = Hs::honest(&mut r);
        w.case(props, format!("attack history {}", run));
        if connect(&mut w, &h).is_none() {
            continue;
        }
        let burn = *r.pick(&[0u64, 0, 218, 220, 222, 443, 670]);
        if burn > 0 {
            let x = r.below(2);
            w.bulk(x, burn, &[0, 2], true, true, true);
            if r.chance(60) {
                w.bulk(1 - x, burn + r.below(3) as u64, &[0, 2], true, true, true);
            }
        }
        // sealed packets per sender and the next one each receiver should see
        let mut q: [Vec<usize>; 2] = [vec![], vec![]];
        let mut next = [0usize; 2];
        let aad_bytes: Vec<Vec<u8>> = [0usize, 1, 33, *r.pick(&[2, 12, 16, 31, 32, 63, 64, 65]), *r.pick(&[127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 5000]), *r.pick(&[8192usize, 8193, 16_385, 32_768, 65_535, 65_536, 65_537, 100_000, 300_000])]
            .into_iter()
            .map(|n| r.shaped(n))
            .collect();
        for _ in 0..60 {
            let x = r.below(2);
            let y = 1 - x;
            match r.below(10) {
                0..=3 => {
                    let n = if r.chance(8) { *r.pick(&[255usize, 256, 1023, 4096, 5001, 66_000]) } else { *r.pick(&[0usize, 1, 16, 47, 64]) };
                    let b = if r.chance(20) && !q[x].is_empty() { w.sealed[*q[x].last().unwrap()].contents.clone() } else { r.shaped(n) };
                    let aad = w.aad_id(&aad_bytes[if r.chance(5) { 5 } else if r.chance(35) { r.range(1, 4) } else { 0 }].clone());
                    if let Some(s) = w.seal(x, &b, if r.chance(30) { Decoy } else { Genuine }, &aad, if r.chance(50) { Some(0) } else { None }) {
                        q[x].push(s);
                    }
                }
                4..=6 => {
                    // honest delivery
                    if next[x] < q[x].len() {
                        let s = q[x][next[x]];
                        if w.p[y].in_len == w.p[y].in_pkt {
                            w.len_bytes(y, Some(s), None);
                        }
                        let aad = w.sealed[s].aad.clone();
                        if w.open(y, APIS[r.below(3)], Some(s), &Mut::None, &aad, 0) {
                            next[x] += 1;
                        }
                    }
                }
                7 => {
                    // altered next packet, or with other associated data
                    if next[x] < q[x].len() {
                        let s = q[x][next[x]];
                        let len = w.sealed[s].bytes.len() - 3;
                        let (m, aad) = match r.below(6) {
                            0 => (Mut::Flip(r.next() as usize & 0xffffff), w.sealed[s].aad.clone()),
                            1 => (Mut::Flip(if r.chance(50) { 0 } else { (len - 17) * 8 + r.below(8) }), w.sealed[s].aad.clone()),
                            2 => (Mut::Flip((len - 1 - r.below(16)) * 8 + r.below(8)), w.sealed[s].aad.clone()),
                            3 => (Mut::TagOf(q[x][r.below(q[x].len())]), w.sealed[s].aad.clone()),
                            _ => (Mut::None, {
                                let cur = w.sealed[s].aad.clone();
                                let mut o = aad_bytes.iter().find(|b| w.aad_id(b) == cur).cloned().unwrap_or_default();
                                if o.is_empty() {
                                    o = aad_bytes[r.range(1, 4)].clone();
                                } else {
                                    let n = o.len();
                                    match r.below(7) {
                                        0 => o = vec![],
                                        1 => o[n - 1] ^= 1,
                                        2 => o[0] ^= 0x80,
                                        3 => o[r.below(n)] ^= 1 << r.below(8),
                                        4 => o.truncate(n - 1),
                                        5 => o.push(0),
                                        _ => o = aad_bytes[0].clone(),
                                    }
                                }
                                w.aad_id(&o)
                            }),
                        };
                        if let Mut::TagOf(o) = m {
                            if w.sealed[o].bytes == w.sealed[s].bytes || o == s {
                                continue;
                            }
                        }
                        w.open(y, APIS[r.below(3)], Some(s), &m, &aad, 0);
                    }
                }
                8 => {
                    // replay or skip: any packet of the same direction but the expected one
                    if !q[x].is_empty() {
                        let k = r.below(q[x].len());
                        if k != next[x] {
                            let s = q[x][k];
                            let aad = w.sealed[s].aad.clone();
                            w.open(y, APIS[r.below(3)], Some(s), &Mut::None, &aad, 0);
                        }
                    }
                }
                _ => {
                    // reflection to the sender
                    if !q[x].is_empty() {
                        let s = q[x][r.below(q[x].len())];
                        let aad = w.sealed[s].aad.clone();
                        w.open(x, APIS[r.below(3)], Some(s), &Mut::None, &aad, 0);
                    }
                }
            }
        }
        // drain
        for x in 0..2 {
            let y = 1 - x;
            while next[x] < q[x].len() {
                let s = q[x][next[x]];
                if w.p[y].in_len == w.p[y].in_pkt {
                    w.len_bytes(y, Some(s), None);
                }
                let aad = w.sealed[s].aad.clone();
                if !w.open(y, OpenApi::Buf, Some(s), &Mut::None, &aad, 3) {
                    break;
                }
                next[x] += 1;
            }
        }
    }
    // packets sealed under the right keys at wrong positions, generations, directions
    for run in 0..if c.thorough { 40 } else { 6 } {
        let h = Hs::honest(&mut r).reference(1);
        w.case(props, format!("packets sealed for other positions {}", run));
        if connect(&mut w, &h).is_none() {
            continue;
        }
        let burn = [0u64, 221, 222, 223, 447, 1000][run % 6];
        if burn > 0 {
            w.bulk(1, burn, &[1], false, true, true);
        }
        let base = w.p[0].in_pkt;
        let (me, they) = (h.role[0], h.role[1]);
        let mut offs: Vec<i64> = vec![-1, 1, 2, -2, 223, 224, 225, -223, -224, -225, 448, 256, 65536];
        offs.push(r.range(3, 2000) as i64);
        for o in offs {
            let pos = base as i64 + o;
            if pos < 0 {
                continue;
            }
            let s = w.ref_seal(1, they, pos as u64, 0, b"x", "e");
            w.open(0, APIS[r.below(3)], Some(s), &Mut::None, "e", 0);
        }
        let s = w.ref_seal(1, me, base, 0, b"x", "e");
        w.open(0, OpenApi::Vec, Some(s), &Mut::None, "e", 0);
        let g = w.aad_id(b"garbage");
        let s = w.ref_seal(1, they, base, 0, b"x", &g);
        w.open(0, OpenApi::Vec, Some(s), &Mut::None, "e", 0);
        let s = w.ref_seal(1, they, base, 0, b"right", "e");
        w.len_bytes(0, Some(s), None);
        for bit in 0..(w.sealed[s].bytes.len() - 3) * 8 {
            w.open(0, APIS[bit % 3], Some(s), &Mut::Flip(bit), "e", 0);
        }
        w.open(0, OpenApi::InPlace, Some(s), &Mut::None, "e", 0);
        let s = w.ref_seal(1, they, base + 1, 0, b"next", "e");
        w.len_bytes(0, Some(s), None);
        w.open(0, OpenApi::Buf, Some(s), &Mut::None, "e", 0);
    }
}

/// Header bytes.
pub fn headers(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 6);
    let mut w = World::new(log);
    let props = &["C13", "C01", "C04"];
    for api in APIS {
        let h = Hs::honest(&mut r).reference(1);
        w.case(props, "all header bytes".into());
        if connect(&mut w, &h).is_none() {
            continue;
        }
        let base = w.p[0].in_pkt;
        for hdr in 0..=255u8 {
            let n = hdr as usize % 4;
            let b = r.bytes(n);
            let s = w.ref_seal(1, h.role[1], base + hdr as u64, hdr, &b, "e");
            w.len_bytes(0, Some(s), None);
            w.open(0, api, Some(s), &Mut::None, "e", 0);
        }
    }
    // during the handshake: decoys of any header/contents, version of any header and contents
    for v in 0..=255u16 {
        if !c.thorough && v % 8 != 0 && v != 1 && v != 129 && v != 255 && v != 127 {
            continue;
        }
        let mut h = Hs::honest(&mut r).reference(1);
        let v = v as u8;
        let n = r.below(30);
        h.pk[1] = vec![(0x80 | v, r.bytes(n)), (!v | 0x80, vec![]), (v & 0x7f, r.bytes(n))];
        if v % 3 == 0 {
            h.pk[1].remove(0);
        }
        if v % 4 == 0 {
            h.garb[1] = Some(r.bytes(5));
        }
        w.case(props, format!("handshake headers {}", v));
        if let Some(_) = connect(&mut w, &h) {
            let s = w.ref_seal(1, h.role[1], w.p[1].out_n, v, b"data", "e");
            w.len_bytes(0, Some(s), None);
            w.open(0, OpenApi::Vec, Some(s), &Mut::None, "e", 0);
        }
    }
    // type given by the sender, all apis
    let h = Hs::honest(&mut r);
    w.case(props, "marking round trip".into());
    if connect(&mut w, &h).is_some() {
        for i in 0..48 {
            let ty = if i % 2 == 0 { Decoy } else { Genuine };
            let b = r.bytes(i / 12);
            pass(&mut w, (i / 2) % 2, &b, ty, i % 4 < 2, APIS[(i / 4) % 3]);
        }
    }
}

/// Long runs.
pub fn rekey(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 7);
    let props = &["C05", "C01", "C04", "C20"];
    {
        let mut w = World::new(log);
        // packet by packet over three generations, both directions, refusals in between
        let h = Hs::honest(&mut r).decoys(0, vec![vec![1], vec![2, 2]]);
        w.case(props, "every position of four generations".into());
        if connect(&mut w, &h).is_some() {
            for i in 0..920usize {
                let x = if i % 7 < 4 { 0 } else { 1 };
                let b = r.bytes(i % 3);
                if r.chance(6) {
                    w.seal(x, &b, Genuine, "e", Some(-1));
                }
                let Some(s) = w.seal(x, &b, if r.chance(30) { Decoy } else { Genuine }, "e", if i % 2 == 0 { Some(0) } else { None }) else { break };
                w.len_bytes(1 - x, Some(s), None);
                if r.chance(6) {
                    w.open(1 - x, APIS[i % 3], Some(s), &Mut::Flip(i), "e", 0);
                }
                if r.chance(4) {
                    w.open(1 - x, OpenApi::Buf, Some(s), &Mut::None, "e", -1);
                }
                if r.chance(4) {
                    w.open(1 - x, APIS[i % 3], Some(s), &Mut::Trunc(i % 17), "e", 0);
                }
                if !w.open(1 - x, APIS[i % 3], Some(s), &Mut::None, "e", 0) {
                    break;
                }
            }
        }
        // one direction far ahead of the other; reference peers on either side
        for k in 0..4 {
            let mut h = Hs::honest(&mut r);
            if k >= 2 {
                h = h.reference(1);
            }
            w.case(props, format!("one direction ahead {}", k));
            if connect(&mut w, &h).is_some() {
                let n = 224 * 40 + 17;
                if k < 2 {
                    w.bulk(k, n, &[0, 1, 30], true, true, true);
                    w.bulk(1 - k, 450, &[0, 1, 30], true, true, true);
                    w.bulk(k, 500, &[0, 1, 30], true, true, true);
                } else {
                    w.bulk(0, n, &[0, 7], true, false, true);
                    w.bulk(1, n, &[0, 7], false, true, true);
                    w.bulk(0, 225, &[0, 7], true, false, true);
                }
            }
        }
    }
    // past 2^8 and 2^16 generations, past 2^24 packets
    for k in 0..2 {
        let mut w = World::new(log);
        let deep = if k == 0 { 224 * 258 } else { (1 << 24) + 300 };
        let h = Hs::honest(&mut r);
        w.case(props, format!("{} packets", deep));
        if connect(&mut w, &h).is_some() {
            let x = r.below(2);
            let mut left = deep;
            while left > 0 {
                let n = left.min(224 * 100);
                w.bulk(x, n, &[0], true, true, false);
                left -= n;
            }
            w.bulk(x, 500, &[0, 3], true, true, true);
        }
    }
}

/// First bytes of the key against the magic.
pub fn v1(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 8);
    let mut w = World::new(log);
    let props = &["C12", "C10", "C01"];
    for i in 0..if c.thorough { 400 } else { 60 } {
        let magic: [u8; 4] = if i % 2 == 0 { MAGIC } else { r.magic() };
        let role = if i % 3 == 0 { Role::Initiator } else { Role::Responder };
        let mut key: [u8; 64] = r.bytes(64).try_into().unwrap();
        key[..4].copy_from_slice(&magic);
        match i % 10 {
            0 => {}
            1 => key[0] ^= 1,
            2 => key[1] ^= 0x80,
            3 => key[2] ^= 4,
            4 => key[3] ^= 1,
            5 => key[..4].reverse(),
            6 => {
                key[4..16].copy_from_slice(b"version\0\0\0\0\0");
            }
            7 => key = [0; 64],
            8 => key = [0xff; 64],
            _ => {
                key[4..16].copy_from_slice(b"version\0\0\0\0\0");
                key[3] ^= 0x10;
            }
        }
        w.case(props, format!("key prefix case {}", i % 10));
        let s = r.arr32();
        w.new_party(0, role, magic, Some(s));
        w.send_key(0, None, 0);
        if w.recv_key(0, key) {
            w.send_version(0, None, 0);
            w.recv_garbage(0, &key);
        }
    }
    // other networks' magics in front
    for m in [[0x0B, 0x11, 0x09, 0x07], [0x0A, 0x03, 0xCF, 0x40], [0xFA, 0xBF, 0xB5, 0xDA], [0, 0, 0, 0], [255; 4]] {
        for own in [MAGIC, m] {
            w.case(props, "other network's prefix".into());
            let mut key: [u8; 64] = r.bytes(64).try_into().unwrap();
            key[..4].copy_from_slice(&m);
            let s = r.arr32();
            w.new_party(0, Role::Responder, own, Some(s));
            w.send_key(0, None, 0);
            if w.recv_key(0, key) {
                w.send_version(0, None, 0);
            }
        }
    }
}

/// Modified or mismatched handshakes.
pub fn tamper(log: &mut Log, c: &Cfg) {
    let mut r = Rng::new(c.seed, 9);
    let mut w = World::new(log);
    let props = &["C03", "C02", "C10"];
    // byte-wise changes of everything the peer sends, judged by what actually decrypts
    for run in 0..if c.thorough { 24 } else { 4 } {
        let g = [0usize, 5, 20, 1][run % 4];
        let nd = [0usize, 1, 2, 0][run % 4];
        let base = {
            let mut h = Hs::honest(&mut r).garbage(1, r.shaped(g));
            let d = (0..nd).map(|i| r.bytes(i * 3)).collect();
            h = h.decoys(1, d);
            if run % 2 == 1 { h.reference(1) } else { h }
        };
        let total = 64 + g + 16 + base.pk[1].iter().map(|p| p.1.len() + 20).sum::<usize>();
        for at in 0..total {
            for kind in 0..3 {
                if kind > 0 && at % 5 != 0 && !c.thorough {
                    continue;
                }
                w.case(props, format!("handshake byte {} changed ({})", at, kind));
                one_tampered(&mut w, &base, &mut r, at, kind);
            }
        }
    }
    // roles and magics
    for i in 0..if c.thorough { 1200 } else { 150 } {
        let mut h = Hs::honest(&mut r).garbage(0, r.shaped(3));
        if i >= 24 {
            h.magic = [r.magic(); 2];
        }
        let expect_fail = match i % 6 {
            0 => { h.role = [Role::Initiator; 2]; true }
            1 => { h.role = [Role::Responder; 2]; true }
            2 => { h.magic[1][r.below(4)] ^= 1 << r.below(8); true }
            3 => { h.magic[0] = if r.chance(50) { r.magic() } else { r.bytes(4).try_into().unwrap() }; true }
            5 if i >= 24 => { let (k, b) = (r.below(4), r.below(8)); h.magic[1][k] ^= 1 << b; if r.chance(30) { h.magic[1].reverse() }; true }
            4 => { h.role = [Role::Initiator; 2]; h.magic[1][3] ^= 1; true }
            _ => false,
        };
        let _ = expect_fail;
        w.case(props, format!("mismatch {}", i % 6));
        let Some(idx) = prepare(&mut w, &h) else { continue };
        for x in 0..2 {
            let mut input = inbound_bytes(&w, x);
            // behind it, plenty of data
            w.recv_garbage(x, &input);
            if matches!(w.p[x].st, St::Garb(_)) {
                let s = idx[1 - x][0];
                w.len_bytes(x, Some(s), None);
                if w.recv_version(x, Some(s), &Mut::None) == Some(true) {
                    w.done(x);
                }
            } else {
                input.extend(r.bytes(5000));
                w.recv_garbage(x, &input);
            }
        }
    }
    // the garbage is bound to the first packet and to that packet only
    for i in 0..40 {
        let mut h = Hs::honest(&mut r).reference(1).garbage(1, r.shaped(1 + i % 7));
        let n = r.range(1, 3);
        h.pk[1] = (0..n).map(|k| (if k + 1 == n { 0u8 } else { 128 }, vec![k as u8; k])).collect();
        w.case(props, format!("associated data of the handshake packets {}", i));
        let Some(_) = prepare(&mut w, &h) else { continue };
        let input = inbound_bytes(&w, 0);
        if w.recv_garbage(0, &input).is_none() {
            continue;
        }
        let gid = w.aad_id(&h.garb[1].clone().unwrap());
        let wrong = w.aad_id(b"something else entirely");
        let mut truncated = h.garb[1].clone().unwrap();
        truncated.pop();
        let short = w.aad_id(&truncated);
        let pos_of_fault = r.below(n);
        for k in 0..n {
            let right = if k == 0 { gid.clone() } else { "e".to_string() };
            let aad = if k == pos_of_fault && i % 5 != 4 {
                if k == 0 { [&"e".to_string(), &wrong, &short][i % 3].clone() } else { [&gid, &wrong][i % 2].clone() }
            } else {
                right
            };
            let s = w.ref_seal(1, h.role[1], k as u64, h.pk[1][k].0, &h.pk[1][k].1.clone(), &aad);
            w.len_bytes(0, Some(s), None);
            match w.recv_version(0, Some(s), &Mut::None) {
                Some(true) => {
                    w.done(0);
                    break;
                }
                Some(false) => {}
                None => break,
            }
        }
    }
    // handshake packets out of order, repeated, from the other direction, of other positions
    for i in 0..30 {
        let mut h = Hs::honest(&mut r).reference(1);
        if i % 2 == 0 {
            h = h.garbage(1, r.bytes(4));
        }
        h.pk[1] = vec![(128, vec![1]), (128, vec![2]), (0, vec![])];
        w.case(props, format!("handshake packets rearranged {}", i));
        let Some(idx) = prepare(&mut w, &h) else { continue };
        let input = inbound_bytes(&w, 0);
        if w.recv_garbage(0, &input).is_none() {
            continue;
        }
        let order: Vec<usize> = match i % 10 {
            0 => vec![1, 0, 2],
            1 => vec![0, 0, 1, 2],
            2 => vec![0, 2],
            3 => vec![2],
            4 => vec![0, 1, 1],
            5 => vec![0, 1, 2],
            6 | 7 => vec![3],
            8 => vec![0, 3],
            _ => vec![1],
        };
        for o in order {
            let s = if o < 3 {
                idx[1][o]
            } else if i % 10 == 6 {
                // our own first packet reflected
                idx[0][0]
            } else {
                // version sealed for a later position
                w.ref_seal(1, h.role[1], 5, 0, &[], "e")
            };
            w.len_bytes(0, Some(s), None);
            match w.recv_version(0, Some(s), &Mut::None) {
                Some(true) => {
                    w.done(0);
                    break;
                }
                Some(false) => {}
                None => break,
            }
        }
    }
    // malformed packets in place of the first one
    for n in 0..40usize {
        let h = Hs::honest(&mut r).reference(1).garbage(1, r.bytes(n % 3));
        w.case(props, format!("{} bytes as first packet", n));
        let Some(idx) = prepare(&mut w, &h) else { continue };
        let input = inbound_bytes(&w, 0);
        if w.recv_garbage(0, &input).is_some() {
            w.len_bytes(0, None, Some([n as u8, 0, 0]));
            let m = if n % 2 == 0 { Mut::Trunc(n.min(16)) } else { Mut::Junk(r.bytes(n)) };
            w.recv_version(0, Some(idx[1][0]), &m);
        }
    }
}

/// Party 0 (real) receives party 1's bytes with one change at stream offset `at`
/// (0: flip a bit, 1: drop the byte, 2: insert a byte).
fn one_tampered(w: &mut World, h: &Hs, r: &mut Rng, at: usize, kind: usize) {
    for x in 0..2 {
        if h.is_ref[x] {
            w.new_ref(x, h.role[x], h.magic[x], h.secret[x], h.garb[x].as_deref().unwrap_or(&[]));
        } else if !(w.new_party(x, h.role[x], h.magic[x], Some(h.secret[x])) && w.send_key(x, h.garb[x].clone(), 0)) {
            return;
        }
    }
    let k0 = w.p[0].key;
    if h.is_ref[1] {
        w.ref_receive_key(1, k0);
    } else if !w.recv_key(1, k0) {
        return;
    }
    let Some(idx1) = second_flight(w, h, 1) else { return };
    let mut stream = w.p[1].flight1.clone();
    stream.extend_from_slice(&w.p[1].flight2);
    let bit = 1u8 << r.below(8);
    match kind {
        0 => stream[at] ^= bit,
        1 => {
            stream.remove(at);
            stream.push(0x55);
        }
        _ => {
            let b = r.next() as u8;
            // inserting a byte equal to the one it precedes may leave the prefix unchanged; make it differ
            let b = if b == stream[at] { b ^ 1 } else { b };
            stream.insert(at, b);
        }
    }
    let key: [u8; 64] = stream[..64].try_into().unwrap();
    if !w.recv_key(0, key) {
        return;
    }
    if second_flight(w, h, 0).is_none() {
        return;
    }
    let rest = &stream[64..];
    let Some(used) = w.recv_garbage(0, rest) else {
        if matches!(w.p[0].st, St::SentVer(_)) {
            let long = [rest, &r.bytes(4200)[..]].concat();
            w.recv_garbage(0, &long);
        }
        return;
    };
    let mut pos = used;
    let mut k = 0;
    while pos + 3 <= rest.len() {
        let lf: [u8; 3] = rest[pos..pos + 3].try_into().unwrap();
        let intact_len = k < idx1.len() && w.sealed[idx1[k]].bytes[..3] == lf;
        let v = w.len_bytes(0, if k < idx1.len() { Some(idx1[k]) } else { None }, if intact_len { None } else { Some(lf) });
        let Some(v) = v else { return };
        let end = (pos + 3).saturating_add(v);
        if end > rest.len() {
            // A receiver reads as many bytes as the (altered) length says; whatever they are, they are
            // not what was sealed.
            let mut body = rest[pos + 3..].to_vec();
            if v <= 70_000 {
                body.resize(v, 0x55);
                w.recv_version(0, None, &Mut::Junk(body));
            }
            return;
        }
        let body = rest[pos + 3..end].to_vec();
        let same = k < idx1.len() && w.sealed[idx1[k]].bytes[3..] == body[..];
        let res = if same { w.recv_version(0, Some(idx1[k]), &Mut::None) } else { w.recv_version(0, idx1.get(k).copied(), &Mut::Junk(body)) };
        match res {
            Some(true) => {
                w.done(0);
                return;
            }
            Some(false) => {}
            None => return,
        }
        pos = end;
        k += 1;
    }
}
