//! Independent implementation of the parts of BIP-324 the analyser and the reference peer need.
//! It shares no code with the crate under test: own ChaCha20, Poly1305, HMAC and HKDF; the
//! ElligatorSwift ECDH uses libsecp256k1's built-in BIP-324 hash function.
use bitcoin_hashes::sha256;
use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty};
use secp256k1::SecretKey;

pub const REKEY: u64 = 224;

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

pub fn chacha_block(key: &[u8; 32], nonce: &[u8; 12], counter: u32) -> [u8; 64] {
    let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let mut st = [0u32; 16];
    st[0] = 0x61707865;
    st[1] = 0x3320646e;
    st[2] = 0x79622d32;
    st[3] = 0x6b206574;
    for i in 0..8 {
        st[4 + i] = w(&key[4 * i..]);
    }
    st[12] = counter;
    for i in 0..3 {
        st[13 + i] = w(&nonce[4 * i..]);
    }
    let mut x = st;
    for _ in 0..10 {
        qr(&mut x, 0, 4, 8, 12);
        qr(&mut x, 1, 5, 9, 13);
        qr(&mut x, 2, 6, 10, 14);
        qr(&mut x, 3, 7, 11, 15);
        qr(&mut x, 0, 5, 10, 15);
        qr(&mut x, 1, 6, 11, 12);
        qr(&mut x, 2, 7, 8, 13);
        qr(&mut x, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(st[i]).to_le_bytes());
    }
    out
}

pub fn chacha_xor(key: &[u8; 32], nonce: &[u8; 12], counter: u32, data: &mut [u8]) {
    for (i, ch) in data.chunks_mut(64).enumerate() {
        let ks = chacha_block(key, nonce, counter.wrapping_add(i as u32));
        for (b, k) in ch.iter_mut().zip(ks.iter()) {
            *b ^= k;
        }
    }
}

/// Poly1305 with 26-bit limbs.
pub struct Poly {
    r: [u64; 5],
    h: [u64; 5],
    pad: [u8; 16],
    buf: Vec<u8>,
}
impl Poly {
    pub fn new(key: &[u8; 32]) -> Self {
        let mut rk = [0u8; 16];
        rk.copy_from_slice(&key[..16]);
        for i in [3, 7, 11, 15] {
            rk[i] &= 15;
        }
        for i in [4, 8, 12] {
            rk[i] &= 252;
        }
        let mut pad = [0u8; 16];
        pad.copy_from_slice(&key[16..]);
        Poly { r: limbs(&rk, 0), h: [0; 5], pad, buf: vec![] }
    }
    fn block(&mut self, b: &[u8; 16], hi: u64) {
        let m = limbs(b, hi);
        for i in 0..5 {
            self.h[i] += m[i];
        }
        let (r, h) = (self.r, self.h);
        let mut d = [0u128; 5];
        for i in 0..5 {
            for j in 0..5 {
                let k = i + j;
                let v = h[i] as u128 * r[j] as u128;
                if k < 5 {
                    d[k] += v;
                } else {
                    d[k - 5] += v * 5;
                }
            }
        }
        let mut c = 0u128;
        for i in 0..5 {
            let v = d[i] + c;
            self.h[i] = (v & 0x3ffffff) as u64;
            c = v >> 26;
        }
        let mut c = (c as u64) * 5;
        let mut i = 0;
        while c > 0 {
            let v = self.h[i] + c;
            self.h[i] = v & 0x3ffffff;
            c = v >> 26;
            i += 1;
            if i == 5 {
                c *= 5;
                i = 0;
            }
        }
    }
    pub fn update(&mut self, mut data: &[u8]) {
        if !self.buf.is_empty() {
            let n = (16 - self.buf.len()).min(data.len());
            self.buf.extend_from_slice(&data[..n]);
            data = &data[n..];
            if self.buf.len() == 16 {
                let b: [u8; 16] = self.buf[..].try_into().unwrap();
                self.block(&b, 1);
                self.buf.clear();
            }
        }
        while data.len() >= 16 {
            let b: [u8; 16] = data[..16].try_into().unwrap();
            self.block(&b, 1);
            data = &data[16..];
        }
        self.buf.extend_from_slice(data);
    }
    pub fn pad16(&mut self) {
        if !self.buf.is_empty() {
            let n = 16 - self.buf.len();
            self.update(&vec![0u8; n]);
        }
    }
    pub fn finish(mut self) -> [u8; 16] {
        assert!(self.buf.is_empty());
        // full carry
        for _ in 0..2 {
            let mut c = 0;
            for i in 0..5 {
                let v = self.h[i] + c;
                self.h[i] = v & 0x3ffffff;
                c = v >> 26;
            }
            self.h[0] += c * 5;
        }
        // compute h - p
        let mut g = [0u64; 5];
        let mut c = 5u64;
        for i in 0..5 {
            let v = self.h[i] + c;
            g[i] = v & 0x3ffffff;
            c = v >> 26;
        }
        if c > 0 {
            self.h = g;
        }
        let h = self.h;
        let mut acc = 0u128;
        // assemble 128 low bits
        acc |= h[0] as u128;
        acc |= (h[1] as u128) << 26;
        acc |= (h[2] as u128) << 52;
        acc |= (h[3] as u128) << 78;
        acc = acc.wrapping_add((h[4] as u128) << 104);
        acc.wrapping_add(u128::from_le_bytes(self.pad)).to_le_bytes()
    }
}
fn limbs(b: &[u8; 16], hi: u64) -> [u64; 5] {
    let v = u128::from_le_bytes(*b);
    let m = 0x3ffffffu128;
    [
        (v & m) as u64,
        ((v >> 26) & m) as u64,
        ((v >> 52) & m) as u64,
        ((v >> 78) & m) as u64,
        ((v >> 104) as u64) | (hi << 24),
    ]
}

fn tag(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk: [u8; 32] = chacha_block(key, nonce, 0)[..32].try_into().unwrap();
    let mut p = Poly::new(&otk);
    p.update(aad);
    p.pad16();
    p.update(ct);
    p.pad16();
    p.update(&(aad.len() as u64).to_le_bytes());
    p.update(&(ct.len() as u64).to_le_bytes());
    p.finish()
}

pub fn aead_seal(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut out = pt.to_vec();
    chacha_xor(key, nonce, 1, &mut out);
    let t = tag(key, nonce, aad, &out);
    out.extend_from_slice(&t);
    out
}

pub fn aead_open(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 {
        return None;
    }
    let (c, t) = ct.split_at(ct.len() - 16);
    if tag(key, nonce, aad, c) != t {
        return None;
    }
    let mut out = c.to_vec();
    chacha_xor(key, nonce, 1, &mut out);
    Some(out)
}

fn sha(data: &[u8]) -> [u8; 32] {
    sha256::Hash::hash(data).to_byte_array()
}
fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(data);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&sha(&i));
    sha(&o)
}
/// HKDF-SHA256, 32 bytes of output.
pub fn hkdf32(salt: &[u8], ikm: &[u8], info: &[u8]) -> [u8; 32] {
    let prk = hmac(salt, ikm);
    let mut m = info.to_vec();
    m.push(1);
    hmac(&prk, &m)
}

/// Keys of one generation chain; remembers the latest generation and a short history.
#[derive(Clone)]
pub struct Chain {
    init: [u8; 32],
    gen: u64,
    key: [u8; 32],
    prev: Option<(u64, [u8; 32])>,
    length: bool,
}
impl Chain {
    pub fn new(init: [u8; 32], length: bool) -> Self {
        Chain { init, gen: 0, key: init, prev: None, length }
    }
    fn step(&self, key: &[u8; 32], gen: u64) -> [u8; 32] {
        if self.length {
            let mut nonce = [0u8; 12];
            nonce[4..].copy_from_slice(&gen.to_le_bytes());
            // bytes 672..704 of the key stream: block 10 (640..704), offset 32
            chacha_block(key, &nonce, 10)[32..].try_into().unwrap()
        } else {
            let mut nonce = [0xffu8; 12];
            nonce[4..].copy_from_slice(&gen.to_le_bytes());
            aead_seal(key, &nonce, &[], &[0u8; 32])[..32].try_into().unwrap()
        }
    }
    pub fn at(&mut self, gen: u64) -> [u8; 32] {
        if gen < self.gen {
            if let Some((g, k)) = self.prev {
                if g == gen {
                    return k;
                }
            }
            let mut k = self.init;
            for g in 0..gen {
                k = self.step(&k, g);
            }
            return k;
        }
        while self.gen < gen {
            let k = self.step(&self.key.clone(), self.gen);
            self.prev = Some((self.gen, self.key));
            self.key = k;
            self.gen += 1;
        }
        self.key
    }
}

/// One direction of a session.
#[derive(Clone)]
pub struct RefDir {
    pub len: Chain,
    pub pkt: Chain,
}
pub struct Opened {
    pub pos: u64,
    pub aad: usize,
    pub plain: Vec<u8>,
}
impl RefDir {
    fn len_mask(&mut self, pos: u64) -> [u8; 3] {
        let (gen, off) = (pos / REKEY, pos % REKEY);
        let key = self.len.at(gen);
        let mut nonce = [0u8; 12];
        nonce[4..].copy_from_slice(&gen.to_le_bytes());
        let mut m = [0u8; 3];
        for (i, b) in m.iter_mut().enumerate() {
            let at = off as usize * 3 + i;
            *b = chacha_block(&key, &nonce, (at / 64) as u32)[at % 64];
        }
        m
    }
    pub fn enc_len(&mut self, pos: u64, n: usize) -> [u8; 3] {
        let m = self.len_mask(pos);
        let b = (n as u32).to_le_bytes();
        [b[0] ^ m[0], b[1] ^ m[1], b[2] ^ m[2]]
    }
    pub fn dec_len(&mut self, pos: u64, e: [u8; 3]) -> usize {
        let m = self.len_mask(pos);
        u32::from_le_bytes([e[0] ^ m[0], e[1] ^ m[1], e[2] ^ m[2], 0]) as usize
    }
    fn nonce(pos: u64) -> [u8; 12] {
        let mut n = [0u8; 12];
        n[..4].copy_from_slice(&((pos % REKEY) as u32).to_le_bytes());
        n[4..].copy_from_slice(&(pos / REKEY).to_le_bytes());
        n
    }
    /// Body (header + contents + tag) sealed at `pos`.
    pub fn seal_body(&mut self, pos: u64, hdr: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let key = self.pkt.at(pos / REKEY);
        let mut pt = Vec::with_capacity(contents.len() + 1);
        pt.push(hdr);
        pt.extend_from_slice(contents);
        aead_seal(&key, &Self::nonce(pos), aad, &pt)
    }
    pub fn seal(&mut self, pos: u64, hdr: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let mut v = self.enc_len(pos, contents.len()).to_vec();
        v.extend(self.seal_body(pos, hdr, contents, aad));
        v
    }
    pub fn open_body(&mut self, pos: u64, body: &[u8], aad: &[u8]) -> Option<Vec<u8>> {
        let key = self.pkt.at(pos / REKEY);
        aead_open(&key, &Self::nonce(pos), aad, body)
    }
    /// Which position and associated data (out of `aads`) seal this body?
    pub fn identify(&mut self, hint: u64, body: &[u8], aads: &[&[u8]]) -> Option<Opened> {
        let mut cand = vec![hint];
        for d in 1..4u64 {
            cand.push(hint + d);
            if hint >= d {
                cand.push(hint - d);
            }
        }
        for p in [hint.wrapping_sub(REKEY), hint + REKEY, hint - hint % REKEY, 0] {
            if p < 1 << 40 {
                cand.push(p);
            }
        }
        for pos in cand {
            for (i, aad) in aads.iter().enumerate() {
                if let Some(plain) = self.open_body(pos, body, aad) {
                    return Some(Opened { pos, aad: i, plain });
                }
            }
        }
        None
    }
    /// At which position does this encrypted length field encode `n`?
    pub fn identify_len(&mut self, hint: u64, e: [u8; 3], n: usize) -> Option<u64> {
        let mut cand = vec![hint];
        for d in 1..3u64 {
            cand.push(hint + d);
            if hint >= d {
                cand.push(hint - d);
            }
        }
        cand.into_iter().find(|p| self.dec_len(*p, e) == n)
    }
}

/// A session as seen from the outside with one party's secret.
#[derive(Clone)]
pub struct RefSession {
    pub id: [u8; 32],
    /// initiator -> responder, responder -> initiator
    pub dir: [RefDir; 2],
    /// terminators of the initiator and the responder
    pub term: [[u8; 16]; 2],
    pub keys: [[u8; 32]; 4],
}
impl RefSession {
    pub fn derive(init: &[u8; 64], resp: &[u8; 64], secret: &SecretKey, initiator: bool, magic: &[u8; 4]) -> Self {
        let party = if initiator { ElligatorSwiftParty::A } else { ElligatorSwiftParty::B };
        let ecdh = ElligatorSwift::shared_secret(
            ElligatorSwift::from_array(*init),
            ElligatorSwift::from_array(*resp),
            *secret,
            party,
            None,
        );
        let ikm = ecdh.to_secret_bytes();
        let mut salt = b"bitcoin_v2_shared_secret".to_vec();
        salt.extend_from_slice(magic);
        let h = |info: &str| hkdf32(&salt, &ikm, info.as_bytes());
        let g = h("garbage_terminators");
        let keys = [h("initiator_L"), h("initiator_P"), h("responder_L"), h("responder_P")];
        RefSession {
            id: h("session_id"),
            dir: [
                RefDir { len: Chain::new(keys[0], true), pkt: Chain::new(keys[1], false) },
                RefDir { len: Chain::new(keys[2], true), pkt: Chain::new(keys[3], false) },
            ],
            term: [g[..16].try_into().unwrap(), g[16..].try_into().unwrap()],
            keys,
        }
    }
}

/// The key pair of a reference peer.
pub fn keypair(secret: [u8; 32]) -> Option<(SecretKey, [u8; 64])> {
    let sk = SecretKey::from_slice(&secret).ok()?;
    let es = ElligatorSwift::from_seckey(secp256k1::SECP256K1, sk, Some([7u8; 32]));
    Some((sk, es.to_array()))
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The reference implementation against published vectors: RFC 8439 and BIP-324.
pub fn selftest() -> Result<(), String> {
    let ok = |c: bool, what: &str| if c { Ok(()) } else { Err(format!("reference implementation: {what}")) };
    // RFC 8439 2.8.2
    let key: [u8; 32] = hex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f").try_into().unwrap();
    let nonce: [u8; 12] = hex("070000004041424344454647").try_into().unwrap();
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = aead_seal(&key, &nonce, &hex("50515253c0c1c2c3c4c5c6c7"), pt);
    ok(ct[..8] == hex("d31a8d34648e60db")[..], "RFC 8439 ciphertext")?;
    ok(ct[pt.len()..] == hex("1ae10b594f09e26a7e902ecbd0600691")[..], "RFC 8439 tag")?;
    ok(aead_open(&key, &nonce, &hex("50515253c0c1c2c3c4c5c6c7"), &ct).as_deref() == Some(&pt[..]), "RFC 8439 open")?;
    let magic = [0xF9, 0xBE, 0xB4, 0xD9];
    let arr = |s: &str| -> [u8; 64] { hex(s).try_into().unwrap() };
    // BIP-324 packet encoding vector, index 1
    let sk = SecretKey::from_slice(&hex("61062ea5071d800bbfd59e2e8b53d47d194b095ae5a4df04936b49772ef0d4d7")).unwrap();
    let mut s = RefSession::derive(
        &arr("ec0adff257bbfe500c188c80b4fdd640f6b45a482bbc15fc7cef5931deff0aa186f6eb9bba7b85dc4dcc28b28722de1e3d9108b985e2967045668f66098e475b"),
        &arr("a4a94dfce69b4a2a0a099313d10f9f7e7d649d60501c9e1d274c300e0d89aafaffffffffffffffffffffffffffffffffffffffffffffffffffffffff8faf88d5"),
        &sk, true, &magic);
    ok(s.dir[0].seal(1, 0, &[0x8e], &[]) == hex("7530d2a18720162ac09c25329a60d75adf36eda3c3"), "BIP-324 vector 1")?;
    // BIP-324 packet encoding vector, index 999 (four rekeys)
    let sk = SecretKey::from_slice(&hex("6f312890ec83bbb26798abaadd574684a53e74ccef7953b790fcc29409080246")).unwrap();
    let mut s = RefSession::derive(
        &arr("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f0000000000000000000000000000000000000000000000000000000000000000"),
        &arr("a8785af31c029efc82fa9fc677d7118031358d7c6a25b5779a9b900e5ccd94aac97eb36a3c5dbcdb2ca5843cc4c2fe0aaa46d10eb3d233a81c3dde476da00eef"),
        &sk, false, &magic);
    ok(s.id[..] == hex("b0490e26111cb2d55bbff2ace00f7f644f64006539abb4e7513f05107bb10608")[..], "BIP-324 session id")?;
    ok(s.dir[1].seal(999, 0, &hex("3eb1d4e98035cfd8eeb29bac969ed3824a"), &[])
        == hex("d78adbcba0eebfb15cfbd8142c84dc729d233d0dc11b1d851e46a114122b8d5b96b7d59317"), "BIP-324 vector 999")?;
    Ok(())
}
