//! Trace output: one JSON object per line, grouped in cases.
use serde_json::{json, Value};
use std::io::{BufWriter, Write};

pub struct Log {
    out: BufWriter<std::fs::File>,
    pub lines: u64,
    /// every case of this run is also about something else
    pub also: Option<(&'static str, &'static str)>,
    pub cases: u64,
    pub summary: std::collections::BTreeMap<String, u64>,
}

impl Log {
    pub fn create(path: &str) -> Log {
        Log {
            out: BufWriter::new(std::fs::File::create(path).expect("trace file")),
            lines: 0,
            also: None,
            cases: 0,
            summary: Default::default(),
        }
    }
    pub fn ev(&mut self, v: Value) {
        *self.summary.entry(v["op"].as_str().unwrap_or("?").to_string()).or_default() += 1;
        serde_json::to_writer(&mut self.out, &v).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    /// Start a case: `props` are the properties it bears on.
    pub fn case(&mut self, props: &[&str], desc: String) {
        self.cases += 1;
        // an abort of the process must leave the cases before it on disk
        let _ = self.out.flush();
        if let Some((mark, prop)) = self.also {
            let mut props = props.to_vec();
            props.push(prop);
            return self.ev(json!({"op": "case", "id": self.cases, "props": props, "desc": format!("{mark}: {desc}")}));
        }
        self.ev(json!({"op": "case", "id": self.cases, "props": props, "desc": desc}));
    }
    pub fn finish(mut self) -> (u64, u64) {
        self.out.flush().unwrap();
        (self.cases, self.lines)
    }
}

/// Merge two JSON objects.
pub fn merge(mut a: Value, b: Value) -> Value {
    if let (Some(x), Value::Object(y)) = (a.as_object_mut(), b) {
        for (k, v) in y {
            x.insert(k, v);
        }
    }
    a
}

/// Run code under test; a panic becomes data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}

/// Deterministic random numbers (xoshiro-free: splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        for c in v.chunks_mut(8) {
            let r = self.next().to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&r[..l]);
        }
        v
    }
    /// Bytes that are not always noise: constant ones, a constant beginning or end, text.
    pub fn shaped(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.bytes(n);
        let k = n.min(1 + self.below(n.max(1)));
        let b = *self.pick(&[0u8, 0, 0, 0xff, 0x20]);
        match self.below(10) {
            0 | 1 => v.fill(b),
            2 => v[..k].fill(b),
            3 => v[n - k..].fill(b),
            4 => v.iter_mut().for_each(|x| *x = 0x20 | *x & 0x5f),
            _ => {}
        }
        v
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let mut a: [u8; 32] = self.bytes(32).try_into().unwrap();
        a[0] &= 0x7f; // below the group order
        a[31] |= 1; // not zero
        a
    }
    /// A network magic: the real ones, odd ones, any.
    pub fn magic(&mut self) -> [u8; 4] {
        match self.below(8) {
            0 => [0xF9, 0xBE, 0xB4, 0xD9],
            1 => *self.pick(&[[0x0B, 0x11, 0x09, 0x07], [0x0A, 0x03, 0xCF, 0x40], [0xFA, 0xBF, 0xB5, 0xDA], [0x1C, 0x16, 0x3F, 0x28]]),
            2 => [*self.pick(&[0u8, 0xFF, 1, 0x80, 7, b'A', b'a', b' ']); 4],
            3 => *self.pick(&[*b"MAIN", *b"main", *b"Main", *b"main", *b"\r\n\r\n", *b"GET ", [0, 0, 0, 1], [1, 0, 0, 0], [0xFF, 0xFE, 0xFF, 0xFE], *b"none"]),
            4 => std::array::from_fn(|_| *b"AbCdXyZ19 @".get(self.below(11)).unwrap()),
            _ => self.bytes(4).try_into().unwrap(),
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}
