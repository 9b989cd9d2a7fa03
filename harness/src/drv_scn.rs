//! Scenarios for the drivers: every interface, fragmentation, failure and cancellation we can script.
use crate::drv::*;
use crate::log::{Log, Rng};
use crate::low::Cfg;
use bip324::PacketType;
use std::io::ErrorKind;

const IFACES: [Iface; 4] = [Iface::Sync, Iface::Async, Iface::SyncFn, Iface::AsyncFn];
/// Of a shaped connection there is one of each kind.
fn ifaces() -> &'static [Iface] {
    if SHAPED.load(std::sync::atomic::Ordering::SeqCst) { &IFACES[..2] } else { &IFACES }
}
/// Every kind of error but `Interrupted`, which asks for another try.
pub const KINDS: [ErrorKind; 37] = [
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
    ErrorKind::NotFound,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

fn frag(r: &mut Rng, s: &mut Setup) -> String {
    let mode = r.below(7);
    match mode {
        0 => s.rdefault = usize::MAX,
        1 => s.rdefault = 1,
        2 => s.rdefault = r.range(2, 20),
        3 => s.rdefault = r.range(21, 600),
        4 => {
            // everything in small random pieces, with pauses
            for _ in 0..r.range(1, 400) {
                s.rscript.push(if r.chance(30) { Act::Pause } else { Act::Chunk(r.range(1, 40)) });
            }
        }
        5 => {
            // pauses before every read for a while
            for _ in 0..r.range(1, 30) {
                s.rscript.push(Act::Pause);
            }
            s.rdefault = r.range(1, 300);
        }
        _ => {
            for _ in 0..r.range(1, 60) {
                if r.chance(20) {
                    s.rscript.push(Act::Pause);
                }
                s.rscript.push(Act::Chunk(r.range(1, 400)));
            }
            s.rdefault = r.range(1, 64);
        }
    }
    format!("frag {mode}/{}", if s.rdefault == usize::MAX { 0 } else { s.rdefault })
}
fn wfrag(r: &mut Rng, s: &mut Setup) {
    match r.below(4) {
        0 => {}
        1 => s.wdefault = r.range(1, 9),
        2 => {
            for _ in 0..r.range(1, 40) {
                s.wscript.push(if r.chance(40) { Act::Pause } else { Act::Chunk(r.range(1, 50)) });
            }
        }
        _ => s.wdefault = r.range(10, 200),
    }
}
fn glen(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => r.range(1, 16),
        2 => *r.pick(&[15, 16, 17, 239, 240, 241, 255, 256, 257, 511, 512, 513, 4079, 4080, 4095]),
        3 => r.range(17, 300),
        4 => r.range(300, 4095),
        _ => r.range(0, 40),
    }
}
fn content(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 20),
        3 => r.range(200, 300),
        4 => r.range(300, 3000),
        _ => r.range(0, 64),
    };
    r.bytes(n)
}
fn header(r: &mut Rng, decoy: bool) -> u8 {
    let low = if r.chance(50) { 0 } else { (r.next() & 0x7f) as u8 };
    low | if decoy { 0x80 } else { 0 }
}
/// handshake packets followed by session packets
fn packets(r: &mut Rng, nd: usize, ns: usize) -> Vec<(u8, Vec<u8>)> {
    let mut v = vec![];
    for _ in 0..nd {
        v.push((header(r, true), content(r)));
    }
    v.push((header(r, false), if r.chance(70) { vec![] } else { content(r) }));
    for _ in 0..ns {
        let d = r.chance(30);
        v.push((header(r, d), content(r)));
    }
    v
}
fn own(r: &mut Rng, s: &mut Setup) {
    if r.chance(60) {
        let n = glen(r);
        s.garbage = Some(r.shaped(n));
    }
    if r.chance(50) {
        s.decoys = Some((0..r.below(4)).map(|_| content(r)).collect());
    }
}
fn stream_end(r: &mut Rng) -> End {
    match r.below(4) {
        0 | 1 => End::Silence,
        2 => End::Eof,
        _ => End::Err(*r.pick(&KINDS)),
    }
}
/// Use the session in some arrangement until the stream is exhausted.
fn exercise(r: &mut Rng, d: &mut Drv, writes: bool) {
    if !d.is_open() {
        return;
    }
    match r.below(5) {
        0 => {}
        1 => d.split(),
        2 => d.unwrap_reader(),
        3 => d.unwrap_writer(),
        _ => {
            d.unwrap_reader();
            d.unwrap_writer();
        }
    }
    let n = d.wire().facts.len();
    let mut left = n.saturating_sub(d.got) + 1;
    while left > 0 {
        if writes && r.chance(40) {
            let c = content(r);
            let ty = if r.chance(30) { PacketType::Decoy } else { PacketType::Genuine };
            d.write(&c, ty, &[], usize::MAX, None);
        } else {
            let ok = d.read(usize::MAX, &[], None);
            left -= 1;
            if !ok {
                break;
            }
            if writes && r.chance(40) {
                d.relay();
            }
        }
        if r.chance(5) {
            d.split();
        }
    }
}

/// Honest peers, every way of cutting the stream to pieces.
pub fn frag_honest(log: &mut Log, c: &Cfg) {
    let n = if c.thorough { 9000 } else { 900 };
    for k in 0..n {
        let mut r = Rng::new(c.seed, 0xD000_0000 + k);
        let mut s = Setup::honest(&mut r, IFACES[k as usize % 4]);
        if r.chance(10) {
            s.magic = r.magic();
            s.plan.magic = s.magic;
        }
        let n = glen(&mut r);
        s.plan.garbage = r.shaped(n);
        let (nd, ns) = (if r.chance(60) { r.below(5) } else { 0 }, r.below(7));
        s.plan.pkts = packets(&mut r, nd, ns);
        own(&mut r, &mut s);
        let f = frag(&mut r, &mut s);
        wfrag(&mut r, &mut s);
        s.plan.end = stream_end(&mut r);
        log.case(
            &["C01", "C02", "C04", "C06", "C07", "C13", "C14", "C21"],
            format!("{} {:?} garbage {n} decoys {nd} packets {ns} {f}", s.iface.name(), s.role),
        );
        let mut d = handshake(log, s);
        exercise(&mut r, &mut d, true);
    }
}

/// One small conversation, cut at every byte, once and (sampled) twice; with pauses at the cuts.
pub fn frag_points(log: &mut Log, c: &Cfg) {
    for (gi, g) in [0usize, 1, 5, 18, 260].into_iter().enumerate() {
        for &iface in ifaces() {
            let total = 64 + g + 16 + 20 + 23 + 20 + 25;
            let mut cuts: Vec<(usize, usize)> = (1..total).map(|a| (a, 0)).collect();
            let mut r = Rng::new(c.seed, 0xD100_0000 + gi as u64);
            for _ in 0..if c.thorough { 3000 } else { 60 } {
                let a = r.range(1, total - 2);
                cuts.push((a, r.range(1, total - a)));
            }
            if g > 100 && !c.thorough {
                cuts.retain(|(a, _)| a % 7 == 0 || *a > 64 + g - 20);
            }
            for (i, (a, b)) in cuts.into_iter().enumerate() {
                let mut r = Rng::new(c.seed, 0xD110_0000 + (i as u64) * 16 + gi as u64);
                let mut s = Setup::honest(&mut r, iface);
                s.plan.garbage = r.shaped(g);
                s.plan.pkts = vec![(128, r.bytes(3)), (0, vec![]), (0, r.bytes(5))];
                // the cuts are in stream bytes; the reads are shorter than that, so spell them out
                s.rscript = vec![];
                if i % 3 == 0 {
                    s.rscript.push(Act::Pause);
                }
                s.rscript.extend(pieces(a, g));
                s.rscript.push(if i % 2 == 0 { Act::Pause } else { Act::Chunk(1) });
                if b > 0 {
                    s.rscript.push(Act::Chunk(b));
                    s.rscript.push(Act::Pause);
                }
                log.case(&["C07", "C01", "C06"], format!("{} garbage {g} cut after {a} and {b} more", iface.name()));
                let mut d = handshake(log, s);
                if i % 4 == 1 {
                    d.unwrap_reader();
                }
                d.read(usize::MAX, &[], None);
                d.read(usize::MAX, &[], None);
            }
        }
    }
    many_pauses(log, c);
}
/// The transport is not ready, or interrupted, many times in a row.
pub fn many_pauses(log: &mut Log, _c: &Cfg) {
    for (i, n) in [40usize, 300, 3000].into_iter().enumerate() {
        for &iface in ifaces() {
            for (j, at) in [0usize, 10, 64, 70, 64 + 30, 64 + 150, 64 + 200 + 16 + 1, 64 + 200 + 16 + 20 + 1, 64 + 200 + 16 + 40 + 2, 64 + 200 + 16 + 40 + 10].into_iter().enumerate() {
                let mut r = Rng::new(0, 0xD180_0000 + (i * 16 + j) as u64);
                let mut s = Setup::honest(&mut r, iface);
                s.plan.garbage = r.bytes(200);
                s.plan.pkts = vec![(128, vec![]), (0, vec![]), (0, r.bytes(5)), (0, r.bytes(50))];
                s.rscript = pieces(at, 200);
                s.rscript.extend(vec![Act::Pause; n]);
                s.rdefault = [usize::MAX, 1, 20][(i + j) % 3];
                log.case(&["C07", "C01", "C06"], format!("{} {n} pauses after {at} bytes", iface.name()));
                let mut d = handshake(log, s);
                if j % 4 == 1 {
                    d.unwrap_reader();
                }
                d.read(usize::MAX, &[], None);
                d.read(usize::MAX, &[], None);
            }
        }
    }
}
/// The first packets of the session arrive with the terminator: every size, every boundary.
pub fn glued(log: &mut Log, c: &Cfg) {
    for n1 in 0..=240usize {
        for j in 0..if c.thorough { 16 } else { 4u64 } {
            let mut r = Rng::new(c.seed, 0xD120_0000 + (n1 as u64) * 64 + j);
            let iface = if j % 4 == 3 { *r.pick(&[Iface::Sync, Iface::SyncFn, Iface::AsyncFn]) } else { Iface::Async };
            let mut s = Setup::honest(&mut r, iface);
            let g = *r.pick(&[1usize, 1, 2, 17, 40]);
            s.plan.garbage = r.shaped(g);
            let (n2, n3) = (r.below(30), r.below(300));
            s.plan.pkts = vec![(0, vec![]), (0, r.bytes(n1)), (if r.chance(30) { 128 } else { 0 }, r.bytes(n2)), (0, r.bytes(n3)), (0, vec![])];
            let hs = 64 + g + 16 + 20;
            let edge = match r.below(4) {
                0 => hs + 3,
                1 => hs + 20 + n1 + 3,
                2 => hs + 40 + n1 + n2,
                _ => hs + 20 + n1,
            };
            let glue = match j % 4 {
                0 => edge + 1,
                1 => edge + r.below(5) - 2,
                _ => hs + r.below(500),
            };
            // key, sixteen bytes, then one read with all the rest up to the glue
            s.rscript = vec![Act::Chunk(64), Act::Chunk(16), Act::Chunk(glue - 80)];
            if r.chance(30) {
                s.rscript.push(Act::Pause);
            }
            if r.chance(30) {
                s.rdefault = r.range(1, 70);
            }
            let s_async = iface.is_async();
            log.case(&["C07", "C01", "C08"], format!("{} garbage {g} packets {n1} {n2} {n3} glued up to {glue}", iface.name()));
            let mut d = handshake(log, s);
            if j % 3 == 1 {
                d.split();
            }
            if s_async && d.is_open() && j % 4 != 3 && r.chance(40) {
                // the transport has an interruption to report right behind what was glued on
                d.wire().rscript.push_front(Act::Intr);
                d.read(usize::MAX, &[], None);
                if r.chance(50) {
                    d.read(usize::MAX, &[], None);
                }
            }
            if r.chance(25) {
                d.unwrap_reader();
            }
            for _ in 0..4 {
                d.read(usize::MAX, &[], None);
            }
        }
    }
}

/// Sizes of contents through the interfaces, in both directions.
pub fn sizes(log: &mut Log, c: &Cfg) {
    let mut v: Vec<usize> = vec![];
    for k in 6..22usize {
        for o in [-18i64, -17, -16, -4, -3, -1, 0, 1] {
            let n = (1i64 << k) + o;
            if k < 17 || o.abs() == 1 || o == 0 || c.thorough {
                v.push(n.max(0) as usize);
            }
        }
    }
    v.extend([1000, 10_000, 100_000, 100_001, 1_000_000, 3_000_000, 4_000_000, 4_000_013]);
    for (i, n) in v.into_iter().enumerate() {
        let mut ifs = vec![IFACES[i % 2]];
        if n < 70_000 || c.thorough {
            ifs = ifaces().to_vec();
        } else if n > 1 << 19 {
            ifs = vec![Iface::Sync, Iface::Async];
        }
        for iface in ifs {
            let mut r = Rng::new(c.seed, 0xD750_0000 + i as u64);
            let mut s = Setup::honest(&mut r, iface);
            let big: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
            s.plan.garbage = r.bytes(i % 3);
            let place = r.below(4);
            s.plan.pkts = match place {
                0 => vec![(128, big.clone()), (0, vec![]), (0, vec![1]), (0, vec![2])],
                1 => vec![(0, big.clone()), (0, vec![1])],
                2 => vec![(0, vec![]), (128, big.clone()), (0, vec![1])],
                _ => vec![(0, vec![]), (0, big.clone()), (0, vec![1])],
            };
            if n < 10_000 {
                frag(&mut r, &mut s);
            } else {
                s.rdefault = *r.pick(&[usize::MAX, 4096, 16384, 65536, 65537, 1460]);
            }
            if i % 5 == 4 && n < 1 << 20 {
                s.decoys = Some(vec![big.clone()]);
            }
            log.case(&["C01", "C02", "C04", "C07", "C11", "C13", "C14"], format!("{} contents of {n} at place {place}", iface.name()));
            let mut d = handshake(log, s);
            if r.chance(30) {
                d.split();
            }
            let wd = *r.pick(&[usize::MAX, 4096, 1460, 65536]);
            d.write(&big, if i % 4 == 1 { PacketType::Decoy } else { PacketType::Genuine }, &[Act::Pause, Act::Chunk(3)], wd, None);
            while d.read(usize::MAX, &[], None) {}
            d.write(b"after", PacketType::Genuine, &[], usize::MAX, None);
        }
    }
}

/// Long sessions through the interfaces.
pub fn bulk(log: &mut Log, c: &Cfg) {
    for (k, iface) in [Iface::Sync, Iface::Async].into_iter().enumerate() {
        let n: usize = if c.thorough { 224 * 1200 } else { 224 * 258 + 30 };
        let mut r = Rng::new(c.seed, 0xDC00_0000 + k as u64);
        let mut s = Setup::honest(&mut r, iface);
        s.plan.garbage = r.bytes(k);
        s.plan.pkts = vec![(128, vec![5]), (0, vec![])];
        for i in 0..n {
            let z = [0usize, 3, 40][i % 3];
            s.plan.pkts.push((if i % 5 == 4 { 128 } else { 0 }, r.bytes(z)));
        }
        log.case(&["C01", "C04", "C05", "C07", "C21", "C13"], format!("{} {n} packets each way", iface.name()));
        let mut d = handshake(log, s);
        let mut left = n - 3;
        for i in 0.. {
            if left == 0 || !d.is_open() {
                break;
            }
            let m = left.min(if i % 2 == 0 { 20_011 } else { 7_003 });
            if !d.reads(m) {
                break;
            }
            left -= m;
            if i == 2 {
                d.split();
            }
            if i % 2 == 0 && !d.writes(23_001, &[0, 2, 17]) {
                break;
            }
        }
        d.read(usize::MAX, &[], None);
        d.write(b"last", PacketType::Genuine, &[], usize::MAX, None);
        d.read(usize::MAX, &[], None);
    }
}

/// Reads a driver makes to get through `a` bytes: key, then the rest.
fn pieces(a: usize, _g: usize) -> Vec<Act> {
    if a <= 64 {
        vec![Act::Chunk(a)]
    } else if a <= 80 {
        vec![Act::Chunk(64), Act::Chunk(a - 64)]
    } else {
        let mut v = vec![Act::Chunk(64), Act::Chunk(16)];
        let mut left = a - 80;
        while left > 0 {
            let n = left.min(256);
            v.push(Act::Chunk(n));
            left -= n;
        }
        v
    }
}

/// Terminator search: every boundary, terminator straddling reads, near misses, floods.
pub fn terminators(log: &mut Log, c: &Cfg) {
    let mut sizes: Vec<usize> = vec![0, 1, 2, 15, 16, 17, 31, 239, 240, 241, 255, 256, 257, 271, 272, 273, 495, 496, 497, 511, 512, 513];
    sizes.extend([4063, 4064, 4079, 4080, 4081, 4093, 4094, 4095, 4096, 4097, 4110, 4111, 4112, 4200, 5000]);
    if c.thorough {
        sizes = (0..600).chain(3800..4400).collect();
    }
    for (i, g) in sizes.into_iter().enumerate() {
        for iface in [Iface::Sync, Iface::Async] {
            for v in 0..if c.thorough { 4 } else { 6 } {
                let mut r = Rng::new(c.seed, 0xD200_0000 + (i as u64) * 8 + v);
                let mut s = Setup::honest(&mut r, iface);
                s.plan.garbage = r.shaped(g);
                s.plan.pkts = packets(&mut r, (v % 2) as usize, 2);
                match v {
                    0 => {}
                    1 => s.rdefault = 1,
                    2 => {
                        // the terminator straddles a read
                        let cut = 64 + g + r.below(17);
                        s.rscript = pieces(cut, g);
                        s.rscript.push(Act::Pause);
                    }
                    3 => s.plan.end = End::Eof,
                    4 => s.rdefault = r.range(15, 17),
                    _ => s.rdefault = r.range(2, 255),
                }
                log.case(&["C06", "C07", "C10", "C11"], format!("{} garbage {g} variant {v}", iface.name()));
                let mut d = handshake(log, s);
                if d.is_open() {
                    if v == 5 {
                        d.unwrap_reader();
                    }
                    while d.read(usize::MAX, &[], None) {}
                }
            }
        }
    }
    // no terminator at all, of every length around the limit
    for (i, n) in [0usize, 1, 15, 16, 17, 300, 4095, 4096, 4110, 4111, 4112, 4400, 9000].into_iter().enumerate() {
        for &iface in ifaces() {
            for end in [End::Silence, End::Eof, End::Err(ErrorKind::ConnectionReset), End::Err(ErrorKind::TimedOut)] {
                let mut r = Rng::new(c.seed, 0xD210_0000 + i as u64);
                let mut s = Setup::honest(&mut r, iface);
                s.plan.tamper.push(Tamper::Replace(64, r.bytes(n)));
                s.plan.end = end;
                frag(&mut r, &mut s);
                log.case(&["C06", "C10", "C12", "C03"], format!("{} {n} bytes without a terminator then {}", iface.name(), end.name()));
                handshake(log, s);
            }
        }
    }
    // almost terminators inside the garbage are not terminators; the driver's own terminator neither
    for k in 0..40 {
        let mut r = Rng::new(c.seed, 0xD220_0000 + k);
        let mut s = Setup::honest(&mut r, IFACES[k as usize % 4]);
        let n = r.range(40, 400);
        s.plan.garbage = r.shaped(n);
        s.plan.pkts = packets(&mut r, 0, 1);
        // flip one bit of the terminator: nothing is found
        s.plan.tamper.push(Tamper::Xor(64 + n + r.below(16), 1 << r.below(8)));
        s.plan.end = End::Eof;
        frag(&mut r, &mut s);
        log.case(&["C06", "C03", "C12"], format!("terminator with a flipped bit after {n} bytes"));
        handshake(log, s);
    }
    // own garbage: refused over 4095 before anything is sent
    for (i, n) in [0usize, 1, 4094, 4095, 4096, 4097, 70000].into_iter().enumerate() {
        for &iface in ifaces() {
            let mut r = Rng::new(c.seed, 0xD230_0000 + i as u64);
            let mut s = Setup::honest(&mut r, iface);
            s.garbage = Some(r.shaped(n));
            wfrag(&mut r, &mut s);
            log.case(&["C06", "C04", "C14"], format!("{} own garbage of {n}", iface.name()));
            let mut d = handshake(log, s);
            d.read(usize::MAX, &[], None);
        }
    }
}

/// The peer's stream stops at every point, in every way.
pub fn cuts(log: &mut Log, c: &Cfg) {
    let g = 7;
    let total = 64 + g + 16 + (20 + 4) + 20;
    for (ii, &iface) in ifaces().iter().enumerate() {
        for cut in 0..=total {
            let ends: Vec<End> = if c.thorough {
                let mut v = vec![End::Silence, End::Eof];
                v.extend(KINDS.iter().map(|k| End::Err(*k)));
                v
            } else {
                let mut v = vec![End::Eof, End::Err(KINDS[cut % 5]), End::Err(KINDS[(cut + ii * 9) % KINDS.len()])];
                if cut % 5 == 0 {
                    v.push(End::Silence);
                }
                v
            };
            for (j, end) in ends.into_iter().enumerate() {
                let mut r = Rng::new(c.seed, 0xD310_0000 + (cut * 16 + j) as u64);
                let mut s = Setup::honest(&mut r, iface);
                s.plan.garbage = r.shaped(g);
                s.plan.pkts = vec![(128, r.bytes(4)), (0, vec![])];
                s.plan.cut = Some(cut);
                s.plan.end = end;
                if j == 1 {
                    s.rdefault = r.range(1, 30);
                }
                if j == 2 {
                    s.rscript = vec![Act::Pause, Act::Chunk(r.range(1, 64)), Act::Pause];
                }
                log.case(&["C12", "C10", "C07"], format!("{} stream cut after {cut} then {}", iface.name(), end.name()));
                let mut d = handshake(log, s);
                if d.is_open() {
                    d.read(usize::MAX, &[], None);
                    d.read(usize::MAX, &[], None);
                }
            }
        }
    }
    // the session's stream stops at every point; a read may be retried afterwards
    for iface in [Iface::Sync, Iface::Async] {
        for cut in 0..=43usize {
            for (j, end) in [End::Eof, End::Err(ErrorKind::ConnectionReset), End::Err(ErrorKind::TimedOut), End::Silence].into_iter().enumerate() {
                let mut r = Rng::new(c.seed, 0xD320_0000 + (cut * 4 + j) as u64);
                let mut s = Setup::honest(&mut r, iface);
                s.plan.pkts = vec![(0, vec![]), (0, r.bytes(3)), (0, vec![])];
                s.plan.cut = Some(64 + 16 + 20 + cut);
                s.plan.end = end;
                s.rdefault = *r.pick(&[1, 7, usize::MAX]);
                log.case(&["C02", "C10", "C07", "C21"], format!("{} session stream cut after {cut} then {}", iface.name(), end.name()));
                let mut d = handshake(log, s);
                for _ in 0..4 {
                    d.read(usize::MAX, &[], None);
                }
                d.write(&[1, 2, 3], PacketType::Genuine, &[], usize::MAX, None);
            }
        }
    }
}

/// V1 peers.
pub fn v1(log: &mut Log, c: &Cfg) {
    for &iface in ifaces() {
        for k in 0..if c.thorough { 200 } else { 24 } {
            let mut r = Rng::new(c.seed, 0xD400_0000 + k);
            let mut s = Setup::honest(&mut r, iface);
            if r.chance(50) {
                s.magic = r.magic();
                s.plan.magic = s.magic;
            }
            let n = glen(&mut r);
            s.garbage = Some(r.shaped(n));
            s.decoys = Some(vec![content(&mut r)]);
            match k % 6 {
                0 | 1 => s.plan.v1 = true,
                2 => {
                    // a whole version message of a V1 peer
                    let mut m = s.magic.to_vec();
                    m.extend_from_slice(b"version\0\0\0\0\0");
                    let n = r.range(0, 150);
                    m.extend(r.bytes(n));
                    s.plan.tamper.push(Tamper::Replace(0, m));
                    s.plan.end = *r.pick(&[End::Eof, End::Silence]);
                }
                3 => {
                    // three bytes of the magic only
                    let mut key = [0u8; 64];
                    key.copy_from_slice(&r.bytes(64));
                    key[..4].copy_from_slice(&s.magic);
                    key[r.below(4)] ^= 1 << r.below(8);
                    s.plan.raw_key = Some(key);
                }
                4 => {
                    // the magic of another network
                    s.plan.raw_key = None;
                    let mut key = [0u8; 64];
                    key.copy_from_slice(&r.bytes(64));
                    key[..4].copy_from_slice(&[0xFA, 0xBF, 0xB5, 0xDA]);
                    s.plan.raw_key = Some(key);
                }
                _ => {
                    // the magic later in the key
                    let mut key = [0u8; 64];
                    key.copy_from_slice(&r.bytes(64));
                    let at = r.range(1, 60);
                    key[at..at + 4].copy_from_slice(&s.magic);
                    s.plan.raw_key = Some(key);
                }
            }
            frag(&mut r, &mut s);
            wfrag(&mut r, &mut s);
            log.case(&["C12", "C10"], format!("{} V1 variant {}", iface.name(), k % 6));
            handshake(log, s);
        }
    }
}

/// Modified and mismatched transcripts, and arbitrary bytes.
pub fn tampered(log: &mut Log, c: &Cfg) {
    let n = if c.thorough { 12000 } else { 1200 };
    for k in 0..n {
        let mut r = Rng::new(c.seed, 0xD500_0000 + k);
        let mut s = Setup::honest(&mut r, IFACES[k as usize % 4]);
        let g = r.below(40);
        s.plan.garbage = r.shaped(g);
        s.plan.pkts = packets(&mut r, (k % 3) as usize, 3);
        let first = 20 + s.plan.pkts[0].1.len();
        let hs: usize = 64 + g + 16 + s.plan.pkts[..=(k % 3) as usize].iter().map(|p| 20 + p.1.len()).sum::<usize>();
        let total: usize = 64 + g + 16 + s.plan.pkts.iter().map(|p| 20 + p.1.len()).sum::<usize>();
        let what;
        match k % 10 {
            0 => {
                let at = r.below(hs);
                s.plan.tamper.push(Tamper::Xor(at, 1 << r.below(8)));
                what = format!("flip at {at}");
            }
            1 => {
                let at = r.below(hs);
                s.plan.tamper.push(Tamper::Remove(at));
                what = format!("remove at {at}");
            }
            2 => {
                let at = r.below(hs);
                s.plan.tamper.push(Tamper::Insert(at, r.next() as u8));
                what = format!("insert at {at}");
            }
            3 => {
                let a = 64 + r.below(hs - 64 - 2);
                let b = a + 1 + r.below(hs - a - 1);
                s.plan.tamper.push(Tamper::Swap(a, b, 1));
                what = format!("swap {a} {b}");
            }
            4 => {
                s.plan.role = s.role;
                what = "same role".into();
            }
            5 => {
                s.plan.magic[r.below(4)] ^= 1 << r.below(8);
                what = "other magic".into();
            }
            6 => {
                // a packet sealed with other associated data
                let i = r.below(2.min(s.plan.pkts.len()));
                let aad = if i == 0 && g > 0 && r.chance(50) { vec![] } else { let n = r.range(1, 40); r.bytes(n) };
                s.plan.wrong_aad = Some((i, aad));
                what = format!("wrong associated data on packet {i}");
            }
            7 => {
                // session tampering
                let at = hs + r.below(total - hs);
                s.plan.tamper.push(Tamper::Xor(at, 1 << r.below(8)));
                what = format!("flip in session at {at}");
            }
            8 => {
                // first packet dropped or duplicated in place
                let at = 64 + g + 16;
                if r.chance(50) {
                    for _ in 0..first {
                        s.plan.tamper.push(Tamper::Remove(at));
                    }
                    what = "first packet dropped".into();
                } else {
                    let at = hs;
                    let l = 20 + s.plan.pkts[(k % 3) as usize + 1].1.len();
                    for _ in 0..l {
                        s.plan.tamper.push(Tamper::Remove(at));
                    }
                    what = "first session packet dropped".into();
                }
            }
            _ => {
                let at = *r.pick(&[0, 64, 64 + g + 16, hs, r.0 as usize % total]);
                let n = r.range(0, 6000);
                s.plan.tamper.push(Tamper::Replace(at, r.bytes(n)));
                what = format!("random bytes from {at}");
            }
        }
        own(&mut r, &mut s);
        s.plan.end = if r.chance(70) { End::Eof } else { End::Silence };
        frag(&mut r, &mut s);
        log.case(&["C03", "C02", "C10", "C07"], format!("{} {what}", s.iface.name()));
        let mut d = handshake(log, s);
        exercise(&mut r, &mut d, false);
    }
    // the secret of the peer's key is not known to anyone we simulate: nothing completes
    for k in 0..40 {
        let mut r = Rng::new(c.seed, 0xD510_0000 + k);
        let mut s = Setup::honest(&mut r, IFACES[k as usize % 4]);
        let mut key = [0u8; 64];
        match k % 5 {
            0 => key = [0; 64],
            1 => key = [0xff; 64],
            2 => key[63] = 1,
            _ => key.copy_from_slice(&r.bytes(64)),
        }
        s.plan.raw_key = Some(key);
        s.plan.end = End::Eof;
        log.case(&["C03", "C10"], format!("foreign key {}", k % 5));
        handshake(log, s);
    }
}

/// Decoys and headers in the handshake and after it.
pub fn decoys(log: &mut Log, c: &Cfg) {
    for h in 0..=255u16 {
        let h = h as u8;
        let iface = IFACES[(h % 4) as usize];
        let mut r = Rng::new(c.seed, 0xD600_0000 + h as u64);
        let mut s = Setup::honest(&mut r, iface);
        let g = r.below(30);
        s.plan.garbage = r.shaped(g);
        // handshake: this header first (decoy or version), then after it in the session
        let mut v = vec![];
        if h >= 128 {
            v.push((h, content(&mut r)));
            v.push((0, vec![]));
        } else {
            v.push((h, content(&mut r)));
        }
        v.push((h, content(&mut r)));
        v.push((h ^ 0x80, content(&mut r)));
        v.push((0, content(&mut r)));
        s.plan.pkts = v;
        frag(&mut r, &mut s);
        log.case(&["C13", "C01", "C04"], format!("{} header {h}", iface.name()));
        let mut d = handshake(log, s);
        while d.read(usize::MAX, &[], None) {
            d.relay();
        }
    }
    // a great many bytes of decoys before the version packet
    for &iface in ifaces() {
        let mut r = Rng::new(c.seed, 0xD618_0000);
        let mut s = Setup::honest(&mut r, iface);
        s.plan.pkts = (0..4).map(|_| (header(&mut r, true), vec![5; 3_999_990])).collect();
        s.plan.pkts.extend([(0, vec![]), (0, r.bytes(9))]);
        log.case(&["C13", "C01", "C11"], format!("{} 16 MB of handshake decoys", iface.name()));
        let mut d = handshake(log, s);
        while d.read(usize::MAX, &[], None) {}
    }
    for (k, n) in [1usize, 2, 10, 100, 223, 224, 225, 300, 500, 2500].into_iter().enumerate() {
        for iface in [Iface::Sync, Iface::Async] {
            let mut r = Rng::new(c.seed, 0xD610_0000 + k as u64);
            let mut s = Setup::honest(&mut r, iface);
            let ns = if n == 500 { 460 } else { 5 };
            s.plan.pkts = (0..n).map(|_| (header(&mut r, true), { let n = r.below(9); r.bytes(n) })).collect();
            s.plan.pkts.push((0, vec![]));
            for _ in 0..ns {
                let d = r.chance(50);
                let n = r.below(30);
                s.plan.pkts.push((header(&mut r, d), r.bytes(n)));
            }
            let dn = r.below(4);
            s.decoys = Some((0..dn).map(|_| content(&mut r)).collect());
            s.rdefault = r.range(30, 400);
            log.case(&["C13", "C01", "C05"], format!("{} {n} handshake decoys", iface.name()));
            let mut d = handshake(log, s);
            while d.read(usize::MAX, &[], None) {}
            for _ in 0..if (300..1000).contains(&n) { 460 } else { 3 } {
                let n = r.below(20);
                let b = r.bytes(n);
                d.write(&b, if r.chance(50) { PacketType::Decoy } else { PacketType::Genuine }, &[], usize::MAX, None);
            }
        }
    }
    // many own decoys
    for (k, n) in [1usize, 5, 230, 255, 256, 257, 450, 1000].into_iter().enumerate() {
        for iface in [Iface::Sync, Iface::Async] {
            let mut r = Rng::new(c.seed, 0xD620_0000 + k as u64);
            let mut s = Setup::honest(&mut r, iface);
            s.decoys = Some((0..n).map(|_| { let n = r.below(40); r.bytes(n) }).collect());
            if n != 230 {
                let g = r.range(1, 50);
                s.garbage = Some(r.shaped(g));
            }
            wfrag(&mut r, &mut s);
            log.case(&["C13", "C04", "C05", "C14", "C01", "C03"], format!("{} {n} own decoys", iface.name()));
            let mut d = handshake(log, s);
            d.write(b"after", PacketType::Genuine, &[], usize::MAX, None);
            d.write(b"after too", PacketType::Decoy, &[], usize::MAX, None);
        }
    }
}

/// The allocation limit and the limit of the length prefix.
pub fn limits(log: &mut Log, c: &Cfg) {
    // plaintext = contents + 1 header byte
    let limit = 4_000_014usize - 1;
    let mut sizes: Vec<usize> = vec![limit - 17, limit - 16, limit - 1, limit, limit + 1, limit + 16, limit + 17, limit + 18];
    if c.thorough {
        sizes.extend([limit - 2, limit + 2, limit + 3, limit + 64, 8_000_000, 16_777_215]);
    }
    for (i, n) in sizes.into_iter().enumerate() {
        for iface in [Iface::Sync, Iface::Async] {
            for place in 0..3 {
                let mut r = Rng::new(c.seed, 0xD700_0000 + (i * 4 + place) as u64);
                let mut s = Setup::honest(&mut r, iface);
                let big = vec![r.next() as u8; n];
                s.plan.pkts = match place {
                    0 => vec![(128, big), (0, vec![]), (0, vec![1])],
                    1 => vec![(0, big), (0, vec![1])],
                    _ => vec![(0, vec![]), (0, vec![7]), (if i % 2 == 0 { 0 } else { 128 }, big), (0, vec![1])],
                };
                log.case(&["C11", "C10", "C13"], format!("{} contents of {n} at place {place}", iface.name()));
                let mut d = handshake(log, s);
                while d.read(usize::MAX, &[], None) {}
            }
        }
    }
    // a length alone announces an oversized packet that never comes
    for iface in [Iface::Sync, Iface::Async] {
        for place in 0..2 {
            let mut r = Rng::new(c.seed, 0xD710_0000 + place);
            let mut s = Setup::honest(&mut r, iface);
            let big = vec![0u8; limit + 1];
            s.plan.pkts = if place == 0 { vec![(0, big)] } else { vec![(0, vec![]), (0, big)] };
            s.plan.cut = Some(64 + 16 + if place == 0 { 0 } else { 20 } + 3 + 5);
            s.plan.end = End::Eof;
            log.case(&["C11", "C10"], format!("{} oversized length only, place {place}", iface.name()));
            let mut d = handshake(log, s);
            d.read(usize::MAX, &[], None);
        }
    }
    // sealing
    let mut w: Vec<usize> = vec![(1 << 24) - 1, 1 << 24, (1 << 24) + 1];
    if c.thorough {
        w.extend([(1 << 24) - 2, (1 << 24) + 255, (1 << 25) + 3, limit, limit + 1]);
    }
    for (i, n) in w.into_iter().enumerate() {
        for &iface in ifaces() {
            let mut r = Rng::new(c.seed, 0xD720_0000 + i as u64);
            let s = Setup::honest(&mut r, iface);
            log.case(&["C11", "C09"], format!("{} write of {n}", iface.name()));
            let mut d = handshake(log, s);
            let big = vec![3u8; n];
            d.write(b"before", PacketType::Genuine, &[], usize::MAX, None);
            d.write(&big, PacketType::Genuine, &[], usize::MAX, None);
            d.write(b"after", PacketType::Genuine, &[], usize::MAX, None);
        }
        for iface in [Iface::Sync, Iface::Async] {
            if i >= 3 {
                break;
            }
            let mut r = Rng::new(c.seed, 0xD730_0000 + i as u64);
            let mut s = Setup::honest(&mut r, iface);
            s.decoys = Some(vec![vec![1], vec![0u8; n]]);
            log.case(&["C11"], format!("{} own decoy of {n}", iface.name()));
            handshake(log, s);
        }
    }
}

/// Cancelled asynchronous reads.
pub fn cancels(log: &mut Log, c: &Cfg) {
    // every split of two packets and the end of the handshake, a cancellation at every pause
    let layouts: &[(usize, usize)] = &[(0, 0), (0, 4), (9, 2)];
    for (li, &(g, glue)) in layouts.iter().enumerate() {
        let p1 = 20 + 2;
        let p2 = 20;
        for a in 0..=(p1 + p2) {
            for b in [0usize, 1, 3, 8] {
                if !c.thorough && b > 1 && a % 3 != 0 {
                    continue;
                }
                let mut r = Rng::new(c.seed, 0xD800_0000 + (li * 4096 + a * 16 + b) as u64);
                let mut s = Setup::honest(&mut r, Iface::Async);
                s.plan.garbage = r.shaped(g);
                s.plan.pkts = vec![(0, vec![]), (0, r.bytes(2)), (128, vec![]), (0, r.bytes(4))];
                // `glue` bytes of the session arrive with the handshake
                let hs = 64 + g + 16 + 20;
                if glue > 0 {
                    s.rscript = pieces(hs + glue, g);
                }
                log.case(&["C08", "C07", "C21"], format!("cancel after {a} bytes of the session, {b} more, glue {glue}"));
                let mut d = handshake(log, s);
                if a % 2 == 1 {
                    d.split();
                }
                // available up to hs + a: pending there, cancelled
                d.read(hs + a, &[], None);
                let mut at = a;
                for _ in 0..3 {
                    at += b;
                    if !d.read(hs + at, &[], None) && b == 0 {
                        break;
                    }
                    if b == 3 || a % 4 == 2 {
                        d.split();
                    }
                }
                if (a + b) % 3 == 0 {
                    d.split();
                }
                while d.read(usize::MAX, &[], None) {}
            }
        }
    }
    // random: pauses everywhere, cancelled at some of them; leftovers; big packets
    for k in 0..if c.thorough { 8000 } else { 700 } {
        let mut r = Rng::new(c.seed, 0xD810_0000 + k);
        let iface = if r.chance(70) { Iface::Async } else { Iface::AsyncFn };
        let mut s = Setup::honest(&mut r, Iface::Async);
        let _ = iface;
        let n = glen(&mut r);
        s.plan.garbage = r.shaped(n);
        let (nd, ns) = (r.below(3), r.range(1, 9));
        s.plan.pkts = packets(&mut r, nd, ns);
        frag(&mut r, &mut s);
        s.plan.end = stream_end(&mut r);
        log.case(&["C08", "C07", "C02", "C21"], format!("random cancellations garbage {n} packets {ns}"));
        let mut d = handshake(log, s);
        if !d.is_open() {
            continue;
        }
        if r.chance(50) {
            d.split();
        }
        let total = d.wire().inb.len();
        let mut pos = d.wire().dlv;
        let mut err = 0;
        for _ in 0..200 {
            if d.got > d.wire().facts.len() || err > 1 {
                break;
            }
            let mut script = vec![];
            for _ in 0..r.below(6) {
                script.push(if r.chance(15) && iface.is_async() { Act::Intr } else if r.chance(50) { Act::Pause } else { Act::Chunk(r.range(1, 30)) });
            }
            pos = (pos + *r.pick(&[0usize, 1, 2, 3, 5, 20, 100, 3000])).min(total);
            let cancel = if r.chance(70) { Some(r.below(3)) } else { None };
            if r.chance(15) {
                let b = content(&mut r);
                d.write(&b, PacketType::Genuine, &[], usize::MAX, None);
            }
            if r.chance(8) {
                d.split();
            }
            let before = d.got;
            let rel = if r.chance(10) { usize::MAX } else { pos };
            d.read(rel, &script, cancel);
            if d.got == before && rel == usize::MAX {
                err += 1;
            }
        }
        while d.read(usize::MAX, &[], None) {}
    }
}

/// Cancelled reads of large packets: every time the read is pending, whoever made it so.
pub fn cancels_large(log: &mut Log, c: &Cfg) {
    let mut v = vec![4096usize, 16_384, 65_519, 65_520, 65_535, 65_536, 65_537, 100_000, 300_000, 1 << 20];
    if c.thorough {
        v.extend([1023, 8192, 32_768, 131_072, 262_145, 524_288, 2_000_000, 4_000_013]);
    }
    for (i, n) in v.into_iter().enumerate() {
        for k in 0..6usize {
            let mut r = Rng::new(c.seed, 0xD820_0000 + (i * 8 + k) as u64);
            let mut s = Setup::honest(&mut r, Iface::Async);
            let big: Vec<u8> = (0..n).map(|i| (i * 13 + i / 241) as u8).collect();
            s.plan.pkts = vec![(0, vec![]), (0, big), (128, vec![1]), (0, vec![2, 3])];
            s.plan.end = if k % 2 == 0 { End::Eof } else { End::Silence };
            s.rdefault = *r.pick(&[usize::MAX, 65_536, 5000, 40_000]);
            let hs = 64 + 16 + 20;
            log.case(&["C08", "C07", "C02"], format!("contents of {n}, cancelled {k}"));
            let mut d = handshake(log, s);
            if k == 5 {
                d.split();
            }
            let marks = [0, 1, 3, 4, n / 2, n + 2, n + 19, n + 20, n + 23, n + 41];
            let mut at = 0;
            for m in 0..8 {
                match k {
                    // available in full: pending is not the transport's doing
                    0 => {
                        d.read(usize::MAX, &[], Some(m % 3));
                    }
                    1 => {
                        d.read(usize::MAX, &[Act::Pause, Act::Chunk(r.range(1, n)), Act::Pause], Some(m % 4));
                    }
                    _ => {
                        at = if m < 2 { marks[m + k] } else { (at + r.below(n)).min(n + 41) };
                        d.read(hs + at, &[], if r.chance(50) { Some(r.below(3)) } else { None });
                    }
                }
                if k == 4 && m == 3 {
                    d.split();
                }
            }
            for _ in 0..4 {
                d.read(usize::MAX, &[], None);
            }
        }
    }
}

/// Writes: fragmentation, delays, failures at every byte.
pub fn writes(log: &mut Log, c: &Cfg) {
    // handshake flights: failures at every byte
    let (g, dl) = (5usize, 3usize);
    let total = 64 + g + 16 + (20 + dl) + 20;
    for &iface in ifaces() {
        for at in 0..=total {
            for how in [How::Write, How::Zero, How::Flush] {
                if how == How::Flush && at != 0 && at != 64 + g && at % 9 != 0 {
                    continue;
                }
                let mut r = Rng::new(c.seed, 0xD900_0000 + (at * 4 + how as usize) as u64);
                let mut s = Setup::honest(&mut r, iface);
                s.garbage = Some(r.shaped(g));
                s.decoys = Some(vec![r.bytes(dl)]);
                let kind = if r.chance(40) { KINDS[at % 5] } else { KINDS[(at + r.below(KINDS.len())) % KINDS.len()] };
                s.werr = Some(WErr { at, kind, how });
                if r.chance(50) {
                    s.wdefault = r.range(1, 40);
                }
                log.case(&["C12", "C14", "C10"], format!("{} output fails after {at} ({how:?} {kind:?})", iface.name()));
                let mut d = handshake(log, s);
                d.read(usize::MAX, &[], None);
            }
        }
    }
    // flushing is interrupted once
    for &iface in ifaces() {
        for k in 0..24usize {
            let mut r = Rng::new(c.seed, 0xD918_0000 + k as u64);
            let mut s = Setup::honest(&mut r, iface);
            s.plan.pkts = packets(&mut r, 0, 3);
            let hs = k % 3 < 2;
            if hs {
                s.garbage = Some(r.shaped(g));
                s.decoys = Some(vec![r.bytes(dl)]);
                let at = if k % 3 == 0 { r.below(64 + g) } else { 64 + g + r.below(total - 64 - g) };
                s.werr = Some(WErr { at, kind: ErrorKind::Interrupted, how: How::Flush });
            }
            log.case(&["C14", "C12"], format!("{} flush interrupted", iface.name()));
            let mut d = handshake(log, s);
            if !hs {
                let inj = WErr { at: r.below(21), kind: ErrorKind::Interrupted, how: How::Flush };
                d.write(b"zero", PacketType::Genuine, &[], usize::MAX, None);
                d.write(b"one", PacketType::Genuine, &[], if r.chance(50) { usize::MAX } else { 7 }, Some(inj));
                d.write(b"two", PacketType::Genuine, &[], usize::MAX, None);
            }
            d.read(usize::MAX, &[], None);
        }
    }
    // session writes: failures at every byte, then more writes and reads
    for &iface in ifaces() {
        for at in 0..=24usize {
            for how in [How::Write, How::Zero, How::Flush] {
                let mut r = Rng::new(c.seed, 0xD910_0000 + (at * 4 + how as usize) as u64);
                let mut s = Setup::honest(&mut r, iface);
                s.plan.pkts = packets(&mut r, 0, 4);
                log.case(&["C14", "C21", "C10"], format!("{} packet write fails after {at} ({how:?})", iface.name()));
                let mut d = handshake(log, s);
                if r.chance(50) {
                    d.split();
                }
                d.write(b"one", PacketType::Genuine, &[Act::Chunk(1), Act::Pause], 7, None);
                d.read(usize::MAX, &[], None);
                d.write(b"two!", PacketType::Genuine, &[], usize::MAX, Some(WErr { at, kind: KINDS[at % KINDS.len()], how }));
                d.read(usize::MAX, &[], None);
                d.write(b"three", PacketType::Decoy, &[], usize::MAX, None);
                d.read(usize::MAX, &[], None);
                d.read(usize::MAX, &[], None);
            }
        }
    }
    // short writes and pauses of every kind
    for k in 0..if c.thorough { 6000 } else { 500 } {
        let mut r = Rng::new(c.seed, 0xD920_0000 + k);
        let mut s = Setup::honest(&mut r, IFACES[k as usize % 4]);
        own(&mut r, &mut s);
        s.plan.pkts = packets(&mut r, 0, 3);
        wfrag(&mut r, &mut s);
        frag(&mut r, &mut s);
        log.case(&["C14", "C07", "C21", "C01", "C04"], "writes in pieces".into());
        let mut d = handshake(log, s);
        if r.chance(30) {
            d.split();
        }
        for _ in 0..r.range(1, 5) {
            let b = content(&mut r);
            let mut script = vec![];
            for _ in 0..r.below(8) {
                script.push(if r.chance(50) { Act::Pause } else { Act::Chunk(r.range(1, 50)) });
            }
            let wd = *r.pick(&[1usize, 2, 16, 19, 20, 21, 100, usize::MAX]);
            d.write(&b, if r.chance(20) { PacketType::Decoy } else { PacketType::Genuine }, &script, wd, None);
            if r.chance(30) {
                d.read(usize::MAX, &[], None);
            }
        }
    }
}

/// The halves do not know of each other.
pub fn halves(log: &mut Log, c: &Cfg) {
    for k in 0..if c.thorough { 5000 } else { 500 } {
        let mut r = Rng::new(c.seed, 0xDA00_0000 + k);
        let mut s = Setup::honest(&mut r, IFACES[k as usize % 4]);
        let n = glen(&mut r);
        s.plan.garbage = r.shaped(n);
        s.plan.pkts = packets(&mut r, 1, 6);
        let kind = k % 4;
        let hs: usize = 64 + n + 16 + s.plan.pkts[..2].iter().map(|p| 20 + p.1.len()).sum::<usize>();
        let total: usize = hs + s.plan.pkts[2..].iter().map(|p| 20 + p.1.len()).sum::<usize>();
        if kind == 1 {
            s.plan.tamper.push(Tamper::Xor(hs + r.below(total - hs), 4));
        }
        if kind == 2 {
            s.plan.cut = Some(hs + r.below(total - hs));
            s.plan.end = stream_end(&mut r);
        }
        frag(&mut r, &mut s);
        log.case(&["C21", "C07", "C10"], format!("{} halves {kind}", s.iface.name()));
        let mut d = handshake(log, s);
        let (mut fails, mut rd) = (0, 0);
        for _ in 0..20 {
            match r.below(12) {
                0 => d.split(),
                1 => d.unwrap_reader(),
                2 => d.unwrap_writer(),
                3..=6 => {
                    if rd < 2 && !d.read(usize::MAX, &[], None) {
                        rd += 1;
                    }
                }
                7 if kind == 3 && fails == 0 => {
                    fails += 1;
                    let at = r.below(23);
                    d.write(b"abc", PacketType::Genuine, &[], usize::MAX, Some(WErr { at, kind: *r.pick(&KINDS), how: How::Write }));
                }
                _ => {
                    let b = content(&mut r);
                    let w = *r.pick(&[3usize, 50, usize::MAX]);
                    d.write(&b, PacketType::Genuine, &[], w, None);
                }
            }
        }
    }
}


/// A half waiting for the transport does not hold up the other one.
pub fn held(log: &mut Log, c: &Cfg) {
    for k in 0..if c.thorough { 2000 } else { 160 } {
        let mut r = Rng::new(c.seed, 0xDB00_0000 + k);
        let mut s = Setup::honest(&mut r, if k % 2 == 0 { Iface::Sync } else { Iface::Async });
        s.plan.pkts = packets(&mut r, 0, 5);
        s.rdefault = *r.pick(&[1usize, 3, 19, usize::MAX]);
        log.case(&["C21", "C07"], format!("{} write while a read waits", s.iface.name()));
        let mut d = handshake(log, s);
        for _ in 0..3 {
            let b = content(&mut r);
            let at = d.wire().dlv + r.below(30);
            d.held(at, &b, PacketType::Genuine);
            if r.chance(30) {
                d.read(usize::MAX, &[], None);
            }
            if r.chance(30) {
                d.write(b"between", PacketType::Decoy, &[], usize::MAX, None);
            }
        }
    }
}
