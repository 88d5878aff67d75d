// Replays the behaviours of spec/ReaderIO.tla into binread::io.
#![allow(warnings)]
use binread::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom, StreamPosition};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Op = (String, usize, i128);

fn kinds() -> Vec<ErrorKind> {
    use ErrorKind::*;
    vec![NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse,
         AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Other, UnexpectedEof, Interrupted]
}
fn kind(n: &str) -> ErrorKind { kinds().into_iter().find(|k| format!("{:?}", k) == n).unwrap() }
fn name(e: &Error) -> String { format!("{:?}", e.kind()) }

struct R { ok: bool, k: String, n: i128, b: Vec<i64> }
fn ok(n: i128, b: Vec<i64>) -> R { R { ok: true, k: String::new(), n, b } }
fn er(e: &Error) -> R { let _ = format!("{:?}", e); R { ok: false, k: name(e), n: 0, b: vec![] } }
fn bs(b: &[u8]) -> Vec<i64> { b.iter().map(|x| *x as i64).collect() }

// the same operation on any reader, however it is passed along
fn do_read<X: Read>(mut x: X, o: &Op) -> R {
    match o.0.as_str() {
        "read" => { let mut b = vec![0xEEu8; o.1]; match x.read(&mut b) { Ok(n) => {
            if b[n..].iter().any(|x| *x != 0xEE) { panic!("read wrote beyond what it reported"); }
            ok(n as i128, bs(&b[..n])) } Err(e) => er(&e) } }
        "exact" => { let mut b = vec![0xEEu8; o.1]; match x.read_exact(&mut b) { Ok(()) => ok(0, bs(&b)), Err(e) => er(&e) } }
        "bytes" => { let mut v = vec![]; let mut it = x.bytes(); for _ in 0..o.1 {
            v.push(match it.next() { None => -1, Some(Ok(b)) => b as i64, Some(Err(_)) => -2 }); } ok(0, v) }
        _ => unreachable!(),
    }
}
fn do_seek<X: Seek>(mut x: X, o: &Op) -> R {
    let s = match o.0.as_str() {
        "start" | "dstart" => SeekFrom::Start(o.2 as u64),
        "cur" | "dcur" => SeekFrom::Current(o.2 as i64),
        "end" | "dend" => SeekFrom::End(o.2 as i64),
        "spos" | "dspos" => return match x.stream_position() { Ok(n) => ok(n as i128, vec![]), Err(e) => er(&e) },
        "stpos" | "dstpos" => return match x.stream_pos() { Ok(n) => ok(n as i128, vec![]), Err(e) => er(&e) },
        _ => unreachable!(),
    };
    match x.seek(s) { Ok(n) => ok(n as i128, vec![]), Err(e) => er(&e) }
}
fn via_read<X: Read>(x: &mut X, o: &Op, via: usize) -> R {
    match via { 0 => do_read(x, o), 1 => do_read(x.by_ref(), o), 2 => { let mut y = x; do_read(&mut y, o) }, _ => { let d: &mut dyn Read = x; do_read(d, o) } }
}
fn via_seek<X: Seek>(x: &mut X, o: &Op, via: usize) -> R {
    match via { 0 => do_seek(x, o), 1 | 2 => { let mut y = x; do_seek(&mut y, o) }, _ => { let d: &mut dyn Seek = x; do_seek(d, o) } }
}

fn cursor<T: AsRef<[u8]> + Clone>(mut c: Cursor<T>, ops: &[Op], via: usize, setlen: fn(&mut T, usize)) -> Vec<(R, i128, usize)> {
    let mut out = vec![];
    for o in ops {
        let r = match o.0.as_str() {
            "read" | "exact" | "bytes" => via_read(&mut c, o, via),
            "setpos" => { c.set_position(o.2 as u64); ok(0, vec![]) }
            "pos" => ok(c.position() as i128, vec![]),
            "clone" => { let d = c.clone(); let _ = c.seek(SeekFrom::Start(9)); let b = bs(c.get_ref().as_ref()); if bs(c.into_inner().as_ref()) != b { panic!("into_inner"); } c = d; ok(0, b) }
            "len" => { setlen(c.get_mut(), o.1); ok(0, vec![]) }
            _ => via_seek(&mut c, o, via),
        };
        out.push((r, c.position() as i128, 0));
    }
    out
}

fn wide(i: usize) -> u8 { (i * 31 + i / 256 * 7 + i / 65536) as u8 }
// long contents: what was read is reported by where it starts
fn wcursor<T: AsRef<[u8]> + Clone>(mut c: Cursor<T>, ops: &[Op], via: usize) -> Vec<(R, i128, usize)> {
    let mut out = vec![];
    for o in ops {
        let at = c.position();
        let mut r = match o.0.as_str() {
            "read" | "exact" => via_read(&mut c, o, via),
            "setpos" => { c.set_position(o.2 as u64); ok(0, vec![]) }
            _ => via_seek(&mut c, o, via),
        };
        if r.ok && (o.0 == "read" || o.0 == "exact") {
            let good = r.b.iter().enumerate().all(|(i, x)| *x == wide(at as usize + i) as i64);
            r.b = vec![if good { at as i64 } else { -9 }, r.b.len() as i64];
        }
        out.push((r, c.position() as i128, 0));
    }
    out
}

#[derive(Clone)]
struct Ans { a: String, n: usize, k: String }
struct Dev { script: Vec<Ans>, at: usize, next: usize, calls: usize, seen: Option<SeekFrom> }
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        self.calls += 1;
        if self.calls > 1000 { panic!("HANG"); }
        if buf.is_empty() { return Ok(0); }
        if self.at >= self.script.len() { panic!("the device was asked more often than it should be"); }
        let a = self.script[self.at].clone(); self.at += 1;
        match a.a.as_str() {
            "d" => { let n = a.n.min(buf.len()); for i in 0..n { buf[i] = ((self.next + i + 1) % 251) as u8; } self.next += n; Ok(n) }
            "z" => Ok(0),
            _ => Err(Error::new(kind(&a.k), "scripted")),
        }
    }
}
impl Seek for Dev {
    fn seek(&mut self, s: SeekFrom) -> Result<u64, Error> {
        self.calls += 1; self.seen = Some(s);
        let a = self.script[self.at].clone(); self.at += 1;
        if a.a == "p" { Ok(a.n as u64) } else { Err(Error::new(kind(&a.k), "scripted")) }
    }
}

// line: id kind len via type ops(op:n:d,...) script(a:n:k,...)
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        if p.len() < 7 { continue; }
        let len: usize = p[2].parse().unwrap(); let via: usize = p[3].parse().unwrap(); let ty: usize = p[4].parse().unwrap();
        let ops: Vec<Op> = p[5].split(',').map(|s| { let q: Vec<&str> = s.split(':').collect(); (q[0].into(), q[1].parse().unwrap(), q[2].parse().unwrap()) }).collect();
        let script: Vec<Ans> = if p[6] == "-" { vec![] } else { p[6].split(',').map(|s| { let q: Vec<&str> = s.split(':').collect(); Ans { a: q[0].into(), n: q[1].parse().unwrap(), k: q[2].into() } }).collect() };
        let full: &'static [u8] = &[0x11, 0x22, 0x33, 0x44, 0x55];
        write!(w, "{} ", p[0]).unwrap();
        w.flush().unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| match p[1] {
            "cursor" => match ty {
                0 => cursor(Cursor::new(full[..len].to_vec()), &ops, via, |v, n| { v.clear(); v.extend((1..=n).map(|i| (17 * i) as u8)); }),
                1 => cursor(Cursor::new(&full[..len]), &ops, via, |v, n| { *v = &[0x11, 0x22, 0x33, 0x44, 0x55][..n]; }),
                2 if len == 0 => cursor(Cursor::<Vec<u8>>::default(), &ops, via, |v, n| { v.clear(); v.extend((1..=n).map(|i| (17 * i) as u8)); }),
                _ => cursor(Cursor::new(full[..len].to_vec().into_boxed_slice()), &ops, via, |v, n| { *v = (1..=n).map(|i| (17 * i) as u8).collect::<Vec<u8>>().into_boxed_slice(); }),
            },
            "wide" => {
                let d: Vec<u8> = (0..len).map(wide).collect();
                match ty {
                    0 => wcursor(Cursor::new(d), &ops, via),
                    1 => { let s: &[u8] = &d; wcursor(Cursor::new(s), &ops, via) }
                    2 => wcursor(Cursor::new(&d), &ops, via),
                    _ => wcursor(Cursor::new(d.into_boxed_slice()), &ops, via),
                }
            }
            "device" => {
                let mut d = Dev { script, at: 0, next: 0, calls: 0, seen: None }; let mut out = vec![];
                for o in &ops { let r = via_read(&mut d, o, via); out.push((r, d.next as i128, d.calls)); }
                out
            }
            _ => {
                let mut d = Dev { script, at: 0, next: 0, calls: 0, seen: None }; let mut out = vec![];
                for o in &ops {
                    if o.0 == "kind" { let e = Error::new(kinds()[o.1 - 1], "x"); out.push((R { ok: true, k: name(&e), n: 0, b: vec![] }, 0, 0)); continue; }
                    d.calls = 0;
                    let mut r = via_seek(&mut d, o, via);
                    let (nm, v) = match d.seen.take() { Some(SeekFrom::Start(x)) => ("S", x as i128), Some(SeekFrom::Current(x)) => ("C", x as i128), Some(SeekFrom::End(x)) => ("E", x as i128), None => ("-", -1) };
                    if r.ok { r.k = nm.into(); }
                    out.push((r, v, d.calls));
                }
                out
            }
        }));
        match res {
            Ok(v) => {
                let s: Vec<String> = v.iter().map(|(r, p, c)| format!("[{},\"{}\",{},{:?},{},{}]", r.ok as u8, r.k, r.n, r.b, p, c)).collect();
                writeln!(w, "{{\"r\":[{}]}}", s.join(",")).unwrap();
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(w, "{{\"panic\":{:?},\"r\":[]}}", m).unwrap()
            }
        }
    }
    w.flush().unwrap();
}
