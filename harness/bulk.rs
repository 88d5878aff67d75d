// Replays the outcomes of spec/Bulk.tla into the real crate.
#![allow(warnings)]
use binread::io::{Read, Seek, SeekFrom};
use binread::{punctuated::Punctuated, BinRead, BinReaderExt, FilePtr, NullString, NullWideString};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Alloc;
static mut BIGGEST: usize = 0;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > BIGGEST { BIGGEST = l.size(); }
        if l.size() > 1 << 28 { return std::ptr::null_mut(); }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static A: Alloc = Alloc;

struct Rdr { data: Vec<u8>, pos: u64, bad: i64, chunk: usize, ops: usize, flip: bool, intr: bool }
fn ioerr(k: binread::io::ErrorKind) -> binread::io::Error { binread::io::Error::new(k, "x") }
impl Read for Rdr {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, binread::io::Error> {
        self.ops += 1;
        if self.ops > 3_000_000 { panic!("HANG"); }
        if self.intr { self.flip = !self.flip; if self.flip && self.ops % 997 == 1 { return Err(ioerr(binread::io::ErrorKind::Interrupted)); } }
        let len = self.data.len() as u64;
        if self.pos >= len || buf.is_empty() { return Ok(0); }
        if self.bad >= 0 && self.pos == self.bad as u64 { return Err(ioerr(binread::io::ErrorKind::ConnectionReset)); }
        let mut n = (buf.len() as u64).min(len - self.pos);
        if self.chunk > 0 { n = n.min(self.chunk as u64); }
        if self.bad >= 0 && self.pos < self.bad as u64 { n = n.min(self.bad as u64 - self.pos); }
        let p = self.pos as usize;
        buf[..n as usize].copy_from_slice(&self.data[p..p + n as usize]);
        self.pos += n;
        Ok(n as usize)
    }
}
impl Seek for Rdr {
    fn seek(&mut self, s: SeekFrom) -> Result<u64, binread::io::Error> {
        self.ops += 1;
        let t = match s { SeekFrom::Start(x) => x as i128, SeekFrom::Current(x) => self.pos as i128 + x as i128, SeekFrom::End(x) => self.data.len() as i128 + x as i128 };
        if t < 0 { return Err(ioerr(binread::io::ErrorKind::InvalidInput)); }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

fn pat(x: usize) -> u8 { ((x * 7) % 251 + 1) as u8 }

// elements as big-endian bytes
trait B { fn b(&self) -> Vec<u8>; }
impl B for u8 { fn b(&self) -> Vec<u8> { vec![*self] } }
impl B for u16 { fn b(&self) -> Vec<u8> { self.to_be_bytes().to_vec() } }
impl B for [u8; 3] { fn b(&self) -> Vec<u8> { self.to_vec() } }
impl B for core::num::NonZeroU8 { fn b(&self) -> Vec<u8> { vec![self.get()] } }
#[derive(BinRead)] struct St { a: u8, b: u16 }
impl B for St { fn b(&self) -> Vec<u8> { let mut v = vec![self.a]; v.extend(self.b.to_be_bytes()); v } }
// an element type written by hand
struct Own(u8);
impl BinRead for Own { type Args = (); fn read_options<R: Read + Seek>(r: &mut R, o: &binread::ReadOptions, a: ()) -> binread::BinResult<Self> { Ok(Own(u8::read_options(r, o, a)? ^ 0x55)) }
    // right once it has been called once
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, _: &binread::ReadOptions, _: ()) -> binread::BinResult<()> { self.0 ^= 0x55; Ok(()) } }
impl B for Own { fn b(&self) -> Vec<u8> { vec![self.0] } }

macro_rules! obj { ($m:ident, $n:ident, $t:ty, $($d:tt)*) => { #[derive(BinRead)] #[br(import($m: usize))] struct $n { h: u8, #[br($($d)*)] v: $t } } }
obj!(n, VecU8, Vec<u8>, count = n);
obj!(n, VecU16, Vec<u16>, count = n);
obj!(n, VecSt, Vec<St>, count = n);
obj!(n, VecArr, Vec<[u8; 3]>, count = n);
obj!(n, VecOwn, Vec<Own>, count = n);
obj!(n, CountU8, Vec<u8>, parse_with = binread::count(n));
obj!(n, CountSt, Vec<St>, parse_with = binread::count(n));
obj!(n, Rb, Vec<u8>, parse_with = binread::helpers::read_bytes, count = n);
obj!(n, Sep, Punctuated<u8, u8>, parse_with = Punctuated::separated, count = n);
obj!(n, Sept, Punctuated<u8, u8>, parse_with = Punctuated::separated_trailing, count = n);
obj!(n, Until, Vec<u8>, parse_with = binread::until(|x: &u8| *x == 0));
obj!(n, Untilx, Vec<u8>, parse_with = binread::until_exclusive(|x: &u8| *x == 0));
obj!(n, Until16, Vec<u16>, parse_with = binread::until(|x: &u16| *x == 0));
obj!(n, Ueof, Vec<u8>, parse_with = binread::until_eof);
obj!(n, Ueof16, Vec<u16>, parse_with = binread::until_eof);
#[derive(BinRead)] #[br(import(n: usize))] struct NStr { h: u8, v: NullString }
#[derive(BinRead)] #[br(import(n: usize))] struct WStr { h: u8, v: NullWideString }
#[derive(BinRead)] #[br(import(n: usize))] struct VecNz { h: u8, v: Vec<core::num::NonZeroU8> }
macro_rules! mov { ($m:ident, $n:ident, $t:ty, $($d:tt)*) => { #[derive(BinRead)] #[br(import($m: usize))] struct $n { h: u8, #[br($($d)*)] v: $t, w: u8 } } }
mov!(n, PadBefore, u8, pad_before = n as i64);
mov!(n, PadAfter, u8, pad_after = n as i64);
mov!(n, PadSize, u8, pad_size_to = n as i64);
mov!(n, AlignAfter, u8, align_after = n as i64);
mov!(n, SeekB, u8, seek_before = SeekFrom::Start(n as u64));
mov!(n, Ptr, FilePtr<u32, u8>, deref_now);

// [length, number of separators, samples, everything as the input has it]
fn show<T: B>(v: &[T], seps: &[u8], k: usize, idx: &[usize], keep: usize) -> String {
    let mut all = true;
    for (i, x) in v.iter().enumerate() {
        let b = x.b();
        if keep > 0 && i == keep { all &= b.iter().all(|x| *x == 0); continue; }
        for (j, y) in b.iter().enumerate() { if *y != pat(5 + i * k + j) { all = false; } }
    }
    for (i, s) in seps.iter().enumerate() { if *s != pat(5 + 2 * i + 1) { all = false; } }
    let s: Vec<String> = idx.iter().filter(|i| **i < v.len()).map(|i| format!("[{},{:?}]", i, v[*i].b())).collect();
    format!("{},{},[{}],{}", v.len(), seps.len(), s.join(","), all)
}

fn run(kind: &str, n: usize, r: &mut Rdr, idx: &[usize]) -> Result<String, binread::Error> {
    macro_rules! rd { ($t:ty) => { { let o: $t = r.read_be_args((n,))?; o } } }
    let none: &[u8] = &[];
    Ok(match kind {
        "vec_u8" => show(&rd!(VecU8).v, none, 1, idx, 0),
        "vec_u16" => show(&rd!(VecU16).v, none, 2, idx, 0),
        "vec_st" => show(&rd!(VecSt).v, none, 3, idx, 0),
        "vec_arr" => show(&rd!(VecArr).v, none, 3, idx, 0),
        "vec_spy" => show(&rd!(VecOwn).v, none, 1, idx, 0),
        "count_u8" => show(&rd!(CountU8).v, none, 1, idx, 0),
        "count_st" => show(&rd!(CountSt).v, none, 3, idx, 0),
        "rb" => show(&rd!(Rb).v, none, 1, idx, 0),
        "sep" => { let x = rd!(Sep).v; show(&x, &x.seperators, 2, idx, 0) }
        "sept" => { let x = rd!(Sept).v; show(&x, &x.seperators, 2, idx, 0) }
        "until" => { let v = rd!(Until).v; let k = v.len().max(1) - 1; if k == 0 { format!("{},0,[{}],{}", v.len(), idx.iter().filter(|i| **i < v.len()).map(|i| format!("[{},{:?}]", i, v[*i].b())).collect::<Vec<_>>().join(","), v == [0]) } else { show(&v, none, 1, idx, k) } }
        "until16" => { let v = rd!(Until16).v; let k = v.len().max(1) - 1; if k == 0 { format!("{},0,[{}],{}", v.len(), idx.iter().filter(|i| **i < v.len()).map(|i| format!("[{},{:?}]", i, v[*i].b())).collect::<Vec<_>>().join(","), v == [0]) } else { show(&v, none, 2, idx, k) } }
        "untilx" => show(&rd!(Untilx).v, none, 1, idx, 0),
        "ueof" => show(&rd!(Ueof).v, none, 1, idx, 0),
        "ueof16" => show(&rd!(Ueof16).v, none, 2, idx, 0),
        "nstr" => show(&rd!(NStr).v.0, none, 1, idx, 0),
        "wstr" => show(&rd!(WStr).v.0, none, 2, idx, 0),
        "vecnz" => show(&rd!(VecNz).v, none, 1, idx, 0),
        "pad_before" => { let o = rd!(PadBefore); format!("1,0,[[0,[{}]],[1,[{}]]],true", o.v, o.w) }
        "pad_after" => { let o = rd!(PadAfter); format!("1,0,[[0,[{}]],[1,[{}]]],true", o.v, o.w) }
        "pad_size" => { let o = rd!(PadSize); format!("1,0,[[0,[{}]],[1,[{}]]],true", o.v, o.w) }
        "align_after" => { let o = rd!(AlignAfter); format!("1,0,[[0,[{}]],[1,[{}]]],true", o.v, o.w) }
        "seek" => { let o = rd!(SeekB); format!("1,0,[[0,[{}]],[1,[{}]]],true", o.v, o.w) }
        "ptr" => { let o = rd!(Ptr); format!("1,0,[[0,[{}]],[1,[{}]]],true", *o.v, o.w) }
        _ => panic!("kind"),
    })
}

// line: id kind n total term(width at offset|-1) bad chunk intr idx(.)
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        if p.len() < 10 { continue; }
        let n: usize = p[2].parse().unwrap(); let total: usize = p[3].parse().unwrap();
        let mut data: Vec<u8> = (0..total).map(pat).collect();
        let (t, tw): (i64, usize) = (p[4].parse().unwrap(), p[5].parse().unwrap());
        if t >= 0 { for j in 0..tw { if t as usize + j < total { data[t as usize + j] = 0; } } }
        if p[1] == "ptr" { let b = (n as u32).to_be_bytes(); for j in 0..4 { if 5 + j < total { data[5 + j] = b[j]; } } }
        let idx: Vec<usize> = if p[9] == "-" { vec![] } else { p[9].split('.').map(|x| x.parse().unwrap()).collect() };
        let mut r = Rdr { data, pos: 4, bad: p[6].parse().unwrap(), chunk: p[7].parse().unwrap(), ops: 0, flip: false, intr: p[8] == "1" };
        unsafe { BIGGEST = 0; }
        write!(w, "{} ", p[0]).unwrap();
        w.flush().unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| run(p[1], n, &mut r, &idx)));
        let big = unsafe { BIGGEST };
        match res {
            Ok(Ok(s)) => writeln!(w, "{{\"r\":[1,\"\",{},{}],\"big\":{}}}", s, r.pos, big).unwrap(),
            Ok(Err(e)) => {
                let k = match &e { binread::Error::Io(e) => match e.kind() { binread::io::ErrorKind::UnexpectedEof => "eof".into(), binread::io::ErrorKind::ConnectionReset => "bad".into(), k => format!("{:?}", k) }, e => "other".to_string() };
                writeln!(w, "{{\"r\":[0,\"{}\",0,0,[],true,{}],\"big\":{}}}", k, r.pos, big).unwrap()
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(w, "{{\"panic\":{:?},\"r\":[]}}", m).unwrap()
            }
        }
    }
    w.flush().unwrap();
}
