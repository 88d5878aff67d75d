// Runtime of the conformance harness: the reader, the observers, the value
// dumper and the main loop.  `gen` is generated from the schemas that the
// specification executes.
#![allow(warnings)]
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[path = "gen.rs"]
mod gen;

// ------------------------------------------------------------ allocation
struct Alloc;
static mut BIGGEST: usize = 0;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > BIGGEST { BIGGEST = l.size(); }
        if l.size() > 1 << 28 { return std::ptr::null_mut(); }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > BIGGEST { BIGGEST = l.size(); }
        if l.size() > 1 << 28 { return std::ptr::null_mut(); }
        std::alloc::System.alloc_zeroed(l)
    }
}
#[global_allocator]
static A: Alloc = Alloc;

// ---------------------------------------------------------------- reader
pub struct Rdr {
    pub data: Vec<u8>,
    pub pos: u64,
    pub bad: i64,
    pub slim: i64,
    pub seen: u64,       // how far the device has delivered data (or been positioned initially)
    pub chunk: Vec<usize>,
    pub turn: usize,
    pub intr: Vec<u64>,
    pub ops: usize,
    pub die: usize,      // the operation that fails (0: none)
    pub dead: bool,      // and all after it
    pub failed: usize,
    pub ff: Vec<usize>,  // failed operations per call
}

// the reader's offset 0 is at this absolute position of the stream; positions
// below it are aliases (so that absolute positions in the data still mean something)
static mut BASE: u64 = 0;
fn base() -> u64 { unsafe { BASE } }
// offsets of pointers start where the reader does
pub fn ob(x: u64) -> u64 { x.saturating_add(base()) }
fn rel(p: u64) -> i128 { p as i128 - base() as i128 }

impl Rdr {
    fn op(&mut self) -> Result<(), binread::io::Error> {
        self.ops += 1;
        if self.ops > 200_000 { panic!("HANG: more than 200000 reader operations"); }
        if self.die > 0 && (self.ops == self.die || self.dead && self.ops > self.die) {
            self.failed += 1;
            return Err(ioerr(binread::io::ErrorKind::BrokenPipe, "died"));
        }
        Ok(())
    }
}

// what kind of error a failing device reports
static mut BADK: usize = 0;
fn badkind() -> binread::io::ErrorKind {
    use binread::io::ErrorKind::*;
    #[cfg(feature = "nostd")]
    { ConnectionReset }
    #[cfg(not(feature = "nostd"))]
    { [ConnectionReset, WouldBlock, TimedOut, Other, NotFound, InvalidData, ConnectionAborted, NotConnected, UnexpectedEof, WriteZero, InvalidInput, OutOfMemory][unsafe { BADK }] }
}

fn ioerr(k: binread::io::ErrorKind, m: &'static str) -> binread::io::Error { binread::io::Error::new(k, m) }

impl binread::io::Read for Rdr {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, binread::io::Error> {
        self.op()?;
        if buf.is_empty() { return Ok(0); }
        if let Some(i) = self.intr.iter().position(|p| *p == self.pos) {
            self.intr.remove(i);
            return Err(ioerr(binread::io::ErrorKind::Interrupted, "interrupted"));
        }
        let len = self.data.len() as u64;
        if self.pos >= len { return Ok(0); }
        if self.bad >= 0 && self.pos == self.bad as u64 {
            self.seen = self.seen.max(self.pos + 1);
            return Err(ioerr(badkind(), "bad"));
        }
        let mut n = (buf.len() as u64).min(len - self.pos);
        if !self.chunk.is_empty() {
            let c = self.chunk[self.turn % self.chunk.len()];
            self.turn += 1;
            n = n.min(c as u64);
        }
        if self.bad >= 0 && self.pos < self.bad as u64 { n = n.min(self.bad as u64 - self.pos); }
        let n = n as usize;
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        self.seen = self.seen.max(self.pos);
        Ok(n)
    }
}

impl binread::io::Seek for Rdr {
    fn seek(&mut self, s: binread::io::SeekFrom) -> Result<u64, binread::io::Error> {
        use binread::io::SeekFrom::*;
        self.op()?;
        let t: i128 = match s {
            Start(x) => if x < base() { x as i128 } else { rel(x) },
            Current(x) => self.pos as i128 + x as i128,
            End(x) => self.data.len() as i128 + x as i128,
        };
        if t < 0 || t > u64::MAX as i128 { return Err(ioerr(binread::io::ErrorKind::InvalidInput, "inval")); }
        if self.slim >= 0 && t > self.slim as i128 && t > self.seen as i128 { return Err(ioerr(binread::io::ErrorKind::PermissionDenied, "seek")); }
        self.pos = t as u64;
        Ok(self.pos.saturating_add(base()))
    }
}

// ---------------------------------------------------------------- events
thread_local! { pub static EV: RefCell<Vec<String>> = RefCell::new(Vec::new()); }
fn log(s: String) { EV.with(|e| e.borrow_mut().push(s)); }
fn en(e: binread::Endian) -> &'static str {
    match e { binread::Endian::Big => "B", binread::Endian::Little => "L",
              binread::Endian::Native => if cfg!(target_endian = "big") { "B" } else { "L" } }
}
pub fn tk<T>(tag: u32, x: T) -> T { log(format!("[\"t\",{}]", tag)); x }
fn spylog(k: &str, tag: u32, pos: u64, o: &binread::ReadOptions, a: Vec<i64>) {
    log(format!("[\"{}\",{},{},\"{}\",{},{},{:?}]", k, tag, if k == "a" { 0 } else { rel(pos) }, en(o.endian),
        o.count.map_or(-1, |c| c.min(1073741823) as i64), if o.offset >= base() { o.offset - base() } else { o.offset }, a));
}

pub trait ArgL: Copy + 'static { fn l(&self) -> Vec<i64>; }
impl ArgL for () { fn l(&self) -> Vec<i64> { vec![] } }
impl ArgL for (u32,) { fn l(&self) -> Vec<i64> { vec![self.0 as i64] } }
impl ArgL for (u32, u32) { fn l(&self) -> Vec<i64> { vec![self.0 as i64, self.1 as i64] } }
impl ArgL for (u32, u32, u32) { fn l(&self) -> Vec<i64> { vec![self.0 as i64, self.1 as i64, self.2 as i64] } }

macro_rules! spy { ($n:ident, $a:ty) => {
    #[derive(Default, Clone, Copy)]
    pub struct $n<const T: u32>(pub u8);
    impl<const T: u32> binread::BinRead for $n<T> {
        type Args = $a;
        fn read_options<R: binread::io::Read + binread::io::Seek>(r: &mut R, o: &binread::ReadOptions, a: $a) -> binread::BinResult<Self> {
            let pos = r.seek(binread::io::SeekFrom::Current(0))?;
            spylog("r", T, pos, o, a.l());
            let mut b = [0u8; 1];
            if let Err(e) = r.read_exact(&mut b) { r.seek(binread::io::SeekFrom::Start(pos))?; return Err(e.into()); }
            Ok($n(b[0]))
        }
        fn after_parse<R: binread::io::Read + binread::io::Seek>(&mut self, r: &mut R, o: &binread::ReadOptions, a: $a) -> binread::BinResult<()> {
            spylog("a", T, 0, o, a.l());
            let p = ob(T as u64 % 10);
            if T / 1000 == 7 { r.seek(binread::io::SeekFrom::Start(p))?; }
            if T / 1000 == 8 && self.0 % 2 == 1 { return Err(binread::Error::Custom { pos: p, err: Box::new(E1(self.0 as i64)) }); }
            Ok(())
        }
    }
    impl<const T: u32> Dump for $n<T> { fn dump(&self, o: &mut Out) { o.prim("u", &[self.0]); } }
    impl<const T: u32> ToI for $n<T> { fn i(&self) -> i64 { self.0 as i64 } }
} }
spy!(Spy0, ());
spy!(Spy1, (u32,));
spy!(Spy2, (u32, u32));
spy!(Spy3, (u32, u32, u32));

// a user-written parser
pub fn cust<const TAG: u32, T: binread::BinRead<Args = ()>, AA: ArgL, R: binread::io::Read + binread::io::Seek>(
    r: &mut R, o: &binread::ReadOptions, a: AA) -> binread::BinResult<T> {
    let pos = r.seek(binread::io::SeekFrom::Current(0))?;
    spylog("p", TAG, pos, o, a.l());
    let mut o2 = opts(o.endian, None, 0);
    #[cfg(feature = "dbg")]
    { o2.variable_name = o.variable_name; o2.dont_output_to_template = o.dont_output_to_template; }
    T::read_options(r, &o2, ())
}

pub fn opts(e: binread::Endian, count: Option<usize>, offset: u64) -> binread::ReadOptions {
    let mut o = binread::ReadOptions::default();
    o.endian = e; o.count = count; o.offset = ob(offset);
    o
}

#[derive(Debug, Clone, Copy)]
pub struct E1(pub i64);

// ---------------------------------------------------------------- values
pub struct Out { pub s: String, first: bool }
impl Out {
    fn comma(&mut self) { if !self.first { self.s.push(','); } self.first = false; }
    pub fn open(&mut self, t: &str, n: i64) { self.comma(); self.s.push_str(&format!("[\"{}\",{},[],[", t, n)); self.first = true; }
    pub fn close(&mut self) { self.s.push_str("]]"); self.first = false; }
    pub fn prim(&mut self, t: &str, b: &[u8]) { self.comma(); self.s.push_str(&format!("[\"{}\",0,{:?},[]]", t, b)); }
    pub fn leaf(&mut self, t: &str, n: i64, b: &[u32]) { self.comma(); self.s.push_str(&format!("[\"{}\",{},{:?},[]]", t, n, b)); }
    pub fn raw(&mut self, s: &str) { self.comma(); self.s.push_str(s); }
}
pub trait Dump { fn dump(&self, o: &mut Out); }
pub trait ToI { fn i(&self) -> i64; }
pub trait Ln { fn ln(&self) -> i64; }
macro_rules! prims { ($t:literal: $($p:ty),*) => { $(
    impl Dump for $p { fn dump(&self, o: &mut Out) { o.prim($t, &self.to_be_bytes()); } }
    impl ToI for $p { fn i(&self) -> i64 { *self as i64 } }
)* } }
prims!("u": u8, u16, u32, u64, u128);
prims!("i": i8, i16, i32, i64, i128);
prims!("f": f32, f64);
impl Dump for char { fn dump(&self, o: &mut Out) { o.prim("ch", &[*self as u32 as u8]); if *self as u32 > 255 { o.raw("\"wide char\""); } } }
impl ToI for char { fn i(&self) -> i64 { *self as u32 as i64 } }
impl Dump for () { fn dump(&self, o: &mut Out) { o.leaf("unit", 0, &[]); } }
impl<T> Dump for core::marker::PhantomData<T> { fn dump(&self, o: &mut Out) { o.leaf("unit", 0, &[]); } }
impl<T: Dump> Dump for [T] { fn dump(&self, o: &mut Out) { o.open("l", 0); for x in self { x.dump(o); } o.close(); } }
// Vec<NonZero..> are strings to the model, all other vectors lists
pub trait El: Sized { fn dv(v: &[Self], o: &mut Out); }
impl<T: Dump> El for T { fn dv(v: &[T], o: &mut Out) { v.dump(o) } }
impl El for core::num::NonZeroU8 { fn dv(v: &[Self], o: &mut Out) { let b: Vec<u32> = v.iter().map(|x| x.get() as u32).collect(); o.leaf("nstr", 0, &b) } }
impl El for core::num::NonZeroU16 { fn dv(v: &[Self], o: &mut Out) { let b: Vec<u32> = v.iter().map(|x| x.get() as u32).collect(); o.leaf("wstr", 0, &b) } }
impl<T: El> Dump for Vec<T> { fn dump(&self, o: &mut Out) { T::dv(self, o) } }
impl<T: Dump, const N: usize> Dump for [T; N] { fn dump(&self, o: &mut Out) { self[..].dump(o) } }
impl<T: Dump> Dump for Option<T> { fn dump(&self, o: &mut Out) { match self { Some(x) => { o.open("some", 0); x.dump(o); o.close(); } None => o.leaf("none", 0, &[]) } } }
impl<T: Dump> Dump for Box<T> { fn dump(&self, o: &mut Out) { (**self).dump(o) } }
impl<T: Dump> Dump for binread::PosValue<T> { fn dump(&self, o: &mut Out) { o.open("pos", rel(self.pos) as i64); self.val.dump(o); o.close(); } }
impl<P: binread::file_ptr::IntoSeekFrom + Dump, T: binread::BinRead + Dump> Dump for binread::FilePtr<P, T> {
    fn dump(&self, o: &mut Out) { o.open("ptr", 0); self.ptr.dump(o); match &self.value { Some(v) => v.dump(o), None => o.leaf("none", 0, &[]) } o.close(); }
}
impl Dump for binread::NullString { fn dump(&self, o: &mut Out) { let b: Vec<u32> = self.0.iter().map(|x| *x as u32).collect(); o.leaf("nstr", 0, &b) } }
impl Dump for binread::NullWideString { fn dump(&self, o: &mut Out) { let b: Vec<u32> = self.0.iter().map(|x| *x as u32).collect(); o.leaf("wstr", 0, &b) } }
impl<T: binread::BinRead + Dump, P: binread::BinRead + Dump> Dump for binread::punctuated::Punctuated<T, P> {
    fn dump(&self, o: &mut Out) { o.open("punct", 0); (**self).dump(o); self.seperators.dump(o); o.close(); }
}
macro_rules! tupd { ($($n:ident $i:tt),*) => { impl<$($n: Dump),*> Dump for ($($n,)*) { fn dump(&self, o: &mut Out) { o.open("l", 0); $(self.$i.dump(o);)* o.close(); } } } }
tupd!(A 0); tupd!(A 0, B 1); tupd!(A 0, B 1, C 2); tupd!(A 0, B 1, C 2, D 3); tupd!(A 0, B 1, C 2, D 3, E 4);
tupd!(A 0, B 1, C 2, D 3, E 4, F 5); tupd!(A 0, B 1, C 2, D 3, E 4, F 5, G 6); tupd!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30);
tupd!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13, T14 14, T15 15, T16 16, T17 17, T18 18, T19 19, T20 20, T21 21, T22 22, T23 23, T24 24, T25 25, T26 26, T27 27, T28 28, T29 29, T30 30, T31 31);

impl<T: ToI> ToI for Option<T> { fn i(&self) -> i64 { self.as_ref().map_or(-1, |x| x.i()) } }
impl<T: ToI> ToI for Box<T> { fn i(&self) -> i64 { (**self).i() } }
impl<T: ToI> ToI for binread::PosValue<T> { fn i(&self) -> i64 { self.val.i() } }
impl<P: binread::file_ptr::IntoSeekFrom, T: binread::BinRead + ToI> ToI for binread::FilePtr<P, T> { fn i(&self) -> i64 { (**self).i() } }
impl<T> Ln for Vec<T> { fn ln(&self) -> i64 { self.len() as i64 } }
impl<T, const N: usize> Ln for [T; N] { fn ln(&self) -> i64 { N as i64 } }
impl Ln for binread::NullString { fn ln(&self) -> i64 { self.len() as i64 } }
impl Ln for binread::NullWideString { fn ln(&self) -> i64 { self.len() as i64 } }
impl<P: binread::file_ptr::IntoSeekFrom, T: binread::BinRead + Ln> Ln for binread::FilePtr<P, T> { fn ln(&self) -> i64 { (**self).ln() } }
impl<T: binread::BinRead, P: binread::BinRead> Ln for binread::punctuated::Punctuated<T, P> { fn ln(&self) -> i64 { self.len() as i64 } }

// ---------------------------------------------------------------- errors
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn dyn_dump(a: &(dyn core::any::Any + Send + Sync)) -> String {
    let mut o = Out { s: String::new(), first: true };
    macro_rules! tryt { ($($t:ty),*) => { $( if let Some(x) = a.downcast_ref::<$t>() { x.dump(&mut o); return o.s; } )* } }
    tryt!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, char,
          [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8]);
    "\"?\"".into()
}
fn iokind(e: &binread::io::Error) -> String {
    use binread::io::ErrorKind::*;
    #[cfg(not(feature = "nostd"))]
    if unsafe { BADK } > 0 && e.kind() == badkind() && e.to_string() == "bad" { return "bad".into(); }
    let k = match e.kind() { UnexpectedEof => "eof", ConnectionReset => "bad", InvalidInput => "inval", PermissionDenied => "seek", InvalidData => "custom", BrokenPipe => "died", Interrupted => "interrupted", _ => "other" };
    #[cfg(not(feature = "nostd"))]
    { let m = e.to_string(); if matches!(k, "bad" | "inval" | "seek" | "custom" | "died") && m != k { return format!("{}!{}", k, m); } }
    k.into()
}
// [t, n, s, [b], [c]]
fn edump(e: &binread::Error) -> String {
    use binread::Error::*;
    match e {
        Io(e) => format!("[\"io\",0,{},[],[]]", js(&iokind(e))),
        BadMagic { pos, found } => format!("[\"magic\",{},\"\",[],[{}]]", rel(*pos), dyn_dump(&**found)),
        AssertFail { pos, message } => format!("[\"assert\",{},{},[],[]]", rel(*pos), js(message)),
        Custom { pos, err } => match err.downcast_ref::<E1>() {
            Some(x) => format!("[\"custom\",{},\"\",[{}],[]]", rel(*pos), x.0),
            None => match err.downcast_ref::<binread::io::Error>() {
                Some(x) => format!("[\"custom\",{},{},[],[]]", rel(*pos), js(&format!("io {}", iokind(x)))),
                None => format!("[\"custom\",{},\"?\",[],[]]", rel(*pos)),
            },
        },
        NoVariantMatch { pos } => format!("[\"novar\",{},\"\",[],[]]", rel(*pos)),
        EnumErrors { pos, variant_errors } => {
            let v: Vec<String> = variant_errors.iter().map(|(n, e)| format!("[\"named\",0,{},[],[{}]]", js(n), edump(e))).collect();
            format!("[\"enum\",{},\"\",[],[{}]]", rel(*pos), v.join(","))
        }
        _ => "[\"unknown\",0,\"\",[],[]]".into(),
    }
}

pub fn call<T: Dump>(r: &mut Rdr, o: &mut Out, f: impl FnOnce(&mut Rdr) -> binread::BinResult<T>) {
    let before = r.failed;
    let res = f(r);
    let n = r.failed - before;
    r.ff.push(n);
    // also exercise Debug/Display of errors: they must not panic either
    if let Err(e) = &res { let _ = format!("{:?} {}", e, e); }
    let pos = r.pos;
    match res {
        Ok(v) => { let mut d = Out { s: String::new(), first: true }; v.dump(&mut d); o.raw(&format!("[1,{},{}]", d.s, pos)); }
        Err(e) => o.raw(&format!("[0,{},{}]", edump(&e), pos)),
    }
}

// what the debug template says
#[cfg(feature = "dbg")]
static TPL: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
#[cfg(feature = "dbg")]
struct Tw;
#[cfg(feature = "dbg")]
impl Write for Tw {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { TPL.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[cfg(feature = "dbg")]
fn tpl() -> String { if std::env::var("BR_TPL").is_err() { return String::new(); } format!(",\"tpl\":{}", js(&String::from_utf8_lossy(&TPL.lock().unwrap()))) }
#[cfg(not(feature = "dbg"))]
fn tpl() -> String { String::new() }

// line: id case pos bad slim chunks(a.b.c|-) intr(a.b|-) hex
fn nums(s: &str) -> Vec<u64> { if s == "-" { vec![] } else { s.split('.').map(|x| x.parse().unwrap()).collect() } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    #[cfg(feature = "dbg")]
    if std::env::var("BR_TEMPLATE").is_ok() { binread::binary_template::set_output(std::io::sink()); }
    if let Ok(b) = std::env::var("BR_BASE") { unsafe { BASE = b.parse().unwrap(); } }
    if let Ok(b) = std::env::var("BR_BADK") { unsafe { BADK = b.parse().unwrap(); } }
    let mut w = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        if p.len() < 8 { continue; }
        let case: usize = p[1].parse().unwrap();
        let data: Vec<u8> = if p[7] == "-" { vec![] } else { (0..p[7].len() / 2).map(|i| u8::from_str_radix(&p[7][2 * i..2 * i + 2], 16).unwrap()).collect() };
        let mut r = Rdr { data, pos: p[2].parse().unwrap(), seen: p[2].parse().unwrap(), bad: p[3].parse().unwrap(), slim: p[4].parse().unwrap(),
            chunk: nums(p[5]).into_iter().map(|x| x as usize).collect(), turn: 0, intr: nums(p[6]), ops: 0,
            die: if p.len() > 9 { p[8].parse().unwrap() } else { 0 }, dead: p.len() > 9 && p[9] == "dead", failed: 0, ff: vec![] };
        EV.with(|e| e.borrow_mut().clear());
        unsafe { BIGGEST = 0; }
        let mut o = Out { s: String::new(), first: true };
        #[cfg(feature = "dbg")]
        if std::env::var("BR_TPL").is_ok() {
            binread::binary_template::set_output(Tw);
            TPL.lock().unwrap().clear();
        }
        // so that a crash of the whole process can be attributed
        write!(w, "{} ", p[0]).unwrap();
        w.flush().unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| { gen::dispatch(case, &mut r, &mut o); }));
        let evs = EV.with(|e| e.borrow().join(","));
        match res {
            Ok(()) => writeln!(w, "{{\"r\":[{}],\"ev\":[{}],\"ops\":{},\"ff\":{:?},\"big\":{}{}}}", o.s, evs, r.ops, r.ff, unsafe { BIGGEST }, tpl()).unwrap(),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(w, "{{\"panic\":{},\"r\":[{}],\"ev\":[{}]}}", js(&m), o.s, evs).unwrap()
            }
        }
    }
    w.flush().unwrap();
}
