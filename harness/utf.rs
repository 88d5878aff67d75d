// Replays spec/Utf.tla: the units are read as a string and converted in every way there is.
#![allow(warnings)]
use binread::io::Cursor;
use binread::{BinRead, BinReaderExt, NullString, NullWideString};
use core::num::{NonZeroU16, NonZeroU8};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn cps(s: &str) -> String { format!("{:?}", s.chars().map(|c| c as u32).collect::<Vec<_>>()) }
/// [into_string, to_string, Debug is that of into_string, lossless (or null), the units, units by way of From and Deref agree, From<Vec<NonZero..>> agrees]
fn narrow(u: &[u8], at: usize) -> String {
    let mut d = vec![9u8; at]; d.extend(u); d.extend(&[0, 0x41, 0]);
    let mut c = Cursor::new(&d); c.set_position(at as u64);
    let s: NullString = if at % 2 == 0 { c.read_le().unwrap() } else { NullString::read(&mut c).unwrap() };
    assert_eq!(c.position() as usize, at + u.len() + 1);
    let z: NullString = u.iter().map(|x| NonZeroU8::new(*x).unwrap()).collect::<Vec<_>>().into();
    let t = s.clone().into_string();
    let dbg = format!("{:?}", s) == format!("NullString({:?})", t) && format!("{:#?}", s) == format!("NullString({:?})", t);
    let l = match s.clone().into_string_lossless() { Ok(x) => cps(&x), Err(e) => { assert_eq!(e.into_bytes(), u); "null".into() } };
    let same = Vec::<u8>::from(s.clone()) == *s && s.len() == u.len() && s == s.clone();
    format!("[{},{},{},{},{:?},{},{}]", cps(&t), cps(&s.to_string()), dbg, l, s.0, same, z == s)
}
fn wide(u: &[u16], at: usize, big: bool) -> String {
    let mut d = vec![9u8; at];
    for x in u.iter().chain(&[0, 0x41, 0]) { d.extend(&if big { x.to_be_bytes() } else { x.to_le_bytes() }); }
    let mut c = Cursor::new(&d); c.set_position(at as u64);
    let s: NullWideString = if big { c.read_be().unwrap() } else { c.read_le().unwrap() };
    assert_eq!(c.position() as usize, at + 2 * u.len() + 2);
    let z: NullWideString = u.iter().map(|x| NonZeroU16::new(*x).unwrap()).collect::<Vec<_>>().into();
    let t = s.clone().into_string();
    let dbg = format!("{:?}", s) == format!("NullWideString({:?})", t) && format!("{:#?}", s) == format!("NullWideString({:?})", t);
    let l = match s.clone().into_string_lossless() { Ok(x) => cps(&x), Err(_) => "null".into() };
    let same = Vec::<u16>::from(s.clone()) == *s && s.len() == u.len() && s == s.clone();
    format!("[{},{},{},{},{:?},{},{}]", cps(&t), cps(&s.to_string()), dbg, l, s.0, same, z == s)
}

// line: id kind at big units(.)
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        if p.len() < 5 { continue; }
        let u: Vec<u16> = if p[4] == "-" { vec![] } else { p[4].split('.').map(|x| x.parse().unwrap()).collect() };
        let at: usize = p[2].parse().unwrap();
        write!(w, "{} ", p[0]).unwrap();
        match catch_unwind(AssertUnwindSafe(|| if p[1] == "n" { narrow(&u.iter().map(|x| *x as u8).collect::<Vec<_>>(), at) } else { wide(&u, at, p[3] == "1") })) {
            Ok(s) => writeln!(w, "{{\"r\":{}}}", s).unwrap(),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(w, "{{\"panic\":{:?}}}", m).unwrap()
            }
        }
    }
    w.flush().unwrap();
}
