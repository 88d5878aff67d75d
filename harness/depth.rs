// types that contain themselves: as deep as the data says
#![allow(dead_code)]
use binread::{BinRead, BinReaderExt, FilePtr8, FilePtr32, io::Cursor};
// a list: each node says whether another follows
#[derive(BinRead)]
struct List { more: u8, #[br(if(more != 0))] next: Option<Box<List>> }
// an expression: 0 = leaf, else two operands
#[derive(BinRead)]
enum Expr { #[br(magic = 0u8)] Leaf, #[br(magic = 1u8)] Neg(Box<Expr>), #[br(magic = 2u8)] Add(Box<Expr>, Box<Expr>) }
// a chain of pointers
#[derive(BinRead)]
struct Node { more: u8, #[br(if(more != 0))] next: Option<FilePtr8<Box<Node>>> }
#[derive(BinRead)]
#[br(big)]
struct Far { more: u8, #[br(if(more != 0))] next: Option<FilePtr32<Box<Far>>> }
#[derive(BinRead)]
struct Now { more: u8, #[br(if(more != 0), deref_now)] next: Option<FilePtr8<Box<Now>>> }
fn res<T>(r: binread::BinResult<T>, depth: impl Fn(&T) -> usize) -> String {
    match r { Ok(v) => { let d = depth(&v); std::mem::forget(v); format!("ok {}", d) }, Err(_) => "err".into() }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[2].parse().unwrap();
    let mut d = vec![1u8; n]; d.push(0);
    let far = |k: usize| { let mut v = vec![1u8]; v.extend_from_slice(&(5 * k as u32).to_be_bytes()); v };
    let s = match a[1].as_str() {
        "list" => res(Cursor::new(&d).read_le::<List>(), |mut l| { let mut k = 0; while let Some(x) = &l.next { k += 1; l = x } k }),
        "expr" => res(Cursor::new(&d).read_le::<Expr>(), |mut l| { let mut k = 0; while let Expr::Neg(x) = l { k += 1; l = x } k }),
        "adds" => { let mut e = vec![2u8; n]; e.extend(vec![0; n + 1]); res(Cursor::new(&e).read_le::<Expr>(), |mut l| { let mut k = 0; while let Expr::Add(x, _) = l { k += 1; l = x } k }) }
        "chain" => { let mut e = vec![]; for i in 0..n { e.extend(far(i + 1)) } e.push(0);
                     res(Cursor::new(&e).read_le::<Far>(), |mut l| { let mut k = 0; while let Some(x) = &l.next { k += 1; l = x.value.as_ref().unwrap() } k }) }
        // pointers that lead back to where they came from
        "self" => res(Cursor::new(&[1u8, 0]).read_le::<Node>(), |_| 0),
        "selfnow" => res(Cursor::new(&[1u8, 0]).read_le::<Now>(), |_| 0),
        "pair" => res(Cursor::new(&[1u8, 2, 1, 0]).read_le::<Node>(), |_| 0),
        _ => panic!(),
    };
    println!("{}", s);
}
