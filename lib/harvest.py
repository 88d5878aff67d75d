"""What the derive macros of the tree under test call things in their expansions.

The specification knows no names, so every declaration must read the same under all of
them; the names worth trying are those that an expansion uses itself.  They are taken
from what the compiler expands, so a renamed internal is tried under its new name."""
from core import *
import re
SAMPLE = '''#![allow(warnings)]
use binread::{BinRead, BinResult, derive_binread, FilePtr, ReadOptions, io::{Read, Seek, SeekFrom}};
fn zpw<ZR: Read + Seek>(za: &mut ZR, zb: &ReadOptions, zc: ()) -> BinResult<u8> { unimplemented!() }
#[derive(BinRead)] #[br(magic = 1u8, import(zi: u8), big, pre_assert(zi != 1), assert(zf != 9, "x {}", zf))]
struct Za { #[br(magic = 2u8, pad_before = 1, pad_after = 1, align_before = 2, align_after = 2, seek_before(SeekFrom::Current(0)), pad_size_to = 4, restore_position, if(zi == 1, 3), assert(zi != 3))] zf: u8,
  #[br(try, args(), count = 3, offset = 1, is_big = zi == 1)] zg: Option<Vec<u8>>, #[br(map = |zx: u8| zx as u16, little)] zh: u16,
  #[br(try_map = |zx: u8| -> Result<u16, u8> { Ok(1) }, is_little = true)] zj: u16, #[br(parse_with = zpw)] zk: u8, #[br(calc = 1)] zl: u8, #[br(default)] zm: u8,
  #[br(deref_now)] zn: FilePtr<u8, u8>, #[br(offset_after = 1, args_tuple = ())] zo: FilePtr<u8, u8>, #[br(assert(zi == 4, 7u8))] zp: char }
#[derive_binread] #[br(import_tuple(zi: (u8,)), little)] enum Zb { #[br(magic = b"a")] Zc { #[br(temp)] zq: u8, zr: u8 }, #[br(magic = b"b", pre_assert(zi.0 == 1))] Zd(u8, u8), Ze }
#[derive(BinRead)] #[br(return_unexpected_error)] enum Zf { Zg(u8), #[br(assert(true))] Zh { zs: u8 } }
#[derive(BinRead)] #[br(repr = u8, magic = 7u16)] enum Zi { #[br(pre_assert(true))] Zj = 1, Zk }
#[derive(BinRead)] enum Zl { #[br(magic = 1u8)] Zm, #[br(magic = 2u8, pre_assert(true))] Zn }
#[derive(BinRead)] #[br(map = |zx: u8| Zo(zx), pre_assert(true))] struct Zo(u8);
#[derive(BinRead)] #[br(try_map = |zx: u8| -> Result<Zq, u8> { Ok(Zq(zx)) })] struct Zq(u8);
#[derive(BinRead)] #[br(magic = 7u16)] struct Zr;
#[derive(BinRead)] struct Zs<Zt: BinRead<Args = ()>> { zu: Zt }
fn main() {}
'''
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union".split())
# the prelude, which the property lets keep its meaning, and binread itself
KEEP = KEYWORDS | set("binread core std alloc Ok Err Some None Option Result Vec String Box Default Clone Copy Fn FnMut FnOnce From Into TryFrom TryInto Iterator IntoIterator Drop Send Sync Sized ToString ToOwned AsRef AsMut Eq PartialEq Ord PartialOrd Debug Extend str usize isize bool char u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 derive prelude_import macro_use rust_2021".split())

def harvest():
    """(lower-case names, other names) in the expansions of SAMPLE that SAMPLE does not contain"""
    names = set()
    for feat in ("default", "dbg"):
        d = os.path.join(BUILD, "harvest_" + feat); build_toml(d, "harvest_" + feat, feat)
        write(os.path.join(d, "src", "main.rs"), SAMPLE)
        tgt = os.path.join(BUILD, "target_" + feat + "_" + repo_hash())
        p = subprocess.run(["cargo", "rustc", "--offline", "-q", "--bin", "h_harvest_" + feat, "--", "-Zunpretty=expanded"], cwd=d, env=dict(cargo_env(), CARGO_TARGET_DIR=tgt, RUSTC_BOOTSTRAP="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode: return [], []     # what does not compile here is found by the checks proper
        text = re.sub(r'"(\\.|[^"\\])*"', " ", p.stdout)
        text = re.sub(r"//.*", " ", text)
        names |= {w for w in re.findall(r"(?<![\w'])[A-Za-z_]\w*", text)}
    names -= set(re.findall(r"\w+", SAMPLE)) | KEEP
    names = {n for n in names if not n.lower().startswith("__binread") and n != "_" and not n[0].isdigit()}
    low = sorted(n for n in names if not n[0].isupper())
    return low, sorted(names - set(low))
