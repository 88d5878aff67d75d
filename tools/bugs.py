"""Planted bugs: what to change, and a program that shows it.  See plant.py."""
RO="binread_derive/src/codegen/read_options.rs"; ST="binread_derive/src/codegen/read_options/struct.rs"
EN="binread_derive/src/codegen/read_options/enum.rs"; IM="binread/src/binread_impls.rs"; LIB="binread/src/lib.rs"
HE="binread/src/helpers.rs"; FP="binread/src/file_ptr.rs"; PU="binread/src/punctuated.rs"; SR="binread/src/strings.rs"
ER="binread/src/error.rs"; PR="binread/src/private.rs"; PV="binread/src/pos_value.rs"
CU="binread/src/io/cursor.rs"; NS="binread/src/io/no_std.rs"; PF="binread_derive/src/parser/field_level_attrs.rs"
USE = "#![allow(dead_code, unused)]\nuse binread::{*, io::{Cursor, Read, Seek, SeekFrom}};\nuse std::cell::{Cell, RefCell};\n"
BUGS = {}
def bug(id, prop, edits, main, needs, what, feat=None, bad=None, nopanic=False):
    BUGS[id] = dict(prop=prop, edits=edits, main=USE + main, needs=needs, what=what, feat=feat, bad=bad and USE + bad, nopanic=nopanic)

bug("c01-enum-error", "C01", [(RO, '''        })().or_else(|error| {
            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
            Err(error)''', '''        })().or_else(|error| {
            // enums have already gone back to their start
            if !matches!(error, #BIN_ERROR::EnumErrors { .. }) {
                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
            }
            Err(error)''')], '''
#[derive(BinRead, Debug)] enum E { #[br(magic = 1u8)] A(u8), #[br(magic = 2u8)] B(u16) }
#[derive(BinRead, Debug)] struct S { a: u16, e: E }
fn main() { let mut r = Cursor::new(b"x\\x00\\x01\\x09\\x09\\x09"); r.set_position(1);
  assert!(r.read_be::<S>().is_err()); assert_eq!(r.position(), 1); }
''', "a data enum nested in another type, behind other fields, none of whose variants match", "the outer type is left at the enum's start instead of its own")

bug("c01-ptr-far", "C01", [(FP, '''        inner.after_parse(reader, ro, args)?;

        self.value = Some(inner);''', '''        if let Err(err) = inner.after_parse(reader, ro, args) {
            // do not report unresolvable targets of targets twice
            return Err(err);
        }

        self.value = Some(inner);'''),
 (RO, '''        })().or_else(|error| {
            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
            Err(error)''', '''        })().or_else(|error| {
            let now = #POS_TRAIT::stream_pos(#READER)?;
            if now > #POS {
                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
            }
            Err(error)''')], '''
#[derive(BinRead, Debug)] #[br(magic = 7u8)] struct T(u8);
#[derive(BinRead, Debug)] struct S { a: u8, p: FilePtr8<T> }
fn main() { let mut r = Cursor::new(b"\\x00\\x00\\x00\\x00\\x09\\x01\\x00"); r.set_position(4);
  assert!(r.read_be::<S>().is_err()); assert_eq!(r.position(), 4); }
''', "an object whose read fails while the reader is before its start (a backward pointer or seek)", "the reader is not put back when it is before the object's start")

bug("c02-posvalue", "C02", [(PV, '''        let pos = reader.stream_pos()?;

        Ok(PosValue {
            pos,
            val: T::read_options(reader, options, args)?,
        })''', '''        let val = T::read_options(reader, options, args)?;
        let end = reader.stream_pos()?;

        Ok(PosValue {
            pos: end - core::mem::size_of::<T>().min(end as usize) as u64,
            val,
        })''')], '''
#[derive(BinRead, Debug)] #[br(magic = b"AB")] struct T(u8);
#[derive(BinRead, Debug)] struct S { a: u16, p: PosValue<T> }
fn main() { let s: S = Cursor::new(b"\\x00\\x00AB\\x09").read_be().unwrap(); assert_eq!(s.p.pos, 2); }
''', "a PosValue of something whose encoded size differs from its size in memory", "PosValue.pos")

bug("c02-array", "C02", [(IM, '''                    for elem in arr.iter_mut() {
                        *elem = BinRead::read_options(reader, options, args)?;
                    }''', '''                    for elem in arr.iter_mut() {
                        *elem = BinRead::read_options(reader, options, args)?;
                        if core::mem::size_of::<B>() == 0 {
                            // all elements are the same
                            break;
                        }
                    }''')], '''
#[derive(BinRead, Debug, Default, Clone, Copy)] #[br(magic = 7u8)] struct T;
#[derive(BinRead, Debug)] struct S { a: [T; 2], b: u8 }
fn main() { let s: S = Cursor::new(b"\\x07\\x07\\x09").read_be().unwrap(); assert_eq!(s.b, 9);
  assert!(Cursor::new(b"\\x07\\x08\\x09").read_be::<S>().is_err()); }
''', "an array of unit structs with a magic", "only the first element is read")

bug("c03-mark", "C03", [(ST, '''        #seek_before
        #pad_before
        #align_before
        #pad_size_to_before''', '''        #seek_before
        #pad_size_to_before
        #pad_before
        #align_before''')], '''
#[derive(BinRead, Debug)] struct S { #[br(pad_before = 1, pad_size_to = 4)] a: u8, b: u8 }
fn main() { let s: S = Cursor::new(b"\\x00\\x01\\x02\\x03\\x04\\x05\\x06").read_be().unwrap(); assert_eq!(s.b, 5); }
''', "pad_size_to together with pad_before or align_before on one field", "the size is counted from before the padding")

bug("c03-if", "C03", [(ST, '''        .wrap_seek()
        .wrap_condition()''', '''        .wrap_condition()
        .wrap_seek()''')], '''
#[derive(BinRead, Debug)] struct S { f: u8, #[br(if(f == 1), pad_before = 2)] a: Option<u8>, b: u8 }
fn main() { let s: S = Cursor::new(b"\\x00\\x01\\x02\\x03\\x04").read_be().unwrap(); assert_eq!(s.b, 1); }
''', "a positioning directive on a field whose if is false", "positions are changed although the field is absent")

bug("c04-field-magic", "C04", [(ST, '''get_magic(&self.field.magic, options_var)''', '''get_magic(&self.field.magic, &OPT)'''),
  (ST, '''    fn prefix_magic(mut self, options_var: &Ident) -> Self {''', '''    fn prefix_magic(mut self, _options_var: &Ident) -> Self {''')], '''
#[derive(BinRead, Debug)] #[br(big)] struct S { #[br(little, magic = 0x1234u16)] a: u16 }
fn main() { let s: S = Cursor::new(b"\\x34\\x12\\x01\\x00").read_be().unwrap(); assert_eq!(s.a, 1); }
''', "a multi-byte magic on a field that has its own byte order", "the magic is read in the type's byte order")

bug("c05-pre", "C05", [(RO, """            #magic
            #(#pre_assertions)*""", """            #(#pre_assertions)*
            #magic""")], '''
#[derive(BinRead, Debug)] #[br(magic = b"AB", import(k: u8), pre_assert(k == 1))] struct S { a: u8 }
fn main() { let mut r = Cursor::new(b"AX\\x09");
  match S::read_args(&mut r, (2,)) { Err(Error::BadMagic { pos, .. }) => assert_eq!(pos, 0), x => panic!("{:?}", x) } }
''', "a magic that does not match and a pre_assert that fails", "pre_asserts are evaluated before the magic is checked")

bug("c06-order", "C06", [(ST, '''get_assertions(&self.st.assertions).chain(extra_assertions)''', '''extra_assertions.chain(get_assertions(&self.st.assertions))''')], '''
#[derive(BinRead, Debug)] #[br(assert(false, "of the enum"), return_all_errors)] enum E { #[br(assert(a == 1, "of the variant"))] A { a: u8 } }
fn main() { match Cursor::new(b"\\x00").read_be::<E>() {
  Err(Error::EnumErrors { variant_errors, .. }) => match &variant_errors[0].1 { Error::AssertFail { message, .. } => assert_eq!(message, "of the variant"), x => panic!("{:?}", x) },
  x => panic!("{:?}", x) } }
''', "an enum with assertions of its own and on a variant, both failing", "the enum's assertions are checked before the variant's")

bug("c06-eager", "C06", [(RO, '''                Some(AssertionError::Message(message)) => {
                    quote! { #ASSERT_ERROR_FN::<_, fn() -> ()>::Message(|| { #message }) }
                }''', '''                Some(AssertionError::Message(message)) => {
                    // evaluate once, so that the closure is 'static
                    quote! {{
                        let message = { #message };
                        #ASSERT_ERROR_FN::<_, fn() -> ()>::Message(move || message.clone())
                    }}
                }''')], '''
thread_local!(static N: Cell<u32> = Cell::new(0));
fn bump() -> u32 { N.with(|n| n.set(n.get() + 1)); 1 }
#[derive(BinRead, Debug)] struct S { #[br(assert(a == 1, "{}", bump()))] a: u8 }
fn main() { Cursor::new(b"\\x01").read_be::<S>().unwrap(); assert_eq!(N.with(|n| n.get()), 0); }
''', "an assertion that holds and whose message has side effects", "messages are evaluated although the assertion holds")

bug("c07-rewind", "C07", [(EN, '''            } else {
                #handle_error
                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
            }''', '''            } else {
                if !matches!(#TEMP, Err(#BIN_ERROR::Io(_))) {
                    #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
                }
                #handle_error
            }''')], '''
#[derive(BinRead, Debug, PartialEq)] enum E { A(u8, u32), B(u16) }
fn main() { assert_eq!(Cursor::new(b"\\x01\\x02\\x03").read_be::<E>().unwrap(), E::B(0x0102)); }
''', "an earlier variant that runs into the end of the input after having read something", "the next variant is tried from where the failed one stopped")

bug("c07-flat", "C07", [(EN, '''                #ERROR_BASKET.push((#name, #TEMP.err().unwrap()));''', '''                match #TEMP.err().unwrap() {
                    // an enum inside: its own errors say more
                    #BIN_ERROR::EnumErrors { variant_errors, .. } => #ERROR_BASKET.extend(variant_errors),
                    error => #ERROR_BASKET.push((#name, error)),
                }''')], '''
#[derive(BinRead, Debug)] enum I { #[br(magic = 1u8)] P(u8), #[br(magic = 2u8)] Q(u8) }
#[derive(BinRead, Debug)] enum E { A(I), B(u32) }
fn main() { match Cursor::new(b"\\x09\\x02").read_be::<E>() { Err(Error::EnumErrors { variant_errors, .. }) =>
  assert_eq!(variant_errors.iter().map(|x| x.0).collect::<Vec<_>>(), ["A", "B"]), x => panic!("{:?}", x) } }
''', "an enum one of whose variants holds an enum of which no variant matches", "variants are missing from the error")

bug("c09-count", "C09", [(IM, '''        let mut options = *options;
        let count = match options.count.take() {''', '''        let mut options = *options;
        let count = match options.count {''')], '''
#[derive(BinRead, Debug)] struct S { #[br(count = 1)] a: Vec<Vec<u8>> }
fn main() { assert!(std::panic::catch_unwind(|| Cursor::new(b"\\x01\\x02").read_be::<S>().is_ok()).is_err()); panic_ok() } fn panic_ok() {}
''', "a Vec inside a Vec", "the inner one silently reuses the count")

bug("c09-sep", "C09", [(PU, '''            if i + 1 != count {
                seperators.push(P::read_options(reader, options, ())?);
            }''', '''            if i + 1 != count {
                match P::read_options(reader, options, ()) {
                    Ok(seperator) => seperators.push(seperator),
                    Err(Error::Io(err)) => return Err(err.into()),
                    // the list ends where it is not continued
                    Err(_) => break,
                }
            }'''), (PU, '''use crate::{BinRead, BinResult, ReadOptions};''', '''use crate::{BinRead, BinResult, Error, ReadOptions};''')], '''
use binread::punctuated::Punctuated;
#[derive(BinRead, Debug)] #[br(magic = 2u8)] struct Sep;
#[derive(BinRead)] struct S { #[br(count = 3, parse_with = Punctuated::separated)] a: Punctuated<u8, Sep> }
fn main() { assert!(Cursor::new(b"\\x01\\x02\\x01\\x03\\x01").read_be::<S>().is_err()); }
''', "a separator that cannot be parsed", "fewer elements than requested are returned")

bug("c10-io", "C10", [(HE, '''    while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {''',
 '''    while !matches!(&last, Err(crate::Error::Io(err)) if matches!(err.kind(), UnexpectedEof | InvalidInput)) {'''),
 (HE, '''    io::{ErrorKind::UnexpectedEof, Read, Seek},''', '''    io::{ErrorKind::{InvalidInput, UnexpectedEof}, Read, Seek},''')], '''
#[derive(BinRead, Debug)] struct El { a: u8, #[br(seek_before = SeekFrom::Current(-9))] b: u8 }
#[derive(BinRead, Debug)] struct S { #[br(parse_with = until_eof)] a: Vec<El> }
fn main() { assert!(Cursor::new(b"\\x01\\x02\\x03").read_be::<S>().is_err()); }
''', "an element that fails with an I/O error that is not the end of the input", "until_eof returns Ok")

bug("c11-low", "C11", [(SR, '''            if val == 0 {''', '''            if val as u8 == 0 {''')], '''
fn main() { let s: NullWideString = Cursor::new(b"\\x01\\x00\\x00\\x41\\x00\\x00").read_be().unwrap(); assert_eq!(s.0, [0x100, 0x41]); }
''', "a unit whose low byte is zero", "the string ends there")

bug("c12-nested", "C12", [(FP, '''        inner.after_parse(reader, ro, args)?;

        self.value''', '''        // what is pointed to has pointers of its own, from the start of the file
        let ro = &ReadOptions { offset: 0, ..*ro };
        inner.after_parse(reader, ro, args)?;

        self.value''')], '''
#[derive(BinRead, Debug)] struct S { #[br(offset = 2)] a: FilePtr8<FilePtr8<u8>> }
fn main() { let s: S = Cursor::new(b"\\x00\\x07\\x01\\x08\\x09").read_be().unwrap(); assert_eq!(**s.a, 8); }
''', "a pointer to a pointer with an offset", "the inner pointer is resolved from the wrong base")

bug("c12-before", "C12", [(FP, '''        let before = reader.stream_pos()?;
        reader.seek(SeekFrom::Start(relative_to))?;''', '''        let before = if relative_to == 0 {
            reader.stream_pos()?
        } else {
            reader.seek(SeekFrom::Start(relative_to))?
        };
        reader.seek(SeekFrom::Start(relative_to))?;''')], '''
#[derive(BinRead, Debug)] struct S { #[br(offset = 2, deref_now)] a: FilePtr8<u8>, b: u8 }
fn main() { let s: S = Cursor::new(b"\\x01\\x07\\x03\\x04\\x05").read_be().unwrap(); assert_eq!((*s.a, s.b), (4, 7)); }
''', "a pointer that is resolved at once and has an offset", "the following field is read from the wrong place")

bug("c13-tuple", "C13", [(IM, '''                $type1.after_parse(reader, options, ())?;
                $(
                    $types.after_parse(reader, options, ())?;
                )*
''', '''                $(
                    $types.after_parse(reader, options, ())?;
                )*
                $type1.after_parse(reader, options, ())?;
''')], '''
thread_local!(static L: RefCell<Vec<u8>> = RefCell::new(vec![]));
struct Spy(u8);
impl BinRead for Spy { type Args = (); fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> { Ok(Spy(u8::read_options(r, o, ())?)) }
 fn after_parse<R: Read + Seek>(&mut self, _: &mut R, _: &ReadOptions, _: ()) -> BinResult<()> { L.with(|l| l.borrow_mut().push(self.0)); Ok(()) } }
#[derive(BinRead)] struct S(  (Spy, Spy, Spy) );
fn main() { Cursor::new(b"\\x01\\x02\\x03").read_be::<S>().unwrap(); L.with(|l| assert_eq!(*l.borrow(), [1, 2, 3])); }
''', "a tuple of values that are post-processed, observed in order", "the first element is post-processed last")

bug("c13-twice", "C13", [(ST, '''    fn deref_now(mut self, options_var: &Ident, args_var: &Ident) -> Self {
        if self.field.should_use_after_parse() {
            return self;
        }
''', '''    fn deref_now(mut self, options_var: &Ident, args_var: &Ident) -> Self {
        // assertions look at the value right after it has been read
        if self.field.should_use_after_parse() && self.field.assertions.is_empty() {
            return self;
        }
''')], '''
thread_local!(static L: RefCell<Vec<u8>> = RefCell::new(vec![]));
struct Spy(u8);
impl BinRead for Spy { type Args = (); fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> { Ok(Spy(u8::read_options(r, o, ())?)) }
 fn after_parse<R: Read + Seek>(&mut self, _: &mut R, _: &ReadOptions, _: ()) -> BinResult<()> { L.with(|l| l.borrow_mut().push(self.0)); Ok(()) } }
#[derive(BinRead)] struct S { #[br(assert(a.0 == 1))] a: Spy, b: u8 }
fn main() { Cursor::new(b"\\x01\\x02\\x03").read_be::<S>().unwrap(); L.with(|l| assert_eq!(*l.borrow(), [1])); }
''', "a post-processed field with an assertion", "it is post-processed twice, the first time too early")

bug("c14-swallow", "C14", [(PR, '''        value.after_parse(reader, ro, args)?;
    }

    Ok(())''', '''        if value.after_parse(reader, ro, args).is_err() {
            *item = None;
        }
    }

    Ok(())''')], '''
#[derive(BinRead, Debug)] struct S { #[br(try)] a: Option<FilePtr8<u32>>, b: u8 }
fn main() { assert!(Cursor::new(b"\\x09\\x01").read_be::<S>().is_err()); }
''', "a try field whose deferred pointer cannot be resolved", "the failure is swallowed")

bug("c15-eager", "C15", [(ST, '''            self.out = quote! {
                if #condition {
                    #consequent
                } else {
                    #alternate
                }
            };''', '''            self.out = quote! {{
                let alternate = #alternate;
                if #condition {
                    #consequent
                } else {
                    alternate
                }
            }};''')], '''
thread_local!(static N: Cell<u32> = Cell::new(0));
fn bump() -> u8 { N.with(|n| n.set(n.get() + 1)); 1 }
#[derive(BinRead, Debug)] struct S { #[br(if(true, bump()))] a: u8 }
fn main() { Cursor::new(b"\\x01").read_be::<S>().unwrap(); assert_eq!(N.with(|n| n.get()), 0); }
''', "a true condition whose alternate has side effects", "the alternate is evaluated although it is not needed")

bug("c17-arr", "C17", [(IM, '''                    let mut arr: [B; $size] = Default::default();''', '''                    let options = &ReadOptions {
                        endian: options.endian,
                        count: options.count,
                        ..Default::default()
                    };
                    let mut arr: [B; $size] = Default::default();''')], '''
#[derive(Default)] struct Spy(u64);
impl BinRead for Spy { type Args = (); fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> { u8::read_options(r, o, ())?; Ok(Spy(o.offset)) } }
#[derive(BinRead)] struct S { #[br(offset = 5)] a: [Spy; 2] }
fn main() { let s: S = Cursor::new(b"\\x01\\x02\\x03").read_be().unwrap(); assert_eq!(s.a[1].0, 5); }
''', "array elements that look at the offset they are read with", "the field's offset does not reach the elements of an array")

bug("c18-intr", "C18", [(IM, '''                    reader.read_exact(&mut val).or_else(|e| {
                        reader.seek(SeekFrom::Start(pos))?;
                        Err(e)
                    })?;''', '''                    // most readers deliver everything at once
                    let n = match reader.read(&mut val) {
                        Ok(n) => n,
                        Err(e) => {
                            reader.seek(SeekFrom::Start(pos))?;
                            return Err(e.into());
                        }
                    };
                    reader.read_exact(&mut val[n..]).or_else(|e| {
                        reader.seek(SeekFrom::Start(pos))?;
                        Err(e)
                    })?;''')], '''
struct I(Cursor<Vec<u8>>, bool);
impl Read for I { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.1 = !self.1; if self.1 { return Err(std::io::ErrorKind::Interrupted.into()) } self.0.read(b) } }
impl Seek for I { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() { assert_eq!(I(Cursor::new(vec![1, 2]), false).read_be::<u16>().unwrap(), 0x102); }
''', "a reader that is interrupted in the first call", "the interruption is reported as an error")

bug("c18-str", "C18", [(SR, '''        for byte in reader.bytes() {
            match NonZeroU8::new(byte?) {
                Some(byte) => values.push(byte),
                None => return Ok(values),
            }
        }
''', '''        let mut byte = [0u8];
        while let Ok(1) = reader.read(&mut byte) {
            match NonZeroU8::new(byte[0]) {
                Some(byte) => values.push(byte),
                None => return Ok(values),
            }
        }
''')], '''
struct I(Cursor<Vec<u8>>, u8);
impl Read for I { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.1 += 1; if self.1 == 2 { return Err(std::io::ErrorKind::Interrupted.into()) } self.0.read(b) } }
impl Seek for I { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() { assert_eq!(I(Cursor::new(vec![65, 66, 0]), 0).read_be::<NullString>().unwrap().0, [65, 66]); }
''', "a string from a reader that is interrupted or fails", "interruptions and errors end the string")

bug("c19-cg", "C19", [(IM, '''        let arr = array_init::try_array_init(|_| BinRead::read_options(reader, options, args))?;''',
 '''        let options = &ReadOptions {
            count: None,
            ..*options
        };
        let arr = array_init::try_array_init(|_| BinRead::read_options(reader, options, args))?;''')], '''
#[derive(BinRead, Debug)] struct S { #[br(count = 2)] a: [Vec<u8>; 2] }
fn main() { let s: S = Cursor::new(b"\\x01\\x02\\x03\\x04").read_be().unwrap(); assert_eq!(s.a, [[1, 2], [3, 4]]); }
''', "const_generics and an array of vectors", "the count does not reach the elements with const_generics", 'features = ["const_generics"]')

bug("c21-args", "C21", [(LIB, '''        let mut res = T::read_options(self, &options, args.clone())?;
        res.after_parse(self, &options, args)?;''', '''        let mut res = T::read_options(self, &options, args.clone())?;
        res.after_parse(self, &ReadOptions::default(), args)?;''')], '''
fn main() { let p = Cursor::new(b"\\x00\\x00\\x00\\x05\\x00\\x07").read_be_args::<FilePtr32<u16>>(()); assert!(p.is_err());
  let p = Cursor::new(b"\\x00\\x00\\x00\\x04\\x00\\x07").read_be_args::<FilePtr32<u16>>(()).unwrap(); assert_eq!(*p, 7); }
''', "a top-level pointer read with one of the _args methods in a byte order that is not the host's", "the target is read in the host's byte order")

bug("c23-cap", "C23", [(IM, '''        (0..count)
            .map(|_| B::read_options(reader, &options, args))
            .collect()''', '''        let mut values = Vec::with_capacity(count);
        for _ in 0..count {
            values.push(B::read_options(reader, &options, args)?);
        }
        Ok(values)''')], '''
#[derive(BinRead, Debug)] struct S { n: u64, #[br(count = n)] a: Vec<u64> }
fn main() { assert!(Cursor::new(b"\\x7f\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\x00").read_be::<S>().is_err()); }
''', "a huge count in the input", "panics on capacity overflow or aborts on allocation")

bug("c08-order", "C08", [(EN, '''let matches = variants.iter().filter_map(|field| {''', '''let (guarded, plain): (Vec<_>, Vec<_>) = variants
        .iter()
        .partition(|field| field.pre_assertions.len() == 1);
    let matches = guarded.into_iter().chain(plain).filter_map(|field| {''')], '''
#[derive(BinRead, Debug, PartialEq)] #[br(import(a: u8))] enum E { #[br(magic = 1u8)] X, #[br(magic = 1u8, pre_assert(a == 1))] Y, #[br(magic = 2u8)] Z }
fn main() { let mut r = Cursor::new(b"\\x01"); assert_eq!(E::read_options(&mut r, &Default::default(), (1,)).unwrap(), E::X); }
''', "two variants of a unit-like enum with the same magic, the later one with a pre_assert that holds", "the later variant is chosen")

bug("c10-cap", "C10", [(HE, '''        while !cond(&last) {
            result.push(last);
            last = read_element(reader, ro, args.clone())?;
        }

        result.push(last);''', '''        while !cond(&last) && result.len() < 0xffff {
            result.push(last);
            last = read_element(reader, ro, args.clone())?;
        }

        result.push(last);''')], '''
#[derive(BinRead, Debug)] struct S { #[br(parse_with = until(|&x: &u8| x == 0))] a: Vec<u8>, b: u8 }
fn main() { let mut d = vec![1u8; 70000]; d.push(0); d.push(9); let s: S = Cursor::new(d).read_be().unwrap(); assert_eq!((s.a.len(), s.b), (70001, 9)); }
''', "more than 65535 elements before the terminator", "until stops before its terminator")

bug("c16-off", "C16", [(RO, '''#READ_METHOD(#READER, #OPT, #ARGS).map(#map)''', '''#READ_METHOD(#READER, &{ let mut #TEMP = *#OPT; #TEMP.offset = 0; #TEMP }, #ARGS).map(#map)''')], '''
#[derive(BinRead, Debug)] struct P { p: FilePtr<u8, u8> }
#[derive(BinRead, Debug)] #[br(map = |p: P| M(*p.p))] struct M(u8);
#[derive(BinRead, Debug)] struct S { #[br(offset = 1)] m: M }
fn main() { let s: S = Cursor::new(b"\\x01\\x07\\x09").read_be().unwrap(); assert_eq!(s.m.0, 9); }
''', "an offset in force around a type with a type-level map over a file pointer", "the source is read without the offset")

bug("c20-wide", "C20", [(CU, '''slice.len() as u64 - self.pos, buf.len() as u64);''', '''slice.len() as u64 - self.pos, buf.len() as u16 as u64);''')], '''
fn main() { let mut c = Cursor::new(vec![7u8; 70000]); let mut b = vec![0u8; 65536]; c.read_exact(&mut b).unwrap(); assert!(b.iter().all(|&x| x == 7)); }
''', "one read of exactly 65536 bytes from the no_std Cursor", "the length is truncated and the read ends early", feat="default-features = false")

bug("c20-intr", "C20", [(NS, '''                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }''', '''                Err(ref e) if e.kind() == ErrorKind::Interrupted => {
                    if self.read(&mut buf[..1])? == 1 {
                        buf = &mut buf[1..];
                    }
                }
                Err(e) => return Err(e),
            }
        }''')], '''
struct D(u8); impl Read for D { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.0 < 2 { self.0 += 1; Err(io::Error::new(io::ErrorKind::Interrupted, ())) } else { b.fill(1); Ok(b.len()) } } }
fn main() { assert!(D(0).read_exact(&mut [0; 2]).is_ok()); }
''', "two interruptions in a row during read_exact without std", "the second one fails the read", feat="default-features = false")

bug("c20-bytes", "C20", [(NS, '''                Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(e) => Some(Err(e)),''', '''                Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(ref e) if e.kind() == ErrorKind::UnexpectedEof => None,
                Err(e) => Some(Err(e)),''')], '''
struct D; impl Read for D { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::UnexpectedEof, ())) } }
fn main() { assert!(D.bytes().next().is_some()); }
''', "an underlying reader that itself reports UnexpectedEof, without std", "bytes() ends quietly instead of reporting the error", feat="default-features = false")

DEV = '''
struct Dev { d: Cursor<Vec<u8>>, n: usize, at: usize, dead: bool }
impl Dev { fn op(&mut self) -> std::io::Result<()> { self.n += 1; if self.n == self.at || self.dead && self.n > self.at { return Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "gone")); } Ok(()) } }
impl Read for Dev { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.op()?; self.d.read(b) } }
impl Seek for Dev { fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> { self.op()?; self.d.seek(s) } }
fn dev(b: &[u8], at: usize, dead: bool) -> Dev { Dev { d: Cursor::new(b.to_vec()), n: 0, at, dead } }
'''
bug("c25-enum", "C25", [(EN, '''                #handle_error
                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;''', '''                #handle_error
                // the error of the variant is the one worth reporting
                let _ = #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS));''')], DEV + '''
#[derive(BinRead, Debug)] enum E { #[br(magic = 1u8)] A(u8), B(u8, u8) }
fn main() { let b = b"\\x02\\x03\\x04\\x05";
  let n = { let mut r = dev(b, 0, false); r.read_be::<E>().unwrap(); r.n };
  for at in 1..=n { let mut r = dev(b, at, false); match r.read_be::<E>() { Ok(E::B(2, 3)) => {}, Ok(x) => panic!("operation {}: {:?}", at, x), Err(_) => {} } } }
''', "an enum whose first variant fails, on a device whose seek fails just when the enum goes back to try the next one", "the next variant is read from wherever the failed one stopped")

bug("c25-ptr", "C25", [(FP, '''        self.value = Some(inner);

        reader.seek(SeekFrom::Start(before))?;
        Ok(())''', '''        self.value = Some(inner);

        reader.seek(SeekFrom::Start(before)).map(drop).or_else(|_| Ok(()))''')], DEV + '''
#[derive(BinRead, Debug)] struct S { #[br(deref_now)] p: FilePtr8<u8>, b: u8 }
fn main() { let b = b"\\x03\\x07\\x08\\x09\\x0a";
  let n = { let mut r = dev(b, 0, false); r.read_be::<S>().unwrap(); r.n };
  for at in 1..=n { let mut r = dev(b, at, false); if let Ok(s) = r.read_be::<S>() { assert_eq!(s.b, 7, "operation {}", at); } } }
''', "a pointer read on a device whose seek fails when the reader returns from the target", "what follows the pointer is read from behind the target")

bug("c25-restore", "C25", [(RO, '''        })().or_else(|error| {
            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
            Err(error)''', '''        })().or_else(|error| {
            // a reader that cannot seek any more has nothing to restore
            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS)).ok();
            Err(error)''')], DEV + '''
#[derive(BinRead, Debug)] #[br(magic = 7u8)] struct S(u8);
fn main() { let mut at = 1; loop { let mut r = dev(b"\\x01\\x02\\x03", at, false); r.d.set_position(0);
  let e = r.read_be::<S>().unwrap_err();
  if r.n < at { break; }
  if let Error::BadMagic { .. } = e { assert_eq!(r.d.position(), 0, "operation {}", at); }
  at += 1; } assert!(at > 2); }
''', "an object that does not parse, on a device whose seek fails when the reader is put back to the object's start", "the failure to go back is hidden behind the parse error, so callers go on at the wrong place")

# ---- directives that are accepted although they contradict each other
TY = "binread_derive/src/parser/types/"; TL = "binread_derive/src/parser/top_level_attrs.rs"; SA = "binread_derive/src/codegen/sanitization.rs"; BT = "binread/src/binary_template.rs"
bug("c22-repr", "C22", [(TL, "(self.repr.as_ref(), field.magic.as_ref())", "(self.repr.as_ref(), field.magic.as_ref().filter(|_| self.fields.is_empty()))")],
 """#[derive(BinRead)] #[br(repr = u8)] enum E { A, B } fn main() {}
""", "repr on an enum of which only a later variant has a magic", "the magic is accepted and ignored",
 bad="""#[derive(BinRead)] #[br(repr = u8)] enum E { A, #[br(magic = 7u8)] B } fn main() {}
""")
bug("c22-endian", "C22", [(TY + "cond_endian.rs", "        if matches!(*to, CondEndian::Inherited) {", "        if !matches!(*to, CondEndian::Fixed(_)) {")],
 """#[derive(BinRead)] struct S { a: u8, #[br(is_big = a == 1)] b: u16 } fn main() {}
""", "a condition on the byte order followed by another byte order", "the second one wins",
 bad="""#[derive(BinRead)] struct S { a: u8, #[br(is_big = a == 1, big)] b: u16 } fn main() {}
""")
bug("c22-import", "C22", [(TY + "imports.rs", "        if matches!(*to, Imports::None) {", "        if to.idents().is_none() {")],
 """#[derive(BinRead)] #[br(import(a: u8))] struct S { #[br(calc = a)] b: u8 } fn main() {}
""", "an empty import followed by another one", "two imports are accepted",
 bad="""#[derive(BinRead)] #[br(import(), import(a: u8))] struct S { #[br(calc = a)] b: u8 } fn main() {}
""")
bug("c22-deref", "C22", [(PF, "(&self.offset_after, *self.deref_now)", "(&self.offset_after, *self.deref_now && !self.restore_position)")],
 """#[derive(BinRead)] struct S { #[br(deref_now, restore_position)] a: FilePtr<u8, u8> } fn main() {}
""", "deref_now and offset_after on a field that also has restore_position", "the offset is accepted and ignored",
 bad="""#[derive(BinRead)] struct S { #[br(deref_now, offset_after = 1, restore_position)] a: FilePtr<u8, u8> } fn main() {}
""")
# ---- what the debug template says
bug("c24-vec", "C24", [(BT, """    write_vec_named(endian, pos, type_name, count, &format!("var{}", var_num))""", """    write_vec_named(endian, pos, type_name, count.min(0xffff), &format!("var{}", var_num))""")],
 """fn main() { let d = std::env::temp_dir().join(format!("c24-vec-{}", std::process::id())); binary_template::set_output_file(&d).unwrap();
  let mut o = ReadOptions::default(); o.count = Some(70000); let v = Vec::<u8>::read_options(&mut Cursor::new(vec![1u8; 70000]), &o, ()).unwrap(); assert_eq!(v.len(), 70000);
  binary_template::unset_output(); let t = std::fs::read_to_string(&d).unwrap(); let _ = std::fs::remove_file(&d); assert!(t.contains("[70000]"), "{}", t); }
""", "a vector without a name and with more than 65535 elements", "the template gives it 65535", feat='features = ["debug_template"]')
bug("c24-named", "C24", [(IM, "                    binary_template::write_vec_named(options.endian, pos, type_name, count, name);", "                    if count > 0 { binary_template::write_vec_named(options.endian, pos, type_name, count, name); }")],
 """#[derive(BinRead)] struct S { #[br(count = 0)] v: Vec<u8>, b: u8 }
fn main() { let d = std::env::temp_dir().join(format!("c24-named-{}", std::process::id())); binary_template::set_output_file(&d).unwrap();
  let s: S = Cursor::new([1u8]).read_be().unwrap();
  binary_template::unset_output(); let t = std::fs::read_to_string(&d).unwrap(); let _ = std::fs::remove_file(&d); assert!(t.contains("u8 v[0]"), "{}", t); }
""", "a vector field of no elements", "it is missing in the template", feat='features = ["debug_template"]')
bug("c24-endian", "C24", [(BT, """    match endian {
        Endian::Big => writeln!(*file, "BigEndian();"),
        Endian::Little => writeln!(*file, "LittleEndian();"),
        _ => writeln!(*file),
    };

    let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;

    writeln!(*file, "FSeek(0x{:X});", pos);
    writeln!(
        *file,
        "{} {}[{}]""", """    match endian {
        Endian::Big => writeln!(*file, "BigEndian();"),
        _ => writeln!(*file, "LittleEndian();"),
    };

    let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;

    writeln!(*file, "FSeek(0x{:X});", pos as u32);
    writeln!(
        *file,
        "{} {}[{}]""")],
 """fn main() { let d = std::env::temp_dir().join(format!("c24-endian-{}", std::process::id())); binary_template::set_output_file(&d).unwrap();
  struct Far(u64); impl Read for Far { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { b.fill(1); self.0 += b.len() as u64; Ok(b.len()) } }
  impl Seek for Far { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { match p { SeekFrom::Start(x) => self.0 = x, SeekFrom::Current(x) => self.0 = (self.0 as i64 + x) as u64, _ => panic!() } Ok(self.0) } }
  let mut o = ReadOptions::default(); o.count = Some(2); Vec::<u8>::read_options(&mut Far(0x1_0000_0004), &o, ()).unwrap();
  binary_template::unset_output(); let t = std::fs::read_to_string(&d).unwrap(); let _ = std::fs::remove_file(&d); assert!(t.contains("FSeek(0x100000004)"), "{}", t); }
""", "a vector beyond the first 4 GiB", "the template gives the low half of its position", feat='features = ["debug_template"]')
# ---- names and grouping
bug("c26-saved", "C26", [(SA, '"__binread_generated_saved_position"', '"saved_pos"')],
 """#[derive(BinRead, Debug)] struct S { saved_pos: u64, #[br(restore_position)] a: u8, #[br(calc = saved_pos)] b: u64 }
fn main() { let s: S = Cursor::new([0u8, 0, 0, 0, 0, 0, 0, 7, 1]).read_be().unwrap(); assert_eq!(s.b, 7); }
""", "a field called saved_pos before one that restores the position", "the macro's variable takes the field's place", nopanic=True)
bug("c26-pre", "C26", [(EN, "quote! { #magic if true #(&& (#pre_assertions))* }", "quote! { #magic if #(#pre_assertions)&&* }")],
 """#[derive(BinRead, Debug, PartialEq)] #[br(import(a: bool, b: bool, c: bool))] enum E { #[br(magic = 1u8, pre_assert(a || b), pre_assert(c))] A, #[br(magic = 2u8)] B }
fn main() { let r: BinResult<E> = Cursor::new([1u8]).read_be_args((true, false, false)); assert!(r.is_err()); assert!(Cursor::new([1u8]).read_be_args::<E>((true, false, true)).is_ok()); }
""", "several pre_asserts on a magic variant, of which one is a disjunction", "the operators regroup across the conditions")
bug("c26-where", "C26", [("binread_derive/src/codegen/mod.rs", "let (impl_generics, ty_generics, where_clause) = derive_input.generics.split_for_impl();", "let (impl_generics, ty_generics, where_clause) = derive_input.generics.split_for_impl();\n    let where_clause = where_clause.filter(|w| derive_input.generics.params.len() > 1 || w.predicates.len() < 2);")],
 """#[derive(BinRead, Debug)] struct S<T> where T: BinRead<Args = ()>, T: Copy { a: T, b: u8 }
fn main() { let s: S<u16> = Cursor::new([0u8, 7, 1]).read_be().unwrap(); assert_eq!(s.a, 7); }
""", "one type parameter with two predicates in the where clause", "the bounds are lost", nopanic=True)
# ---- collections and pointers
bug("c12-many", "C12", [(IM, """        for val in self.iter_mut() {
            val.after_parse(reader, ro, args)?;
        }

        Ok(())
    }
}

#[cfg(not""", """        for val in self.iter_mut().take(u8::MAX as usize) {
            val.after_parse(reader, ro, args)?;
        }

        Ok(())
    }
}

#[cfg(not""")],
 """#[derive(BinRead)] struct S { #[br(count = 300)] v: Vec<FilePtr<u8, u8>> }
fn main() { let s: S = Cursor::new(vec![3u8; 300]).read_be().unwrap(); assert!(s.v.iter().all(|p| **p == 3)); }
""", "a vector of more than 255 file pointers", "the later ones are never resolved")
bug("c13-offa", "C13", [(ST, """                    let mut #TEMP = *#options_var;
                    #TEMP.offset = #offset;""", """                    let mut #TEMP = *#OPT;
                    #TEMP.offset = #offset;""")],
 """#[derive(BinRead)] struct S { #[br(offset_after = 1, count = 2)] p: FilePtr<u8, Vec<u8>> }
fn main() { let s: S = Cursor::new([0u8, 3, 4]).read_be().unwrap(); assert_eq!(*s.p, vec![3, 4]); }
""", "offset_after together with a count or a byte order on the field", "post-processing gets the options of the type instead of the field's")
bug("c09-wide", "C09", [(RO, "#TEMP.count = Some((#count) as usize);", "#TEMP.count = Some((#count) as u32 as usize);")],
 """#[derive(BinRead)] struct S { n: u64, #[br(count = n)] v: Vec<u8> }
fn main() { let r: BinResult<S> = Cursor::new([0u8, 0, 0, 1, 0, 0, 0, 1, 7, 8]).read_be(); assert!(r.is_err()); }
""", "a 64-bit count whose upper half is not zero", "only the lower half counts")
bug("c02-pos", "C02", [(PV, "let pos = reader.stream_pos()?;", "let pos = reader.stream_pos()?.saturating_sub(options.offset);")],
 """#[derive(BinRead)] struct S { a: u8, #[br(offset = 1)] p: PosValue<u8> }
fn main() { let s: S = Cursor::new([0u8, 3]).read_be().unwrap(); assert_eq!(s.p.pos, 1); }
""", "a PosValue read with an offset in force", "the position is counted from the offset")
bug("c11-bom", "C11", [(SR, "            values.push(unsafe { NonZeroU16::new_unchecked(val) });", "            if val != 0xFEFF || !values.is_empty() { values.push(unsafe { NonZeroU16::new_unchecked(val) }); }")],
 """fn main() { let s: NullWideString = Cursor::new([0xFEu8, 0xFF, 0, 0x41, 0, 0]).read_be().unwrap(); assert_eq!(s.to_string(), "\\u{feff}A"); }
""", "a wide string that starts with U+FEFF", "its first unit is dropped")
bug("c06-long", "C06", [(PR, "                message: error_fn().into(),", "                message: { let mut m: String = error_fn().into(); while m.len() > 100 { m.pop(); } m },")],
 """#[derive(BinRead, Debug)] struct S { #[br(assert(a == 1, "{}", "x".repeat(200)))] a: u8 }
fn main() { match Cursor::new([0u8]).read_be::<S>() { Err(e) => assert!(format!("{}", e).len() >= 200 || format!("{:?}", e).len() >= 200), _ => panic!() } }
""", "a message of more than a hundred bytes", "its end is cut off")
