#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case, unused_macros, unused_parens, unused_braces)]
#![feature(const_destruct, const_trait_impl)]
use vstd::prelude::*;

// ---------------------------------------------------------------------------------------------
// Stand-ins for the libraries /repo uses.  A body marked external_body, an `axiom`, or a trait
// method without a body is an ASSUMED contract on that library (listed in the evidence);
// everything else in here is verified like the rest.
// ---------------------------------------------------------------------------------------------

/// formatting arguments are evaluated (so that a panic in one is noticed), the text is dropped
#[macro_export]
macro_rules! vx_args {
    () => {};
    ($f:expr) => {};
    ($f:expr,) => {};
    ($f:expr, $($a:expr),+ $(,)?) => { $( let _ = &$a; )+ };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr) => { if !($c) { return Err(crate::vx::anyhow::Error::raised()); } };
    ($c:expr, $($t:tt)*) => { if !($c) { crate::vx_args!($($t)*); return Err(crate::vx::anyhow::Error::raised()); } };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { { crate::vx_args!($($t)*); return Err(crate::vx::anyhow::Error::raised()); } };
}
#[macro_export]
macro_rules! anyhow {
    ($($t:tt)*) => { { crate::vx_args!($($t)*); crate::vx::anyhow::Error::raised() } };
}
#[macro_export]
macro_rules! format_err {
    ($($t:tt)*) => { { crate::vx_args!($($t)*); crate::vx::anyhow::Error::raised() } };
}
#[macro_export]
macro_rules! vx_assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { assert!(($a) == ($b)) }; }
#[macro_export]
macro_rules! vx_assert_ne { ($a:expr, $b:expr $(, $($t:tt)*)?) => { assert!(($a) != ($b)) }; }
#[macro_export]
macro_rules! vx_assert_slices { ($a:expr, $b:expr $(, $($t:tt)*)?) => { crate::vx::stdx::vx_slices_equal($a, $b) }; }
#[macro_export]
macro_rules! assert_ge { ($a:expr, $b:expr $(, $($t:tt)*)?) => { assert!(($a) >= ($b)) }; }
#[macro_export]
macro_rules! assert_le { ($a:expr, $b:expr $(, $($t:tt)*)?) => { assert!(($a) <= ($b)) }; }
#[macro_export]
macro_rules! assert_lt { ($a:expr, $b:expr $(, $($t:tt)*)?) => { assert!(($a) < ($b)) }; }
#[macro_export]
macro_rules! assert_gt { ($a:expr, $b:expr $(, $($t:tt)*)?) => { assert!(($a) > ($b)) }; }

pub mod vx {
    pub mod prelude {
        pub use crate::vx::bits::*;
        pub use crate::vx::seqs::*;
        pub use crate::vx::stdx::*;
        pub use crate::vx::iter::*;
        pub use crate::{ensure, bail, anyhow, format_err, vx_assert_slices, vx_assert_eq, vx_assert_ne, assert_ge, assert_le, assert_lt, assert_gt};
    }

    // ------------------------------------------------------------------ std::io
    pub mod io {
        use vstd::prelude::*;
        verus! {
        #[derive(Debug)]
        pub struct Error { pub eof: bool, pub k: u8 }
        /// the kinds the code tells apart
        #[derive(Structural, PartialEq, Eq, Clone, Copy)]
        pub enum ErrorKind { UnexpectedEof, Other }
        impl Error {
            pub fn kind(&self) -> (r: ErrorKind)
                ensures r == ErrorKind::UnexpectedEof <==> self.eof
            { if self.eof { ErrorKind::UnexpectedEof } else { ErrorKind::Other } }
        }
        pub type Result<T> = core::result::Result<T, Error>;

        /// std::io::Read.  rest() is what the stream still holds, faulty() whether it may fail for a
        /// reason other than its end, did_read() the relation between state, buffer and result
        /// of one call (left open for an arbitrary reader).
        pub trait Read: Sized {
            spec fn rest(&self) -> Seq<u8>;
            spec fn faulty(&self) -> bool;
            spec fn did_read(pre: Self, b: Seq<u8>, post: Self, b2: Seq<u8>, r: Result<usize>) -> bool;

            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
                ensures
                    final(buf)@.len() == old(buf)@.len(),
                    final(self).faulty() == old(self).faulty(),
                    Self::did_read(*old(self), old(buf)@, *final(self), final(buf)@, r),
                    r matches Ok(n) ==> {
                        &&& n <= final(buf)@.len()
                        &&& n <= old(self).rest().len()
                        &&& final(buf)@.take(n as int) == old(self).rest().take(n as int)
                        &&& final(self).rest() == old(self).rest().skip(n as int)
                    },
                    r is Err ==> old(self).faulty() && final(self).rest() == old(self).rest(),
            ;
        }

        /// std::io::Read::take (a provided method of Read)
        pub struct Take<R: Read> { pub inner: R, pub left: u64 }
        impl<R: Read> Read for Take<R> {
            open spec fn rest(&self) -> Seq<u8> { if self.left < self.inner.rest().len() { self.inner.rest().take(self.left as int) } else { self.inner.rest() } }
            open spec fn faulty(&self) -> bool { self.inner.faulty() }
            uninterp spec fn did_read(pre: Self, b: Seq<u8>, post: Self, b2: Seq<u8>, r: Result<usize>) -> bool;
            #[verifier::external_body]
            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        }
        pub trait ReadTake: Read {
            fn take(self, n: u64) -> (r: Take<Self>)
                ensures r.inner == self, r.left == n;
        }
        impl<R: Read> ReadTake for R {
            fn take(self, n: u64) -> (r: Take<Self>) { Take { inner: self, left: n } }
        }

        /// std::io::Read::read_exact (a provided method of Read)
        pub trait ReadExact: Read {
            fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
                ensures
                    final(buf)@.len() == old(buf)@.len(),
                    final(self).faulty() == old(self).faulty(),
                    r is Ok ==> {
                        let n = old(buf)@.len() as int;
                        &&& n <= old(self).rest().len()
                        &&& final(buf)@ == old(self).rest().take(n)
                        &&& final(self).rest() == old(self).rest().skip(n)
                    },
                    r is Err ==> old(self).faulty() || old(self).rest().len() < old(buf)@.len(),
                    r matches Err(e) ==> old(self).faulty() || e.eof,
                    final(self).rest().len() <= old(self).rest().len(),
            ;
        }
        impl<R: Read> ReadExact for R {
            #[verifier::external_body]
            fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
        }

        /// std::io::Write.  written() is everything handed over so far.
        pub trait Write: Sized {
            spec fn written(&self) -> Seq<u8>;
            spec fn faulty(&self) -> bool;
            spec fn did_write(pre: Self, b: Seq<u8>, post: Self, r: Result<usize>) -> bool;
            spec fn did_flush(pre: Self, post: Self, r: Result<()>) -> bool;

            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
                ensures
                    final(self).faulty() == old(self).faulty(),
                    Self::did_write(*old(self), buf@, *final(self), r),
                    r matches Ok(n) ==> {
                        &&& n <= buf@.len()
                        &&& final(self).written() == old(self).written() + buf@.take(n as int)
                    },
                    r is Err ==> old(self).faulty() && final(self).written() == old(self).written(),
            ;

            fn flush(&mut self) -> (r: Result<()>)
                ensures
                    final(self).faulty() == old(self).faulty(),
                    Self::did_flush(*old(self), *final(self), r),
                    final(self).written() == old(self).written(),
                    r is Err ==> old(self).faulty(),
            ;
        }

        /// std::io::Write::write_all (a provided method of Write)
        pub trait WriteAll: Write {
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
                ensures
                    final(self).faulty() == old(self).faulty(),
                    r is Ok ==> final(self).written() == old(self).written() + buf@,
                    r is Err ==> old(self).faulty() && old(self).written().is_prefix_of(final(self).written())
                        && final(self).written().is_prefix_of(old(self).written() + buf@),
            ;
        }
        impl<W: Write> WriteAll for W {
            #[verifier::external_body]
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
        }

        /// std::io::Cursor over bytes: reading it never fails
        #[verifier::external_body]
        pub struct Cursor<'a> { d: &'a [u8] }
        impl<'a> Cursor<'a> {
            #[verifier::external_body]
            pub fn new(d: &'a Vec<u8>) -> (r: Cursor<'a>)
                ensures r.rest() == d@, !r.faulty()
            { unimplemented!() }
        }
        impl<'a> Read for Cursor<'a> {
            uninterp spec fn rest(&self) -> Seq<u8>;
            uninterp spec fn faulty(&self) -> bool;
            open spec fn did_read(pre: Self, b: Seq<u8>, post: Self, b2: Seq<u8>, r: Result<usize>) -> bool { true }
            #[verifier::external_body]
            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        }

        /// std::io::Stdout, passed in as a parameter (R-param) so that what is written can be spoken of
        #[verifier::external_body]
        pub struct Stdout { x: u8 }
        impl Stdout {
            pub fn lock<'a>(self: &'a mut Stdout) -> (r: &'a mut Stdout)
                ensures *r == *old(self), *final(self) == *final(r)
            { self }
        }
        impl Write for Stdout {
            uninterp spec fn written(&self) -> Seq<u8>;
            uninterp spec fn faulty(&self) -> bool;
            open spec fn did_write(pre: Self, b: Seq<u8>, post: Self, r: Result<usize>) -> bool { true }
            open spec fn did_flush(pre: Self, post: Self, r: Result<()>) -> bool { true }
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
        }
        /// what is printed with println!, passed in as a parameter (R-param): text, and values the way the formatting
        /// machinery shows them, which is uninterpreted (`shown`)
        #[verifier::external_body]
        pub struct Printed { x: u8 }
        pub enum Val { Num(int), Chr(char), Flag(bool), Text(Seq<char>), Bits(Seq<bool>) }
        pub trait Show { spec fn val(&self) -> Val; }
        impl Show for u8 { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for u16 { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for u32 { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for u64 { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for usize { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for i8 { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for i16 { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for i32 { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for i64 { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for isize { open spec fn val(&self) -> Val { Val::Num(*self as int) } }
        impl Show for char { open spec fn val(&self) -> Val { Val::Chr(*self) } }
        impl Show for bool { open spec fn val(&self) -> Val { Val::Flag(*self) } }
        impl Show for str { open spec fn val(&self) -> Val { Val::Text(self@) } }
        impl<T: Show + ?Sized> Show for &T { open spec fn val(&self) -> Val { (**self).val() } }
        /// the way a number, a character or a flag is shown, and text or bits in any format but the plain one
        pub uninterp spec fn shown_by_std(format: Seq<char>, v: Val) -> Seq<char>;
        pub open spec fn shown(format: Seq<char>, v: Val) -> Seq<char> {
            match v {
                Val::Text(t) => if format == ""@ { t } else { shown_by_std(format, v) },
                Val::Chr(c) => if format == ""@ { seq![c] } else { shown_by_std(format, v) },
                Val::Bits(b) => if format == "?"@ { bits_shown(b) } else { shown_by_std(format, v) },
                _ => shown_by_std(format, v),
            }
        }
        pub axiom fn axiom_digits()
            ensures
                shown_by_std(""@, Val::Num(0)) == "0"@, shown_by_std(""@, Val::Num(1)) == "1"@;
        pub proof fn lemma_digits()
            ensures "0"@ == seq!['0'], "1"@ == seq!['1']
        {
            reveal_strlit("0"); reveal_strlit("1");
            assert("0"@ =~= seq!['0']); assert("1"@ =~= seq!['1']);
        }
        /// what `{:?}` makes of a BitVec: its length, and a digit for each bit (proved of its Debug impl in bit)
        pub open spec fn bits_shown(b: Seq<bool>) -> Seq<char> {
            "BitVec: "@ + shown_by_std(""@, Val::Num(b.len() as int)) + ": "@ + digits(b)
        }
        pub open spec fn digits(b: Seq<bool>) -> Seq<char>
            decreases b.len()
        {
            if b.len() == 0 { Seq::empty() } else { digits(b.drop_last()) + (if b.last() { "1"@ } else { "0"@ }) }
        }
        impl Printed {
            pub uninterp spec fn text(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn put(&mut self, t: &'static str)
                ensures final(self).text() == old(self).text() + t@
            { unimplemented!() }
            #[verifier::external_body]
            pub fn show<T: Show>(&mut self, format: &'static str, v: &T)
                ensures final(self).text() == old(self).text() + shown(format@, v.val())
            { unimplemented!() }
        }
        /// std::io::BufReader around a reader
        pub struct BufReader<R: Read> { pub inner: R }
        impl<R: Read> BufReader<R> {
            pub fn new(inner: R) -> (r: BufReader<R>)
                ensures r.inner == inner
            { BufReader { inner } }
            pub fn with_capacity(n: usize, inner: R) -> (r: BufReader<R>)
                ensures r.inner == inner
            { BufReader { inner } }
        }

        impl<R: Read> Read for BufReader<R> {
            open spec fn rest(&self) -> Seq<u8> { self.inner.rest() }
            open spec fn faulty(&self) -> bool { self.inner.faulty() }
            open spec fn did_read(pre: Self, b: Seq<u8>, post: Self, b2: Seq<u8>, r: Result<usize>) -> bool { true }
            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { self.inner.read(buf) }
        }
        /// Box<dyn Read>: a reader of which nothing but the trait is known
        #[verifier::external_body]
        pub struct AnyRead { x: u8 }
        impl Read for AnyRead {
            uninterp spec fn rest(&self) -> Seq<u8>;
            uninterp spec fn faulty(&self) -> bool;
            uninterp spec fn did_read(pre: Self, b: Seq<u8>, post: Self, b2: Seq<u8>, r: Result<usize>) -> bool;
            #[verifier::external_body]
            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn any<R: Read>(inner: R) -> (r: AnyRead)
            ensures r.rest() == inner.rest(), r.faulty() == inner.faulty()
        { unimplemented!() }
        /// standard input
        #[verifier::external_body]
        pub struct Stdin { x: u8 }
        pub uninterp spec fn stdin_bytes() -> Seq<u8>;
        pub uninterp spec fn stdin_faulty() -> bool;
        #[verifier::external_body]
        pub fn stdin() -> (r: Stdin)
            ensures r.rest() == stdin_bytes(), r.faulty() == stdin_faulty()
        { unimplemented!() }
        impl Stdin {
            pub fn lock(self) -> (r: Stdin)
                ensures r == self
            { self }
        }
        impl Read for Stdin {
            uninterp spec fn rest(&self) -> Seq<u8>;
            uninterp spec fn faulty(&self) -> bool;
            uninterp spec fn did_read(pre: Self, b: Seq<u8>, post: Self, b2: Seq<u8>, r: Result<usize>) -> bool;
            #[verifier::external_body]
            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        }
        impl Write for Vec<u8> {
            open spec fn written(&self) -> Seq<u8> { self@ }
            open spec fn faulty(&self) -> bool { false }
            open spec fn did_write(pre: Self, b: Seq<u8>, post: Self, r: Result<usize>) -> bool { true }
            open spec fn did_flush(pre: Self, post: Self, r: Result<()>) -> bool { true }
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
        }
        } // verus!
    }

    /// files: what a path's file holds, and whether it can be opened and read
    pub mod fs {
        use vstd::prelude::*;
        use super::io::{Read, Result};
        verus! {
        #[verifier::external_body]
        pub struct PathBuf { x: u8 }
        pub trait AsPath { spec fn path(&self) -> PathBuf; }
        impl AsPath for PathBuf { open spec fn path(&self) -> PathBuf { *self } }
        impl<T: AsPath> AsPath for &T { open spec fn path(&self) -> PathBuf { (**self).path() } }
        pub uninterp spec fn file_bytes(p: PathBuf) -> Seq<u8>;
        pub uninterp spec fn readable(p: PathBuf) -> bool;
        #[verifier::external_body]
        pub struct File { x: u8 }
        impl File {
            #[verifier::external_body]
            pub fn open<P: AsPath>(p: P) -> (r: Result<File>)
                ensures
                    r matches Ok(f) ==> f.rest() == file_bytes(p.path()) && f.faulty() == !readable(p.path()),
                    readable(p.path()) ==> r is Ok,
            { unimplemented!() }
        }
        impl Read for File {
            uninterp spec fn rest(&self) -> Seq<u8>;
            uninterp spec fn faulty(&self) -> bool;
            uninterp spec fn did_read(pre: Self, b: Seq<u8>, post: Self, b2: Seq<u8>, r: Result<usize>) -> bool;
            #[verifier::external_body]
            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        }
        } // verus!
    }

    /// std::fmt: what a formatter has taken so far (`text`), whether it may refuse text (`faulty`), and whether it has
    /// taken all that the write! under way gave it (`ok`); R-print turns write! into begin, put, show and status
    pub mod fmt {
        use vstd::prelude::*;
        use super::io::{Show, Val, shown};
        verus! {
        pub struct Error;
        pub type Result = core::result::Result<(), Error>;
        #[verifier::external_body]
        pub struct Formatter<'a> { x: &'a u8 }
        impl<'a> Formatter<'a> {
            pub uninterp spec fn text(&self) -> Seq<char>;
            pub uninterp spec fn faulty(&self) -> bool;
            pub uninterp spec fn ok(&self) -> bool;
            pub open spec fn takes(pre: Self, t: Seq<char>, post: Self) -> bool {
                &&& post.faulty() == pre.faulty()
                &&& post.ok() ==> pre.ok() && post.text() == pre.text() + t
                &&& pre.ok() && !pre.faulty() ==> post.ok()
            }
            #[verifier::external_body]
            pub fn begin(&mut self)
                ensures final(self).ok(), final(self).text() == old(self).text(), final(self).faulty() == old(self).faulty()
            { unimplemented!() }
            #[verifier::external_body]
            pub fn put(&mut self, t: &'static str)
                ensures Self::takes(*old(self), t@, *final(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn show<T: Show + ?Sized>(&mut self, format: &'static str, v: &T)
                ensures Self::takes(*old(self), shown(format@, v.val()), *final(self))
            { unimplemented!() }
            #[verifier::external_body]
            pub fn status(&mut self) -> (r: Result)
                ensures *final(self) == *old(self), r is Ok == old(self).ok()
            { unimplemented!() }
            pub fn write_str(&mut self, t: &str) -> (r: Result)
                ensures
                    final(self).faulty() == old(self).faulty(), !old(self).faulty() ==> r is Ok,
                    r is Ok ==> final(self).text() == old(self).text() + t@,
            { self.begin(); self.show("", t); self.status() }
            pub fn write_char(&mut self, c: char) -> (r: Result)
                ensures
                    final(self).faulty() == old(self).faulty(), !old(self).faulty() ==> r is Ok,
                    r is Ok ==> final(self).text() == old(self).text() + seq![c],
            { self.begin(); self.show("", &c); self.status() }
        }
        } // verus!
    }
    // ------------------------------------------------------------------ byteorder
    pub mod byteorder {
        use vstd::prelude::*;
        use crate::vx::io::{Read, ReadExact, Write, WriteAll, Result};
        use crate::vx::bits::*;
        verus! {
        /// byteorder::ByteOrder for 16-bit numbers
        pub trait ByteOrder: Sized {
            spec fn u16_of(b: Seq<u8>) -> u16;
            fn read_u16(b: &[u8]) -> (r: u16)
                requires b@.len() == 2,
                ensures r == Self::u16_of(b@);
            fn write_u16(n: u16) -> (r: [u8; 2])
                ensures r@.len() == 2, Self::u16_of(r@) == n;
            spec fn u32_of(b: Seq<u8>) -> int;
            fn write_u32(n: u32) -> (r: [u8; 4])
                ensures r@.len() == 4, Self::u32_of(r@) == n;
        }
        pub struct LittleEndian;
        pub type LE = LittleEndian;
        impl ByteOrder for LittleEndian {
            open spec fn u16_of(b: Seq<u8>) -> u16 { le16(b[0], b[1]) as u16 }
            fn read_u16(b: &[u8]) -> (r: u16) { b[0] as u16 + 256 * b[1] as u16 }
            fn write_u16(n: u16) -> (r: [u8; 2]) { [(n % 256) as u8, (n / 256) as u8] }
            open spec fn u32_of(b: Seq<u8>) -> int { b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3] }
            fn write_u32(n: u32) -> (r: [u8; 4]) { [(n % 256) as u8, (n / 256 % 256) as u8, (n / 65536 % 256) as u8, (n / 16777216) as u8] }
        }
        pub trait ReadBytesExt: Read {
            fn read_u8(&mut self) -> (r: Result<u8>)
                ensures
                    final(self).faulty() == old(self).faulty(),
                    r matches Ok(b) ==> old(self).rest().len() >= 1 && b == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                    r matches Err(e) ==> old(self).faulty() || (e.eof && old(self).rest().len() < 1),
            ;
            fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16>)
                ensures
                    final(self).faulty() == old(self).faulty(),
                    r matches Ok(n) ==> old(self).rest().len() >= 2 && n == T::u16_of(old(self).rest().take(2)) && final(self).rest() == old(self).rest().skip(2),
                    r matches Err(e) ==> old(self).faulty() || (e.eof && old(self).rest().len() < 2),
            ;
        }
        impl<R: Read> ReadBytesExt for R {
            fn read_u8(&mut self) -> (r: Result<u8>) {
                let mut b = [0u8; 1];
                self.read_exact(&mut b)?;
                Ok(b[0])
            }
            fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16>) {
                let mut b = [0u8; 2];
                self.read_exact(&mut b)?;
                Ok(T::read_u16(&b))
            }
        }
        pub trait WriteBytesExt: Write {
            fn write_u8(&mut self, n: u8) -> (r: Result<()>)
                ensures
                    final(self).faulty() == old(self).faulty(),
                    r is Ok ==> final(self).written() == old(self).written() + seq![n],
                    r is Err ==> old(self).faulty(),
            ;
            fn write_u16<T: ByteOrder>(&mut self, n: u16) -> (r: Result<()>)
                ensures
                    final(self).faulty() == old(self).faulty(),
                    r is Ok ==> exists|b: Seq<u8>| b.len() == 2 && T::u16_of(b) == n && final(self).written() == #[trigger] (old(self).written() + b),
                    r is Err ==> old(self).faulty(),
            ;
            fn write_u32<T: ByteOrder>(&mut self, n: u32) -> (r: Result<()>)
                ensures
                    final(self).faulty() == old(self).faulty(),
                    r is Ok ==> exists|b: Seq<u8>| b.len() == 4 && T::u32_of(b) == n && final(self).written() == #[trigger] (old(self).written() + b),
                    r is Err ==> old(self).faulty(),
            ;
        }
        impl<W: Write> WriteBytesExt for W {
            fn write_u8(&mut self, n: u8) -> (r: Result<()>) {
                let b = [n];
                let r = self.write_all(&b);
                proof { assert(b@ =~= seq![n]); }
                r
            }
            fn write_u16<T: ByteOrder>(&mut self, n: u16) -> (r: Result<()>) {
                let b = T::write_u16(n);
                self.write_all(&b)
            }
            fn write_u32<T: ByteOrder>(&mut self, n: u32) -> (r: Result<()>) {
                let b = T::write_u32(n);
                self.write_all(&b)
            }
        }
        } // verus!
    }

    // ------------------------------------------------------------------ anyhow
    pub mod anyhow {
        use vstd::prelude::*;
        verus! {
        #[derive(Debug)]
        pub struct Error { pub k: u8 }
        pub type Result<T> = core::result::Result<T, Error>;
        impl Error {
            pub fn raised() -> Error { Error { k: 0 } }
        }
        impl vstd::std_specs::convert::FromSpecImpl<crate::vx::io::Error> for Error {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(e: crate::vx::io::Error) -> Error { Error { k: 1 } }
        }
        impl From<crate::vx::io::Error> for Error {
            fn from(e: crate::vx::io::Error) -> Error { Error { k: 1 } }
        }
        /// anyhow::Context: success is untouched, the context closure only runs (and is only
        /// required to be callable) to decorate an error
        pub trait Context<T>: Sized {
            spec fn inner(&self) -> Option<T>;
            fn with_context<F: FnOnce() -> Error>(self, f: F) -> (r: core::result::Result<T, Error>)
                requires f.requires(()),
                ensures r is Ok <==> self.inner() is Some, r matches Ok(v) ==> self.inner() == Some(v);
        }
        impl<T> Context<T> for core::result::Result<T, crate::vx::io::Error> {
            open spec fn inner(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } }
            fn with_context<F: FnOnce() -> Error>(self, f: F) -> (r: core::result::Result<T, Error>) {
                match self { Ok(v) => Ok(v), Err(_) => Err(f()) }
            }
        }
        impl<T> Context<T> for core::result::Result<T, Error> {
            open spec fn inner(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } }
            fn with_context<F: FnOnce() -> Error>(self, f: F) -> (r: core::result::Result<T, Error>) {
                match self { Ok(v) => Ok(v), Err(_) => Err(f()) }
            }
        }
        } // verus!
    }

    // ------------------------------------------------------------------ std pieces vstd lacks
    pub mod stdx {
        use vstd::prelude::*;
        use vstd::std_specs::cmp::*;
        verus! {
        /// slice::to_vec clones every element
        pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
            ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(s@[i], #[trigger] r@[i]);

        #[verifier::allow(undeclared_external_trait)]
        pub assume_specification<T> [core::cmp::min] (a: T, b: T) -> (r: T)
            where T: core::cmp::Ord + core::marker::Destruct,
            ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a });
        #[verifier::allow(undeclared_external_trait)]
        pub assume_specification<T> [core::cmp::max] (a: T, b: T) -> (r: T)
            where T: core::cmp::Ord + core::marker::Destruct,
            ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b });

        /// assert_eq! of two slices: reaching it with different ones is a failed obligation
        pub fn vx_slices_equal<T: Structural>(a: &[T], b: &[T])
            requires a@ == b@,
        {}
        /// Vec::into_boxed_slice
        pub trait BoxSlice<T>: Sized {
            spec fn all_of(&self) -> Seq<T>;
            fn vx_into_boxed_slice(self) -> (r: Box<[T]>)
                ensures r@ == self.all_of();
        }
        impl<T> BoxSlice<T> for Vec<T> {
            open spec fn all_of(&self) -> Seq<T> { self@ }
            #[verifier::external_body]
            fn vx_into_boxed_slice(self) -> (r: Box<[T]>) { self.into_boxed_slice() }
        }
        /// Option::filter
        pub trait OptExt<T>: Sized {
            spec fn opt(self) -> Option<T>;
            fn vx_filter<P: FnOnce(&T) -> bool>(self, p: P) -> (r: Option<T>)
                requires self.opt() matches Some(x) ==> p.requires((&x,)),
                ensures
                    self.opt() is None ==> r is None,
                    self.opt() matches Some(x) ==> (r == Some(x) && p.ensures((&x,), true)) || (r is None && p.ensures((&x,), false));
        }
        impl<T> OptExt<T> for Option<T> {
            open spec fn opt(self) -> Option<T> { self }
            fn vx_filter<P: FnOnce(&T) -> bool>(self, p: P) -> (r: Option<T>) {
                match self {
                    Some(x) => if p(&x) { Some(x) } else { None },
                    None => None,
                }
            }
        }
        #[verifier::external_body]
        pub fn vx_panic() -> (r: !)
            requires false,
        { panic!() }
        } // verus!
    }

    // ------------------------------------------------------------------ sha2
    /// the crc crate: a checksum is a function of the algorithm and the bytes fed
    pub mod crc {
        use vstd::prelude::*;
        verus! {
        pub struct Algorithm { pub id: u8 }
        pub uninterp spec fn checksum(alg: Algorithm, s: Seq<u8>) -> u32;
        pub const CRC_32_ISO_HDLC: Algorithm = Algorithm { id: 1 };
        pub const CRC_32_CKSUM: Algorithm = Algorithm { id: 2 };
        pub struct Crc<W> { pub a: Algorithm, pub w: Option<W> }
        impl<W> Crc<W> {
            pub open spec fn alg(&self) -> Algorithm { self.a }
            pub const fn new(a: &'static Algorithm) -> (r: Crc<W>)
                ensures r.alg() == *a
            { Crc { a: Algorithm { id: a.id }, w: None } }
            #[verifier::external_body]
            pub fn digest(&self) -> (r: Digest)
                ensures r.alg() == self.alg(), r.fed() == Seq::<u8>::empty()
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Digest { x: u8 }
        impl Digest {
            pub uninterp spec fn alg(&self) -> Algorithm;
            pub uninterp spec fn fed(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn update(&mut self, b: &[u8])
                ensures final(self).alg() == old(self).alg(), final(self).fed() == old(self).fed() + b@
            { unimplemented!() }
            #[verifier::external_body]
            pub fn finalize(self) -> (r: u32)
                ensures r == checksum(self.alg(), self.fed())
            { unimplemented!() }
        }
        } // verus!
    }

    /// flate2's decoder of raw DEFLATE data
    pub mod flate2 {
        use vstd::prelude::*;
        verus! {
        pub open spec fn all_ok(s: Seq<crate::vx::io::Result<u8>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
        /// the bytes, errors as 0
        pub open spec fn oks(s: Seq<crate::vx::io::Result<u8>>) -> Seq<u8> { Seq::new(s.len(), |i: int| match s[i] { Ok(b) => b, Err(_) => 0 }) }
        /// these bytes start with a whole DEFLATE stream
        pub uninterp spec fn deflated(s: Seq<u8>) -> bool;
        /// what it decodes to
        pub uninterp spec fn content(s: Seq<u8>) -> Seq<u8>;
        } // verus!
        pub mod bufread {
            use vstd::prelude::*;
            use super::*;
            use crate::vx::io::{Read, BufReader, Result};
            use crate::vx::iter::VecIter;
            verus! {
            pub struct DeflateDecoder<R: Read> { pub from: BufReader<R> }
            impl<R: Read> DeflateDecoder<R> {
                pub fn new(from: BufReader<R>) -> (r: DeflateDecoder<R>)
                    ensures r.from == from
                { DeflateDecoder { from } }
                /// Read::bytes
                #[verifier::external_body]
                pub fn bytes(self) -> (r: VecIter<Result<u8>>)
                    ensures
                        deflated(self.from.inner.rest()) && !self.from.inner.faulty() ==> all_ok(r@),
                        deflated(self.from.inner.rest()) && content(self.from.inner.rest()).len() > 0 ==> r@.len() > 0,
                        deflated(self.from.inner.rest()) && all_ok(r@) ==> oks(r@) == content(self.from.inner.rest()),
                { unimplemented!() }
            }
            } // verus!
        }
    }

    pub mod sha2 {
        use vstd::prelude::*;
        use crate::vx::iter::*;
        verus! {
        /// the SHA-512 function
        pub uninterp spec fn sha512(s: Seq<u8>) -> Seq<u8>;

        #[verifier::external_body]
        pub struct Sha512 { x: u8 }
        #[verifier::external_body]
        pub struct Output { x: u8 }
        impl Output {
            pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn into_iter(self) -> (r: VecIter<u8>)
                ensures r@ == self.view()
            { unimplemented!() }
        }
        pub trait Digest: Sized {
            spec fn fed(&self) -> Seq<u8>;
            fn update(&mut self, data: &[u8])
                ensures final(self).fed() == old(self).fed() + data@;
            fn finalize(self) -> (r: Output)
                ensures r.view() == sha512(self.fed());
            fn default() -> (r: Self)
                ensures r.fed() == Seq::<u8>::empty();
            fn new() -> (r: Self)
                ensures r.fed() == Seq::<u8>::empty();
        }
        pub uninterp spec fn fed_of(h: Sha512) -> Seq<u8>;
        impl Digest for Sha512 {
            open spec fn fed(&self) -> Seq<u8> { fed_of(*self) }
            #[verifier::external_body]
            fn update(&mut self, data: &[u8]) { unimplemented!() }
            #[verifier::external_body]
            fn finalize(self) -> (r: Output) { unimplemented!() }
            #[verifier::external_body]
            fn default() -> (r: Self) { unimplemented!() }
            #[verifier::external_body]
            fn new() -> (r: Self) { unimplemented!() }
        }
        } // verus!
    }

    // ------------------------------------------------------------------ iterators
    pub mod iter {
        use vstd::prelude::*;
        verus! {
        /// stand-in for the std/itertools adaptors: the remaining items, evaluated eagerly
        pub struct VecIter<T> { pub v: Vec<T> }

        pub open spec fn pairs<T>(s: Seq<T>) -> Seq<(T, T)> {
            Seq::new(s.len() / 2, |i: int| (s[2 * i], s[2 * i + 1]))
        }

        pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> {
            Seq::new(s.len(), |i: int| (i as usize, s[i]))
        }
        pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

        /// std::iter::Iterator for iterators that end: what is still to come, and the state's invariant
        pub trait Iterator: Sized {
            type Item;
            spec fn items(&self) -> Seq<Self::Item>;
            spec fn ok(&self) -> bool;
            fn next(&mut self) -> (r: Option<Self::Item>)
                requires old(self).ok(),
                ensures
                    final(self).ok(),
                    old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
                    old(self).items().len() > 0 ==> r == Some(old(self).items()[0]) && final(self).items() == old(self).items().skip(1),
            ;
        }
        impl<T> Iterator for VecIter<T> {
            type Item = T;
            open spec fn items(&self) -> Seq<T> { self.v@ }
            open spec fn ok(&self) -> bool { true }
            fn next(&mut self) -> (r: Option<T>) { self.vx_next() }
        }
        /// the adaptors, for any iterator: run it to its end, then adapt
        pub trait IterExt: Iterator {
            fn vx_all(self) -> (r: VecIter<Self::Item>)
                requires self.ok(),
                ensures r@ == self.items();
            fn collect(self) -> (r: Vec<Self::Item>)
                requires self.ok(),
                ensures r@ == self.items();
            fn filter<P: Fn(&Self::Item) -> bool>(self, p: P) -> (r: VecIter<Self::Item>)
                requires self.ok(), forall|i: int| 0 <= i < self.items().len() ==> #[trigger] p.requires((&self.items()[i],)),
                ensures
                    r.items() == r@,
                    forall|q: spec_fn(Self::Item) -> bool| (forall|x: Self::Item, b: bool| #[trigger] p.ensures((&x,), b) && p.requires((&x,)) ==> b == q(x)) ==> r@ == #[trigger] self.items().filter(q),
                    forall|i: int| 0 <= i < r@.len() ==> p.ensures((&(#[trigger] r@[i]),), true) && self.items().contains(r@[i]);
            fn map<U, F: Fn(Self::Item) -> U>(self, f: F) -> (r: VecIter<U>)
                requires self.ok(), forall|i: int| 0 <= i < self.items().len() ==> #[trigger] f.requires((self.items()[i],)),
                ensures
                    r@.len() == self.items().len(),
                    forall|i: int| 0 <= i < self.items().len() ==> f.ensures((self.items()[i],), #[trigger] r@[i]);
            fn take(self, n: usize) -> (r: VecIter<Self::Item>)
                requires self.ok(),
                ensures
                    r.items() == r@,
                    r@ == (if n >= self.items().len() { self.items() } else { self.items().take(n as int) }),
                    r@.len() <= self.items().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.items()[i];
            fn peekable(self) -> (r: Peekable<VecIter<Self::Item>>)
                requires self.ok(),
                ensures r@ == self.items();
        }
        impl<I: Iterator> IterExt for I {
            fn vx_all(self) -> (r: VecIter<I::Item>) {
                let mut it = self;
                let ghost s = self.items();
                let mut out: Vec<I::Item> = Vec::new();
                proof { assert(s.skip(0) =~= s); }
                loop
                    invariant_except_break out@.len() <= s.len(), it.items() == s.skip(out@.len() as int),
                    invariant s == self.items(), it.ok(), out@ =~= s.take(out@.len() as int),
                    ensures out@.len() == s.len(),
                    decreases s.len() - out@.len()
                {
                    let ghost n = out@.len() as int;
                    match it.next() {
                        Some(x) => {
                            proof { assert(x == s[n]); }
                            out.push(x);
                            proof { assert(s.skip(n).skip(1) =~= s.skip(n + 1)); assert(out@ =~= s.take(n + 1)); }
                        }
                        None => break,
                    }
                }
                proof { assert(out@ =~= s); }
                VecIter { v: out }
            }
            fn collect(self) -> (r: Vec<I::Item>) { self.vx_all().v }
            fn filter<P: Fn(&I::Item) -> bool>(self, p: P) -> (r: VecIter<I::Item>) { self.vx_all().filter(p) }
            fn map<U, F: Fn(I::Item) -> U>(self, f: F) -> (r: VecIter<U>) { self.vx_all().map(f) }
            fn take(self, n: usize) -> (r: VecIter<I::Item>) { self.vx_all().take(n) }
            fn peekable(self) -> (r: Peekable<VecIter<I::Item>>) { self.vx_all().peekable() }
        }
        /// a range of u16, as an iterator
        pub fn vx_range(a: u16, b: u16) -> (r: VecIter<u16>)
            ensures
                r@.len() == (if a < b { b - a } else { 0 }),
                forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i,
        {
            let mut out: Vec<u16> = Vec::new();
            let mut i = a;
            while i < b
                invariant
                    a <= i, i <= b || i == a, out@.len() == i - a,
                    forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k] == a + k,
                decreases b - i
            {
                out.push(i);
                i = i + 1;
            }
            VecIter { v: out }
        }
        pub fn empty<T>() -> (r: VecIter<T>)
            ensures r@.len() == 0
        { VecIter { v: Vec::new() } }

        impl<T> VecIter<T> {
            pub open spec fn view(&self) -> Seq<T> { self.v@ }
            pub fn vx_next(&mut self) -> (r: Option<T>)
                ensures
                    old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                    old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
            {
                if self.v.len() == 0 { None } else {
                    let ghost s = self.v@;
                    let x = self.v.remove(0);
                    proof { assert(self.v@ =~= s.skip(1)); }
                    Some(x)
                }
            }

            pub fn next(&mut self) -> (r: Option<T>)
                ensures
                    old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                    old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
            {
                if self.v.len() == 0 { None } else {
                    let ghost s = self.v@;
                    let x = self.v.remove(0);
                    proof { assert(self.v@ =~= s.skip(1)); }
                    Some(x)
                }
            }
            pub fn collect_vec(self) -> (r: Vec<T>)
                ensures r@ == self@
            { self.v }

            /// filter: the items the predicate holds for, in order
            pub fn filter<P: Fn(&T) -> bool>(self, p: P) -> (r: VecIter<T>)
                requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] p.requires((&self@[i],)),
                ensures
                    r.items() == r@,
                    forall|q: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] p.ensures((&x,), b) && p.requires((&x,)) ==> b == q(x)) ==> r@ == #[trigger] self@.filter(q),
                    forall|i: int| 0 <= i < r@.len() ==> p.ensures((&(#[trigger] r@[i]),), true) && self@.contains(r@[i]),
            {
                let mut it = self;
                let ghost s = self@;
                let mut out: Vec<T> = Vec::new();
                let ghost mut n: int = 0;
                proof {
                    assert forall|q: spec_fn(T) -> bool| out@ == #[trigger] s.take(n).filter(q) by {
                        assert(s.take(0) =~= Seq::<T>::empty());
                        reveal(Seq::filter);
                    }
                    assert(it@ =~= s.skip(n));
                }
                while it.v.len() > 0
                    invariant
                        0 <= n <= s.len(), it@ == s.skip(n), s == self@,
                        forall|i: int| 0 <= i < s.len() ==> #[trigger] p.requires((&s[i],)),
                        forall|q: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] p.ensures((&x,), b) && p.requires((&x,)) ==> b == q(x)) ==> out@ == #[trigger] s.take(n).filter(q),
                        forall|i: int| 0 <= i < out@.len() ==> p.ensures((&(#[trigger] out@[i]),), true) && s.contains(out@[i]),
                    decreases it.v.len()
                {
                    let ghost before = out@;
                    proof { assert(it@[0] == s[n]); }
                    let x = it.v.remove(0);
                    let keep = p(&x);
                    if keep { out.push(x); }
                    proof {
                        assert(it@ =~= s.skip(n + 1));
                        assert forall|q: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] p.ensures((&x,), b) && p.requires((&x,)) ==> b == q(x)) implies out@ == #[trigger] s.take(n + 1).filter(q) by {
                            assert(before == s.take(n).filter(q));
                            assert(s.take(n + 1).drop_last() =~= s.take(n));
                            reveal(Seq::filter);
                        }
                        n = n + 1;
                    }
                }
                proof { assert(s.take(s.len() as int) =~= s); assert(n == s.len()); }
                VecIter { v: out }
            }

            /// map: the function's result for every item, in order
            pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VecIter<U>)
                requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],)),
                ensures
                    r@.len() == self@.len(),
                    forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
            {
                let mut it = self;
                let ghost s = self@;
                let mut out: Vec<U> = Vec::new();
                proof { assert(it@ =~= s.skip(0)); }
                while it.v.len() > 0
                    invariant
                        out@.len() <= s.len(), it@ == s.skip(out@.len() as int), s == self@,
                        forall|i: int| 0 <= i < s.len() ==> #[trigger] f.requires((s[i],)),
                        forall|i: int| 0 <= i < out@.len() ==> f.ensures((s[i],), #[trigger] out@[i]),
                    decreases it.v.len()
                {
                    let ghost n = out@.len() as int;
                    proof { assert(it@[0] == s[n]); }
                    let x = it.v.remove(0);
                    proof { assert(it@ =~= s.skip(n + 1)); }
                    out.push(f(x));
                }
                VecIter { v: out }
            }

            pub fn enumerate(self) -> (r: VecIter<(usize, T)>)
                ensures r@ == enumerated(self@)
            {
                let mut it = self;
                let ghost s = self@;
                let mut out: Vec<(usize, T)> = Vec::new();
                proof { assert(it@ =~= s.skip(0)); }
                while it.v.len() > 0
                    invariant
                        out@.len() <= s.len(), it@ == s.skip(out@.len() as int), s == self@,
                        forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == (i as usize, s[i]),
                    decreases it.v.len()
                {
                    let n = out.len();
                    let x = it.v.remove(0);
                    proof { assert(it@ =~= s.skip(n + 1)); }
                    out.push((n, x));
                }
                proof { assert(out@ =~= enumerated(s)); }
                VecIter { v: out }
            }

            /// itertools' tuples() for pairs: an odd item at the end is dropped
            pub fn tuples(self) -> (r: VecIter<(T, T)>)
                ensures r@ == pairs(self@)
            {
                let mut it = self;
                let ghost s = self@;
                let mut out: Vec<(T, T)> = Vec::new();
                proof { assert(it@ =~= s.skip(0)); }
                while it.v.len() > 1
                    invariant
                        2 * out@.len() <= s.len(), it@ == s.skip(2 * (out@.len() as int)), s == self@,
                        forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == (s[2 * i], s[2 * i + 1]),
                    decreases it.v.len()
                {
                    let ghost n = out@.len() as int;
                    let a = it.v.remove(0);
                    let b = it.v.remove(0);
                    out.push((a, b));
                    proof { assert(it@ =~= s.skip(2 * (n + 1))); }
                }
                proof { assert(out@ =~= pairs(s)); }
                VecIter { v: out }
            }

            pub fn chain(self, o: VecIter<T>) -> (r: VecIter<T>)
                ensures r@ == self@ + o@
            {
                let mut v = self.v;
                let mut w = o.v;
                v.append(&mut w);
                VecIter { v }
            }

            /// itertools' tuple_windows() for triples
            pub fn tuple_windows<W: Window<T>>(self) -> (r: VecIter<W>)
                where T: Copy
                ensures
                    r@.len() == (if self@.len() >= 3 { self@.len() - 2 } else { 0 }),
                    forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == W::of3(self@[i], self@[i + 1], self@[i + 2]),
            {
                let mut out: Vec<W> = Vec::new();
                let mut i: usize = 0;
                while i < self.v.len() && self.v.len() - i >= 3
                    invariant
                        out@.len() == i, i <= self@.len(), i + 2 <= self@.len() || i == 0,
                        forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == W::of3(self@[k], self@[k + 1], self@[k + 2]),
                    decreases self@.len() - i
                {
                    out.push(W::make3(self.v[i], self.v[i + 1], self.v[i + 2]));
                    i = i + 1;
                }
                VecIter { v: out }
            }

            pub fn count(self) -> (r: usize)
                ensures r == self@.len()
            { self.v.len() }

            pub fn peekable(self) -> (r: Peekable<VecIter<T>>)
                ensures r@ == self@
            { Peekable { v: self.v } }

            pub fn take(self, n: usize) -> (r: VecIter<T>)
                ensures
                    r.items() == r@,
                    r@ == (if n >= self@.len() { self@ } else { self@.take(n as int) }),
                    r@.len() <= self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i],
            {
                let mut v = self.v;
                if n < v.len() {
                    v.truncate(n);
                    proof { assert(v@ =~= self@.take(n as int)); }
                }
                VecIter { v }
            }
        }

        /// std::iter::Peekable: the items not yet taken
        /// what an adaptor over a *borrowed* iterator yields; only run to its end, because stopping short of it
        /// would leave the rest in the borrowed iterator (the stand-ins are eager, the real ones lazy)
        pub struct Drained<T> { pub v: Vec<T> }
        impl<T> Drained<T> {
            pub open spec fn view(&self) -> Seq<T> { self.v@ }
            pub fn count(self) -> (r: usize)
                ensures r == self@.len()
            { self.v.len() }
            pub fn collect_vec(self) -> (r: Vec<T>)
                ensures r@ == self@
            { self.v }
            pub fn collect(self) -> (r: Vec<T>)
                ensures r@ == self@
            { self.v }
        }
        pub struct Peekable<I: Iterator> { pub v: Vec<I::Item> }
        impl<I: Iterator> Peekable<I> {
            pub open spec fn view(&self) -> Seq<I::Item> { self.v@ }

            pub fn peek(&self) -> (r: Option<&I::Item>)
                ensures
                    self@.len() == 0 ==> r is None,
                    self@.len() > 0 ==> r is Some && *r->0 == self@[0],
            { if self.v.len() == 0 { None } else { Some(&self.v[0]) } }

            pub fn next(&mut self) -> (r: Option<I::Item>)
                ensures
                    old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                    old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
            {
                if self.v.len() == 0 { None } else {
                    let ghost s = self.v@;
                    let x = self.v.remove(0);
                    proof { assert(self.v@ =~= s.skip(1)); }
                    Some(x)
                }
            }

            /// itertools' peeking_take_while, run to its end (the items before the first one refused)
            pub fn peeking_take_while<P: Fn(&I::Item) -> bool>(&mut self, p: P) -> (r: Drained<I::Item>)
                requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] p.requires((&old(self)@[i],)),
                ensures
                    r@.len() <= old(self)@.len(),
                    r@ == old(self)@.take(r@.len() as int),
                    final(self)@ == old(self)@.skip(r@.len() as int),
                    forall|i: int| 0 <= i < r@.len() ==> p.ensures((&#[trigger] old(self)@[i],), true),
                    r@.len() < old(self)@.len() ==> p.ensures((&old(self)@[r@.len() as int],), false),
            {
                let ghost s = self@;
                let mut out: Vec<I::Item> = Vec::new();
                proof { assert(self@ =~= s.skip(0)); assert(out@ =~= s.take(0)); }
                while self.v.len() > 0
                    invariant_except_break
                        out@.len() <= s.len(), self@ == s.skip(out@.len() as int), s == old(self)@, out@ == s.take(out@.len() as int),
                    invariant
                        forall|i: int| 0 <= i < s.len() ==> #[trigger] p.requires((&s[i],)),
                        forall|i: int| 0 <= i < out@.len() ==> p.ensures((&#[trigger] s[i],), true),
                    ensures
                        out@.len() <= s.len(), self@ == s.skip(out@.len() as int), s == old(self)@, out@ == s.take(out@.len() as int),
                        out@.len() < s.len() ==> p.ensures((&s[out@.len() as int],), false),
                    decreases self.v.len()
                {
                    let ghost n = out@.len() as int;
                    proof { assert(self@[0] == s[n]); }
                    if !p(&self.v[0]) { break; }
                    let x = self.v.remove(0);
                    out.push(x);
                    proof { assert(self@ =~= s.skip(n + 1)); assert(out@ =~= s.take(n + 1)); }
                }
                Drained { v: out }
            }
        }

        impl<I: Iterator> Iterator for Peekable<I> {
            type Item = I::Item;
            open spec fn items(&self) -> Seq<I::Item> { self.v@ }
            open spec fn ok(&self) -> bool { true }
            fn next(&mut self) -> (r: Option<I::Item>) {
                if self.v.len() == 0 { None } else {
                    let ghost s = self.v@;
                    let x = self.v.remove(0);
                    proof { assert(self.v@ =~= s.skip(1)); }
                    Some(x)
                }
            }
        }
        /// a tuple made of neighbours
        pub trait Window<T>: Sized {
            spec fn of3(a: T, b: T, c: T) -> Self;
            fn make3(a: T, b: T, c: T) -> (r: Self)
                ensures r == Self::of3(a, b, c);
        }
        impl<T> Window<T> for (T, T, T) {
            open spec fn of3(a: T, b: T, c: T) -> Self { (a, b, c) }
            fn make3(a: T, b: T, c: T) -> (r: Self) { (a, b, c) }
        }
        pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
        impl<'a, T: Copy> VecIter<&'a T> {
            pub fn cloned(self) -> (r: VecIter<T>)
                ensures r@ == derefs(self@)
            {
                let mut out: Vec<T> = Vec::new();
                let mut i: usize = 0;
                while i < self.v.len()
                    invariant out@.len() == i, i <= self@.len(), forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == *self@[k],
                    decreases self@.len() - i
                {
                    out.push(*self.v[i]);
                    i = i + 1;
                }
                proof { assert(out@ =~= derefs(self@)); }
                VecIter { v: out }
            }
        }

        pub trait SliceIter<T> {
            spec fn items(&self) -> Seq<T>;
            fn vx_iter<'a>(&'a self) -> (r: VecIter<&'a T>)
                ensures r@ == refs::<T>(self.items());
        }
        impl<T> SliceIter<T> for [T] {
            open spec fn items(&self) -> Seq<T> { self@ }
            fn vx_iter<'a>(&'a self) -> (r: VecIter<&'a T>) {
                let mut out: Vec<&'a T> = Vec::new();
                let mut i: usize = 0;
                while i < self.len()
                    invariant i <= self@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] out@[k]) == self@[k],
                    decreases self@.len() - i
                {
                    out.push(&self[i]);
                    i = i + 1;
                }
                proof { assert(out@ =~= refs::<T>(self@)); }
                VecIter { v: out }
            }
        }
        pub trait VecExt<T>: Sized {
            spec fn all(&self) -> Seq<T>;
            fn vx_into_iter(self) -> (r: VecIter<T>)
                ensures r@ == self.all();
            fn vx_extend(&mut self, it: VecIter<T>)
                ensures final(self).all() == old(self).all() + it@;
        }
        impl<T> VecExt<T> for Vec<T> {
            open spec fn all(&self) -> Seq<T> { self@ }
            fn vx_into_iter(self) -> (r: VecIter<T>) { VecIter { v: self } }
            fn vx_extend(&mut self, it: VecIter<T>) {
                let mut o = it.v;
                let ghost s = o@;
                self.append(&mut o);
            }
        }
        } // verus!
    }

    // ------------------------------------------------------------------ sequences
    pub mod seqs {
        use vstd::prelude::*;
        verus! {
        /// the last n elements (all of them when there are fewer)
        pub open spec fn tail<T>(s: Seq<T>, n: nat) -> Seq<T> {
            if s.len() <= n { s } else { s.subrange(s.len() - n, s.len() as int) }
        }
        pub broadcast proof fn lemma_cat_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
            ensures #![trigger a + b, b + c] a + (b + c) == (a + b) + c
        {
            assert(a + (b + c) =~= (a + b) + c);
        }
        pub broadcast proof fn lemma_cat_split<T>(a: Seq<T>, b: Seq<T>)
            ensures #![trigger a + b]
                (a + b).skip(a.len() as int) == b,
                (a + b).take(a.len() as int) == a,
        {
            assert((a + b).skip(a.len() as int) =~= b);
            assert((a + b).take(a.len() as int) =~= a);
        }
        pub broadcast proof fn lemma_cat_empty<T>(a: Seq<T>, b: Seq<T>)
            requires a.len() == 0 || b.len() == 0
            ensures #![trigger a + b]
                a.len() == 0 ==> a + b == b,
                b.len() == 0 ==> a + b == a,
        {
            if a.len() == 0 { assert(a + b =~= b); }
            if b.len() == 0 { assert(a + b =~= a); }
        }
        pub broadcast proof fn lemma_cat_push<T>(a: Seq<T>, b: Seq<T>, x: T)
            ensures #[trigger] (a + b.push(x)) == (a + b).push(x)
        {
            assert(a + b.push(x) =~= (a + b).push(x));
        }
        pub broadcast proof fn lemma_skip_skip<T>(s: Seq<T>, a: int, b: int)
            requires 0 <= a, 0 <= b, a + b <= s.len()
            ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
        {
            assert(s.skip(a).skip(b) =~= s.skip(a + b));
        }
        pub broadcast proof fn lemma_take_more<T>(s: Seq<T>, a: int, b: int)
            requires 0 <= a, 0 <= b, a + b <= s.len()
            ensures #[trigger] (s.take(a) + s.skip(a).take(b)) == s.take(a + b)
        {
            assert(s.take(a) + s.skip(a).take(b) =~= s.take(a + b));
        }
        pub broadcast proof fn lemma_take_push<T>(s: Seq<T>, a: int, x: T)
            requires 0 <= a < s.len(), x == s[a]
            ensures #[trigger] s.take(a).push(x) == s.take(a + 1)
        {
            assert(s.take(a).push(x) =~= s.take(a + 1));
        }
        pub broadcast proof fn lemma_skip_zero<T>(s: Seq<T>)
            ensures #![trigger s.skip(0)] s.skip(0) == s
        {
            assert(s.skip(0) =~= s);
        }
        pub broadcast proof fn lemma_take_zero<T>(s: Seq<T>)
            ensures #![trigger s.take(0)] s.take(0) == Seq::<T>::empty()
        {
            assert(s.take(0) =~= Seq::<T>::empty());
        }
        pub broadcast proof fn lemma_take_all<T>(s: Seq<T>, n: int)
            requires n == s.len()
            ensures #[trigger] s.take(n) == s
        {
            assert(s.take(n) =~= s);
        }
        pub broadcast group group_skip { lemma_skip_skip, lemma_take_more, lemma_take_push, lemma_skip_zero, lemma_take_zero, lemma_take_all, lemma_cat_empty }
        pub broadcast group group_cat { lemma_cat_assoc, lemma_cat_split, lemma_cat_empty }

        pub proof fn lemma_tail_push<T>(h: Seq<T>, x: T, n: nat)
            ensures tail(tail(h, n).push(x), n) == tail(h.push(x), n)
        {
            assert(tail(tail(h, n).push(x), n) =~= tail(h.push(x), n));
        }
        pub proof fn lemma_tail_add<T>(h: Seq<T>, xs: Seq<T>, n: nat)
            ensures tail(tail(h, n) + xs, n) == tail(h + xs, n)
        {
            assert(tail(tail(h, n) + xs, n) =~= tail(h + xs, n));
        }
        } // verus!
    }

    // ------------------------------------------------------------------ bits
    pub mod bits {
        use vstd::prelude::*;
        use vstd::std_specs::cmp::PartialEqSpec;
        use vstd::arithmetic::power2::*;
        verus! {
        global size_of usize == 8;

        pub open spec fn bit8(b: u8, i: int) -> bool { (b >> (i as u8)) & 1 == 1 }

        /// little-endian 16-bit value
        pub open spec fn le16(lo: u8, hi: u8) -> int { lo + 256 * hi }

        /// the ways the code assembles two bytes
        pub broadcast proof fn lemma_le16_usize(lo: u8, hi: u8)
            ensures #[trigger] (((hi as usize) << 8) | (lo as usize)) == le16(lo, hi)
        {
            assert((((hi as usize) << 8) | (lo as usize)) == lo + 256 * hi) by (bit_vector);
        }
        pub broadcast proof fn lemma_le16_u16(lo: u8, hi: u8)
            ensures #[trigger] (((hi as u16) << 8) | (lo as u16)) == le16(lo, hi)
        {
            assert((((hi as u16) << 8) | (lo as u16)) == lo + 256 * hi) by (bit_vector);
        }
        pub broadcast proof fn lemma_le16_usize_r(lo: u8, hi: u8)
            ensures #[trigger] ((lo as usize) | ((hi as usize) << 8)) == le16(lo, hi)
        {
            assert(((lo as usize) | ((hi as usize) << 8)) == lo + 256 * hi) by (bit_vector);
        }
        pub broadcast proof fn lemma_le16_u16_r(lo: u8, hi: u8)
            ensures #[trigger] ((lo as u16) | ((hi as u16) << 8)) == le16(lo, hi)
        {
            assert(((lo as u16) | ((hi as u16) << 8)) == lo + 256 * hi) by (bit_vector);
        }
        pub broadcast proof fn lemma_shl8_usize(hi: u8)
            ensures #[trigger] ((hi as usize) << 8) == 256 * hi
        {
            assert(((hi as usize) << 8) == 256 * hi) by (bit_vector);
        }
        pub broadcast proof fn lemma_shl8_u16(hi: u8)
            ensures #[trigger] ((hi as u16) << 8) == 256 * hi
        {
            assert(((hi as u16) << 8) == 256 * hi) by (bit_vector);
        }
        pub broadcast group group_le16 {
            lemma_le16_usize, lemma_le16_u16, lemma_le16_usize_r, lemma_le16_u16_r, lemma_shl8_usize, lemma_shl8_u16,
        }
        pub broadcast proof fn lemma_not16(x: u16)
            ensures #[trigger] (!x) == 65535 - x
        {
            assert((!x) == 65535 - x) by (bit_vector);
        }
        pub broadcast proof fn lemma_xor16(x: u16)
            ensures #[trigger] (x ^ 0xFFFF) == 65535 - x
        {
            assert((x ^ 0xFFFF) == 65535 - x) by (bit_vector);
        }
        pub broadcast proof fn lemma_xor16_r(x: u16)
            ensures #[trigger] (0xFFFF ^ x) == 65535 - x
        {
            assert((0xFFFF ^ x) == 65535 - x) by (bit_vector);
        }
        pub broadcast group group_not16 { lemma_not16, lemma_xor16, lemma_xor16_r }

        /// what From does between the built-in integers (the extractor names this instead)
        pub trait FromTwin<T>: Sized {
            spec fn twin(t: T) -> Self;
            fn vx_from(t: T) -> (r: Self)
                ensures r == Self::twin(t);
        }
        impl FromTwin<u8> for u16 { open spec fn twin(t: u8) -> u16 { t as u16 } fn vx_from(t: u8) -> u16 { t as u16 } }
        impl FromTwin<u8> for u32 { open spec fn twin(t: u8) -> u32 { t as u32 } fn vx_from(t: u8) -> u32 { t as u32 } }
        impl FromTwin<u8> for u64 { open spec fn twin(t: u8) -> u64 { t as u64 } fn vx_from(t: u8) -> u64 { t as u64 } }
        impl FromTwin<u8> for usize { open spec fn twin(t: u8) -> usize { t as usize } fn vx_from(t: u8) -> usize { t as usize } }
        impl FromTwin<u16> for u32 { open spec fn twin(t: u16) -> u32 { t as u32 } fn vx_from(t: u16) -> u32 { t as u32 } }
        impl FromTwin<u16> for u64 { open spec fn twin(t: u16) -> u64 { t as u64 } fn vx_from(t: u16) -> u64 { t as u64 } }
        impl FromTwin<u16> for usize { open spec fn twin(t: u16) -> usize { t as usize } fn vx_from(t: u16) -> usize { t as usize } }
        impl FromTwin<u32> for u64 { open spec fn twin(t: u32) -> u64 { t as u64 } fn vx_from(t: u32) -> u64 { t as u64 } }
        impl FromTwin<u8> for i32 { open spec fn twin(t: u8) -> i32 { t as i32 } fn vx_from(t: u8) -> i32 { t as i32 } }
        impl FromTwin<u16> for i32 { open spec fn twin(t: u16) -> i32 { t as i32 } fn vx_from(t: u16) -> i32 { t as i32 } }
        impl FromTwin<u8> for i16 { open spec fn twin(t: u8) -> i16 { t as i16 } fn vx_from(t: u8) -> i16 { t as i16 } }
        impl FromTwin<u8> for i64 { open spec fn twin(t: u8) -> i64 { t as i64 } fn vx_from(t: u8) -> i64 { t as i64 } }
        impl FromTwin<u16> for i64 { open spec fn twin(t: u16) -> i64 { t as i64 } fn vx_from(t: u16) -> i64 { t as i64 } }
        impl FromTwin<u32> for i64 { open spec fn twin(t: u32) -> i64 { t as i64 } fn vx_from(t: u32) -> i64 { t as i64 } }
        impl FromTwin<u8> for u8 { open spec fn twin(t: u8) -> u8 { t as u8 } fn vx_from(t: u8) -> u8 { t as u8 } }
        impl FromTwin<u16> for u16 { open spec fn twin(t: u16) -> u16 { t as u16 } fn vx_from(t: u16) -> u16 { t as u16 } }
        impl FromTwin<u32> for u32 { open spec fn twin(t: u32) -> u32 { t as u32 } fn vx_from(t: u32) -> u32 { t as u32 } }
        impl FromTwin<usize> for usize { open spec fn twin(t: usize) -> usize { t as usize } fn vx_from(t: usize) -> usize { t as usize } }
        impl FromTwin<u8> for char { open spec fn twin(t: u8) -> char { t as char } fn vx_from(t: u8) -> char { t as char } }
        impl FromTwin<bool> for u8 { open spec fn twin(t: bool) -> u8 { if t { 1 } else { 0 } } fn vx_from(t: bool) -> u8 { if t { 1 } else { 0 } } }
        impl FromTwin<bool> for u16 { open spec fn twin(t: bool) -> u16 { if t { 1 } else { 0 } } fn vx_from(t: bool) -> u16 { if t { 1 } else { 0 } } }
        impl FromTwin<bool> for u32 { open spec fn twin(t: bool) -> u32 { if t { 1 } else { 0 } } fn vx_from(t: bool) -> u32 { if t { 1 } else { 0 } } }
        impl FromTwin<bool> for u64 { open spec fn twin(t: bool) -> u64 { if t { 1 } else { 0 } } fn vx_from(t: bool) -> u64 { if t { 1 } else { 0 } } }
        impl FromTwin<bool> for usize { open spec fn twin(t: bool) -> usize { if t { 1 } else { 0 } } fn vx_from(t: bool) -> usize { if t { 1 } else { 0 } } }
        impl FromTwin<bool> for i32 { open spec fn twin(t: bool) -> i32 { if t { 1 } else { 0 } } fn vx_from(t: bool) -> i32 { if t { 1 } else { 0 } } }
        /// what u16::from_le_bytes and its kin do (the extractor names these instead)
        pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
            ensures r == le16(b@[0], b@[1])
        { b[0] as u16 + 256 * b[1] as u16 }
        pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16)
            ensures r == le16(b@[1], b@[0])
        { b[1] as u16 + 256 * b[0] as u16 }
        pub fn u16_to_le_bytes(n: u16) -> (r: [u8; 2])
            ensures le16(r@[0], r@[1]) == n, r@[0] == n % 256, r@[1] == n / 256
        { [(n % 256) as u8, (n / 256) as u8] }
        pub fn u32_to_le_bytes(n: u32) -> (r: [u8; 4])
            ensures r@[0] + 256 * r@[1] + 65536 * r@[2] + 16777216 * r@[3] == n
        {
            // one division at a time, so that the sum is a chain of linear steps
            let a = n / 256;
            let b = a / 256;
            let c = b / 256;
            assert(n == 256 * a + n % 256 && a == 256 * b + a % 256 && b == 256 * c + b % 256 && c < 256);
            [(n % 256) as u8, (a % 256) as u8, (b % 256) as u8, c as u8]
        }

        /// equality of slices and arrays of bytes is equality of what they hold
        pub broadcast proof fn lemma_eq_slices(a: &[u8], b: &[u8])
            ensures #[trigger] (*a).eq_spec(&*b) == (a@ =~= b@)
        {
        }
        pub broadcast proof fn lemma_eq_arr_slice<const N: usize>(a: &[u8; N], b: &[u8])
            ensures #[trigger] (*a).eq_spec(&*b) == (a@ =~= b@)
        {
        }
        pub broadcast proof fn lemma_eq_slice_arr<const N: usize>(b: &[u8], a: &[u8; N])
            ensures #[trigger] (*b).eq_spec(&*a) == (b@ =~= a@)
        {
        }
        pub broadcast proof fn lemma_eq_arrs<const N: usize>(b: &[u8; N], a: &[u8; N])
            ensures #[trigger] (*b).eq_spec(&*a) == (b@ =~= a@)
        {
        }
        pub broadcast proof fn lemma_eq_arr_ref<const N: usize>(a: &[u8; N], b: &&[u8])
            ensures #[trigger] (*a).eq_spec(&*b) == (a@ =~= (**b)@)
        {
        }
        pub broadcast proof fn lemma_eq_ref_arr<const N: usize>(b: &&[u8], a: &[u8; N])
            ensures #[trigger] (*b).eq_spec(&*a) == ((**b)@ =~= a@)
        {
        }
        pub broadcast group group_eq { lemma_eq_arr_ref, lemma_eq_ref_arr, lemma_eq_slices, lemma_eq_arr_slice, lemma_eq_slice_arr, lemma_eq_arrs }
        /// DEFLATE bit order: least significant bit of each byte first
        pub open spec fn bytes_bits(s: Seq<u8>) -> Seq<bool> {
            Seq::new(s.len() * 8, |i: int| bit8(s[i / 8], i % 8))
        }
        pub open spec fn byte_bits(b: u8) -> Seq<bool> { Seq::new(8, |i: int| bit8(b, i)) }

        pub open spec fn bit16(v: u16, i: int) -> bool { (v >> (i as u16)) & 1 == 1 }
        /// the low n bits of v, least significant first
        pub open spec fn val_bits(v: u16, n: nat) -> Seq<bool> { Seq::new(n, |i: int| bit16(v, i)) }

        /// the number written least significant bit first
        pub open spec fn bits_val(s: Seq<bool>) -> nat
            decreases s.len()
        {
            if s.len() == 0 { 0 } else {
                bits_val(s.drop_last()) + if s.last() { pow2((s.len() - 1) as nat) } else { 0 }
            }
        }
        pub proof fn lemma_bits_val_bound(s: Seq<bool>)
            ensures bits_val(s) < pow2(s.len())
            decreases s.len()
        {
            lemma2_to64();
            if s.len() > 0 {
                lemma_bits_val_bound(s.drop_last());
                lemma_pow2_unfold(s.len());
            }
        }
        pub proof fn lemma_bits_val_push(s: Seq<bool>, b: bool)
            ensures bits_val(s.push(b)) == bits_val(s) + if b { pow2(s.len()) } else { 0 }
        {
            assert(s.push(b).drop_last() =~= s);
        }
        pub proof fn lemma_bytes_bits_cat(a: Seq<u8>, b: Seq<u8>)
            ensures bytes_bits(a + b) == bytes_bits(a) + bytes_bits(b)
        {
            let l = bytes_bits(a + b);
            let r = bytes_bits(a) + bytes_bits(b);
            assert(l.len() == r.len());
            assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
                let k = i - a.len() * 8;
                if k >= 0 {
                    assert(i / 8 == a.len() + k / 8 && i % 8 == k % 8);
                }
            }
            assert(l =~= r);
        }
        pub proof fn lemma_bytes_bits_skip(a: Seq<u8>, n: int)
            requires 0 <= n <= a.len()
            ensures bytes_bits(a.skip(n)) == bytes_bits(a).skip(8 * n), bytes_bits(a.take(n)) == bytes_bits(a).take(8 * n)
        {
            assert forall|i: int| 0 <= i < 8 * (a.len() - n) implies bytes_bits(a.skip(n))[i] == bytes_bits(a).skip(8 * n)[i] by {
                assert((i + 8 * n) / 8 == n + i / 8 && (i + 8 * n) % 8 == i % 8);
            }
            assert(bytes_bits(a.skip(n)) =~= bytes_bits(a).skip(8 * n));
            assert(bytes_bits(a.take(n)) =~= bytes_bits(a).take(8 * n));
        }
        pub proof fn lemma_bytes_bits_one(b: u8)
            ensures bytes_bits(seq![b]) == byte_bits(b)
        {
            assert(bytes_bits(seq![b]) =~= byte_bits(b));
        }
        pub proof fn lemma_byte_bits_inj(a: u8, b: u8)
            requires byte_bits(a) == byte_bits(b)
            ensures a == b
        {
            assert(forall|i: int| 0 <= i < 8 ==> byte_bits(a)[i] == #[trigger] byte_bits(b)[i]);
            assert(byte_bits(b)[0] == bit8(b, 0)); assert(byte_bits(b)[1] == bit8(b, 1)); assert(byte_bits(b)[2] == bit8(b, 2)); assert(byte_bits(b)[3] == bit8(b, 3));
            assert(byte_bits(b)[4] == bit8(b, 4)); assert(byte_bits(b)[5] == bit8(b, 5)); assert(byte_bits(b)[6] == bit8(b, 6)); assert(byte_bits(b)[7] == bit8(b, 7));
            assert(a == b) by (bit_vector) requires
                ((a >> 0u8) & 1 == 1) == ((b >> 0u8) & 1 == 1), ((a >> 1u8) & 1 == 1) == ((b >> 1u8) & 1 == 1),
                ((a >> 2u8) & 1 == 1) == ((b >> 2u8) & 1 == 1), ((a >> 3u8) & 1 == 1) == ((b >> 3u8) & 1 == 1),
                ((a >> 4u8) & 1 == 1) == ((b >> 4u8) & 1 == 1), ((a >> 5u8) & 1 == 1) == ((b >> 5u8) & 1 == 1),
                ((a >> 6u8) & 1 == 1) == ((b >> 6u8) & 1 == 1), ((a >> 7u8) & 1 == 1) == ((b >> 7u8) & 1 == 1);
        }
        /// different byte strings are different bit strings
        pub proof fn lemma_bytes_bits_inj(a: Seq<u8>, b: Seq<u8>)
            requires bytes_bits(a) == bytes_bits(b)
            ensures a == b
        {
            assert(bytes_bits(a).len() == a.len() * 8 && bytes_bits(b).len() == b.len() * 8);
            assert(a.len() == b.len());
            assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
                assert forall|i: int| 0 <= i < 8 implies byte_bits(a[k])[i] == byte_bits(b[k])[i] by {
                    let p = 8 * k + i;
                    assert(p / 8 == k && p % 8 == i);
                    assert(bytes_bits(a)[p] == bit8(a[p / 8], p % 8));
                    assert(bytes_bits(b)[p] == bit8(b[p / 8], p % 8));
                }
                assert(byte_bits(a[k]) =~= byte_bits(b[k]));
                lemma_byte_bits_inj(a[k], b[k]);
            }
            assert(a =~= b);
        }

        // ---- machine-level facts, as quantified statements so that they apply wherever the code puts the expression
        pub open spec fn shl8(i: int) -> u8 { 1u8 << (i as u8) }
        pub proof fn lemma_shl16(i: u16)
            requires i < 16
            ensures (1u16 << i) == pow2(i as nat)
        {
            lemma2_to64();
            assert(1u16 << 0u16 == 1 && 1u16 << 1u16 == 2 && 1u16 << 2u16 == 4 && 1u16 << 3u16 == 8 && 1u16 << 4u16 == 16 && 1u16 << 5u16 == 32
                && 1u16 << 6u16 == 64 && 1u16 << 7u16 == 128 && 1u16 << 8u16 == 256 && 1u16 << 9u16 == 512 && 1u16 << 10u16 == 1024
                && 1u16 << 11u16 == 2048 && 1u16 << 12u16 == 4096 && 1u16 << 13u16 == 8192 && 1u16 << 14u16 == 16384 && 1u16 << 15u16 == 32768) by (bit_vector);
        }
        pub proof fn lemma_or16(res: u16, i: u16)
            requires i < 16, res < pow2(i as nat)
            ensures (res | (1u16 << i)) == res + pow2(i as nat)
        {
            lemma_shl16(i);
            assert(res < (1u16 << i) && i < 16 ==> (res | (1u16 << i)) == res + (1u16 << i)) by (bit_vector);
        }
        } // verus!
    }
}
