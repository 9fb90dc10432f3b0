// ===================== prelude: the trusted boundary =====================
// Stand-ins for std::io and the external crates. Everything marked
// external_body, axiom, uninterp or assume_specification here is ASSUMED; the
// driver lists all of it in the evidence.
pub mod vx {
use vstd::prelude::*;
pub mod prims {
    pub use vstd::prelude::*;
    pub use crate::vx::lemmas::*;
}
pub mod lemmas {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::PartialEqSpec;
    pub broadcast proof fn lemma_array_eq<const N: usize>(a: [u8; N], b: [u8; N]) ensures #[trigger] a.eq_spec(&b) == (a@ == b@) {
        if a@ == b@ {}
        if a.eq_spec(&b) { assert(a@ =~= b@); }
    }
    // Two texts with the same characters are the same value (no specification looks at capacity or address).
    pub uninterp spec fn the_str<'a>(s: Seq<char>) -> &'a str;
    pub broadcast axiom fn ax_str_ext(a: &str) ensures the_str(#[trigger] a@) == a;
    // A Vec never holds more than isize::MAX bytes.
    pub broadcast axiom fn ax_vec_len(v: Vec<u8>) ensures #[trigger] v@.len() <= 0x7fff_ffff_ffff_ffff;
    pub broadcast axiom fn ax_string_ext(a: String, b: String) ensures (#[trigger] a@ == #[trigger] b@) ==> a == b;
}

// ---- conversions ----
pub trait VFrom<T>: Sized {
    spec fn vfrom(t: T) -> Self;
    fn vx_from(t: T) -> (r: Self) ensures r == Self::vfrom(t);
}
impl VFrom<io::Error> for io::Error {
    open spec fn vfrom(t: io::Error) -> io::Error { t }
    fn vx_from(t: io::Error) -> (r: io::Error) { t }
}
impl VFrom<crate::types::error::Error> for crate::types::error::Error {
    open spec fn vfrom(t: crate::types::error::Error) -> crate::types::error::Error { t }
    fn vx_from(t: crate::types::error::Error) -> (r: crate::types::error::Error) { t }
}
/// Stands for std's Into; only conversions to String occur.
/// Vec::extend_from_slice for bytes, with the equation between sequences.
pub trait VecExt {
    spec fn seen(&self) -> Seq<u8>;
    fn push_all(&mut self, s: &[u8]) ensures final(self).seen() == old(self).seen() + s@;
}
impl VecExt for Vec<u8> {
    #[verifier::inline] open spec fn seen(&self) -> Seq<u8> { self@ }
    fn push_all(&mut self, s: &[u8]) { let ghost a = self@; self.extend_from_slice(s); assert(self@ =~= a + s@); }
}
pub trait Into<T>: Sized {
    spec fn vinto(&self) -> Seq<char>;
    fn into(self) -> (r: T) ensures text_of(&r) == self.vinto();
}
pub uninterp spec fn text_of<T>(t: &T) -> Seq<char>;
pub broadcast axiom fn ax_text_of(s: &String) ensures #[trigger] text_of(s) == s@;
impl Into<String> for &str {
    open spec fn vinto(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn into(self) -> (r: String) { unimplemented!() }
}
impl Into<String> for String {
    open spec fn vinto(&self) -> Seq<char> { self@ }
    fn into(self) -> (r: String) { proof { broadcast use ax_text_of; } self }
}

pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub axiom fn ax_string_of(s: Seq<char>) ensures string_of(s)@ == s;
pub broadcast proof fn lemma_string_of(s: String) ensures string_of(#[trigger] s@) == s {
    ax_string_of(s@); broadcast use crate::vx::lemmas::ax_string_ext; assert(string_of(s@)@ == s@);
}

pub assume_specification [u32::max_value] () -> (r: u32) ensures r == 0xffff_ffffu32;
// ---- formatting ----
pub mod fmt {
    use vstd::prelude::*;
    /// The text `{}` gives.
    pub trait VDisplay { spec fn disp(&self) -> Seq<char>; }
    /// The text `{:?}` gives.
    pub uninterp spec fn debug_text<T: ?Sized>(t: &T) -> Seq<char>;
    /// A reference prints as what it refers to.
    pub axiom fn ax_debug_ref<T>(t: &T) ensures debug_text::<&T>(&t) == debug_text::<T>(t);
    #[verifier::external_body] pub fn lit(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
    #[verifier::external_body] pub fn disp<T: VDisplay + ?Sized>(s: &mut String, t: &T) ensures final(s)@ == old(s)@ + t.disp() { unimplemented!() }
    #[verifier::external_body] pub fn debug<T: ?Sized>(s: &mut String, t: &T) ensures final(s)@ == old(s)@ + debug_text(t) { unimplemented!() }
    pub open spec fn hex_char(n: int) -> char { if n < 10 { (('0' as int) + n) as char } else { (('a' as int) + n - 10) as char } }
    #[verifier::external_body] pub fn hex02(s: &mut String, t: &u8) ensures final(s)@ == old(s)@ + seq![hex_char(*t as int / 16), hex_char(*t as int % 16)] { unimplemented!() }
    #[verifier::external_body] pub fn other<T: ?Sized>(s: &mut String, t: &T) { unimplemented!() }
    impl VDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
    impl VDisplay for &str { open spec fn disp(&self) -> Seq<char> { self@ } }
    impl VDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
    impl VDisplay for std::string::FromUtf8Error { uninterp spec fn disp(&self) -> Seq<char>; }
    pub uninterp spec fn dec_i32(n: i32) -> Seq<char>;
    impl VDisplay for i32 { open spec fn disp(&self) -> Seq<char> { dec_i32(*self) } }
}

// ---- iteration helpers (verified here, not assumed) ----
pub fn position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|x: &T| #[trigger] f.requires((x,)),
    ensures
        r is Some ==> r.unwrap() < v@.len() && f.ensures((&v@[r.unwrap() as int],), true)
            && forall|i: int| 0 <= i < r.unwrap() ==> f.ensures((&#[trigger] v@[i],), false),
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|x: &T| #[trigger] f.requires((x,)),
            forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        decreases v@.len() - i,
    {
        if f(&v[i]) { return Some(i); }
        i += 1;
    }
    None
}

/// What chunks(n) gives: pieces of n, the last may be shorter but not empty.
pub open spec fn cut<T>(s: Seq<T>, n: int) -> Seq<Seq<T>> decreases s.len() {
    if n <= 0 || s.len() == 0 { seq![] } else if s.len() <= n { seq![s] } else { seq![s.take(n)] + cut(s.skip(n), n) }
}
#[verifier::external_body] pub fn chunks<T>(v: &[T], n: usize) -> (r: Vec<&[T]>)
    requires n > 0
    ensures r@.len() == cut(v@, n as int).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == cut(v@, n as int)[i]
{ unimplemented!() }
// ---- bytes compared as bytes ----
pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; }
impl Bytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<T: Bytes + ?Sized> Bytes for &T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }
impl<const N: usize> Bytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Bytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
#[verifier::external_body] pub fn bytes_eq<A: Bytes + ?Sized, B: Bytes + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.bytes() == b.bytes()) { unimplemented!() }
#[verifier::external_body] pub fn bytes_ne<A: Bytes + ?Sized, B: Bytes + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.bytes() != b.bytes()) { unimplemented!() }
pub trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<T: Text + ?Sized> Text for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn str_eq<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.text() == b.text()) { unimplemented!() }
#[verifier::external_body] pub fn str_ne<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.text() != b.text()) { unimplemented!() }

// ---- text ----
pub use vstd::utf8::{encode_utf8, decode_utf8, valid_utf8};
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
/// What str::to_lowercase gives.
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub open spec fn is_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as int <= 127 }
pub open spec fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32) + 32) as u8 as char } else { c } }
/// On ASCII text it lowers the letters A to Z.
pub axiom fn ax_lower_ascii(s: Seq<char>) requires is_ascii(s) ensures lower(s) == s.map_values(|c: char| lower_char(c));
pub open spec fn has(t: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= t.len() - p.len() && #[trigger] t.subrange(i, i + p.len()) == p }
#[verifier::external_body] pub fn to_lowercase<T: Text + ?Sized>(s: &T) -> (r: String) ensures r@ == lower(s.text()) { unimplemented!() }
#[verifier::external_body] pub fn contains<T: Text + ?Sized, P: Text>(s: &T, p: P) -> (r: bool) ensures r == has(s.text(), p.text()) { unimplemented!() }
#[verifier::external_body] pub fn starts_with<T: Text + ?Sized, P: Text>(s: &T, p: P) -> (r: bool)
    ensures r == (p.text().len() <= s.text().len() && s.text().take(p.text().len() as int) == p.text()) { unimplemented!() }
pub open spec fn all_in(t: Seq<char>, p: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] p.contains(t[i]) }
/// Only whether anything is left is specified.
#[verifier::external_body] pub fn trim_matches<'a>(s: &'a str, p: &[char]) -> (r: &'a str) ensures (r@.len() == 0) == all_in(s@, p@) { unimplemented!() }
#[verifier::external_body] pub fn chars_vec(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn string_from<T: Text>(t: T) -> (r: String) ensures r@ == t.text() { unimplemented!() }
/// Used on bytes only.
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) where T: Clone ensures r@ == s@;
pub assume_specification [std::string::String::into_bytes] (s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@);
pub assume_specification [std::string::String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [std::string::String::from_utf8] (v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> encode_utf8(r.unwrap()@) == v@;
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b) ensures a == b {
    broadcast use vstd::utf8::group_utf8_lib;
    assert(decode_utf8(encode_utf8(a)) == a);
    assert(decode_utf8(encode_utf8(b)) == b);
}
pub proof fn lemma_utf8_len(s: Seq<char>) ensures encode_utf8(s).len() >= s.len() decreases s.len() {
    broadcast use vstd::utf8::group_utf8_lib;
    if s.len() > 0 {
        lemma_utf8_len(s.drop_first());
        assert(encode_utf8(s) == vstd::utf8::encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
    }
}
pub proof fn lemma_scalar(c: char)
    ensures
        c as int <= 127 ==> vstd::utf8::encode_scalar(c as u32) == seq![c as u8],
        c as int > 127 ==> vstd::utf8::encode_scalar(c as u32).len() > 1 && vstd::utf8::encode_scalar(c as u32)[0] >= 128,
{
    let u = c as u32;
    assert(u <= 0x7f ==> u & 0x7f == u) by (bit_vector);
    assert((0xC0u8 | (((u >> 6) & 0x1F) as u8)) >= 128) by (bit_vector);
    assert((0xE0u8 | (((u >> 12) & 0x0F) as u8)) >= 128) by (bit_vector);
    assert((0xF0u8 | (((u >> 18) & 0x07) as u8)) >= 128) by (bit_vector);
    assert(vstd::utf8::leading_byte_width_1(u) == (u & 0x7F) as u8);
    assert(vstd::utf8::leading_byte_width_2(u) == (0xC0u8 | (((u >> 6) & 0x1F) as u8)));
    assert(vstd::utf8::leading_byte_width_3(u) == (0xE0u8 | (((u >> 12) & 0x0F) as u8)));
    assert(vstd::utf8::leading_byte_width_4(u) == (0xF0u8 | (((u >> 18) & 0x07) as u8)));
    assert(u <= 0x7f ==> vstd::utf8::encode_scalar(u) =~= seq![c as u8]);
}
/// Leading bytes below 128 are the leading characters.
pub proof fn lemma_utf8_ascii(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] encode_utf8(s)[i]) < 128
    ensures forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) as int == encode_utf8(s)[i]
    decreases k
{
    broadcast use vstd::utf8::group_utf8_lib;
    lemma_utf8_len(s);
    if k > 0 {
        let t = s.drop_first();
        assert(encode_utf8(s) == vstd::utf8::encode_scalar(s[0] as u32) + encode_utf8(t));
        assert(encode_utf8(s)[0] < 128);
        lemma_scalar(s[0]);
        assert(encode_utf8(s)[0] == vstd::utf8::encode_scalar(s[0] as u32)[0]);
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] encode_utf8(t)[i]) < 128 by { assert(encode_utf8(s)[i + 1] == encode_utf8(t)[i]); }
        lemma_utf8_ascii(t, k - 1);
        assert forall|i: int| 0 <= i < k implies (#[trigger] s[i]) as int == encode_utf8(s)[i] by {
            if i > 0 { assert(s[i] == t[i - 1]); assert(encode_utf8(s)[i] == encode_utf8(t)[i - 1]); }
        }
    }
}
/// ASCII characters are their own bytes.
pub proof fn lemma_ascii_utf8(s: Seq<char>)
    requires is_ascii(s)
    ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] encode_utf8(s)[i]) as int == s[i] as int
    decreases s.len()
{
    broadcast use vstd::utf8::group_utf8_lib;
    if s.len() > 0 {
        let t = s.drop_first();
        assert(s[0] as int <= 127);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as int <= 127 by { assert(t[i] == s[i + 1]); }
        lemma_ascii_utf8(t);
        assert(encode_utf8(s) == vstd::utf8::encode_scalar(s[0] as u32) + encode_utf8(t));
        lemma_scalar(s[0]);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] encode_utf8(s)[i]) as int == s[i] as int by {
            if i > 0 { assert(s[i] == t[i - 1]); assert(encode_utf8(s)[i] == encode_utf8(t)[i - 1]); }
        }
    }
}
/// What str::parse gives.
pub trait Parse: Sized { type Err; spec fn parsed(s: Seq<char>) -> Option<Self>; }
#[verifier::external_body] pub fn parse<T: Parse>(s: &str) -> (r: core::result::Result<T, T::Err>)
    ensures r is Ok <==> T::parsed(s@) is Some, r matches Ok(v) ==> v == T::parsed(s@).unwrap() { unimplemented!() }
#[verifier::external_body] pub struct ParseError { o: u8 }
impl fmt::VDisplay for ParseError { uninterp spec fn disp(&self) -> Seq<char>; }
pub uninterp spec fn i32_of(s: Seq<char>) -> Option<i32>;
impl Parse for i32 { type Err = ParseError; open spec fn parsed(s: Seq<char>) -> Option<i32> { i32_of(s) } }
/// Printing a number and parsing it gives the number back; what is printed is not blank.
pub axiom fn ax_i32_text(n: i32) ensures i32_of(fmt::dec_i32(n)) == Some(n), !blank(fmt::dec_i32(n));
pub open spec fn blank(s: Seq<char>) -> bool { all_in(s, seq![' ', '\t', '\n', '\r']) }
impl Parse for bool { type Err = ParseError; open spec fn parsed(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } } }
pub mod str_ {
    use vstd::prelude::*;
    #[derive(Debug)] #[verifier::external_body] pub struct Utf8Error { o: u8 }
    impl crate::vx::fmt::VDisplay for Utf8Error { uninterp spec fn disp(&self) -> Seq<char>; }
    #[verifier::external_body] pub fn from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
        ensures r is Ok <==> vstd::utf8::valid_utf8(b@), r is Ok ==> vstd::utf8::encode_utf8(r.unwrap()@) == b@ { unimplemented!() }
}

// ---- std::io ----
pub mod io {
    use vstd::prelude::*;
    #[derive(Debug)] pub enum ErrorKind { InvalidInput, InvalidData, UnexpectedEof, WriteZero, Interrupted, Other }
    #[derive(Debug)] pub struct Error { pub kind: ErrorKind, pub o: u64 }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        #[verifier::external_body] pub fn new(kind: ErrorKind, msg: &str) -> (r: Error) ensures r.kind == kind { unimplemented!() }
    }
    /// What a source will deliver up to its end or its first hard error, that hard error (of a
    /// source or sink, if there will be one), what a sink has accepted, what a logger has recorded. Ghost only.
    pub trait Io {
        spec fn rest(&self) -> Seq<u8>;
        spec fn fault(&self) -> Option<Error>;
        spec fn out(&self) -> Seq<u8>;
        /// What the sink borrowed here will have accepted when the borrow ends.
        #[verifier::prophetic] spec fn last(&self) -> Seq<u8>;
        spec fn log_data(&self) -> Seq<u8>;
        spec fn logging(&self) -> bool;
    }
    /// b is a after exactly n bytes were taken from it.
    pub open spec fn took<S: Io + ?Sized>(a: &S, b: &S, n: int) -> bool {
        &&& 0 <= n <= a.rest().len() && b.rest() =~= a.rest().skip(n)
        &&& b.fault() == a.fault() && b.out() == a.out() && b.logging() == a.logging()
        &&& b.log_data() =~= (if a.logging() { a.log_data() + a.rest().take(n) } else { a.log_data() })
    }
    /// b is a after it accepted exactly s.
    #[verifier::prophetic] pub open spec fn gave<S: Io + ?Sized>(a: &S, b: &S, s: Seq<u8>) -> bool {
        &&& b.out() =~= a.out() + s
        &&& b.fault() == a.fault() && b.rest() == a.rest() && b.logging() == a.logging() && b.last() == a.last()
        &&& b.log_data() =~= (if a.logging() { a.log_data() + s } else { a.log_data() })
    }
    pub open spec fn failed<S: Io + ?Sized>(a: &S, e: Error) -> bool { a.fault() == Some(e) && !(e.kind is Interrupted) }
    /// The error is the source's own, or the source ended before n bytes.
    pub open spec fn read_err<S: Io + ?Sized>(a: &S, b: &S, n: int, e: Error) -> bool {
        failed(a, e) || (a.rest().len() < n && e.kind is UnexpectedEof)
    }
    pub open spec fn write_err<S: Io + ?Sized>(a: &S, e: Error) -> bool { failed(a, e) || e.kind is WriteZero }
    pub trait Read: Io {
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                r matches Ok(n) ==> n <= old(buf)@.len() && took(old(self), final(self), n as int)
                    && final(buf)@.take(n as int) == old(self).rest().take(n as int)
                    && (n == 0 && old(buf)@.len() > 0 ==> old(self).rest().len() == 0),
                r matches Err(e) ==> if e.kind is Interrupted { took(old(self), final(self), 0) } else { failed(old(self), e) };
        // what std's default methods do with such a read
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> took(old(self), final(self), old(buf)@.len() as int) && final(buf)@ == old(self).rest().take(old(buf)@.len() as int),
                r matches Err(e) ==> read_err(old(self), final(self), old(buf)@.len() as int, e),
        { unimplemented!() }
        #[verifier::external_body]
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
            ensures
                r is Ok ==> took(old(self), final(self), old(self).rest().len() as int) && final(buf)@ == old(buf)@ + old(self).rest() && old(self).fault() is None,
                r matches Err(e) ==> failed(old(self), e),
        { unimplemented!() }
    }
    pub trait Write: Io {
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            ensures
                r matches Ok(n) ==> n <= buf@.len() && gave(old(self), final(self), buf@.take(n as int)),
                r matches Err(e) ==> if e.kind is Interrupted { gave(old(self), final(self), seq![]) } else { failed(old(self), e) };
        fn flush(&mut self) -> (r: Result<()>)
            ensures
                r is Ok ==> gave(old(self), final(self), seq![]),
                r matches Err(e) ==> failed(old(self), e);
        #[verifier::external_body]
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures
                r is Ok ==> gave(old(self), final(self), buf@),
                r matches Err(e) ==> write_err(old(self), e),
        { unimplemented!() }
    }
    impl<R: Io> Io for &mut R {
        open spec fn rest(&self) -> Seq<u8> { (**self).rest() }
        open spec fn fault(&self) -> Option<Error> { (**self).fault() }
        open spec fn out(&self) -> Seq<u8> { (**self).out() }
        #[verifier::prophetic] open spec fn last(&self) -> Seq<u8> { (*final(*self)).out() }
        open spec fn log_data(&self) -> Seq<u8> { (**self).log_data() }
        open spec fn logging(&self) -> bool { (**self).logging() }
    }
    impl<R: Read> Read for &mut R { fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { (**self).read(buf) } }
    impl<R: Write> Write for &mut R {
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { (**self).write(buf) }
        fn flush(&mut self) -> (r: Result<()>) { (**self).flush() }
    }
    /// A cursor over bytes in memory.
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Cursor<T> { o: core::marker::PhantomData<T> }
    impl<T: crate::vx::Bytes> Cursor<T> {
        #[verifier::external_body] pub fn new(t: T) -> (r: Cursor<T>)
            ensures r.rest() == t.bytes(), r.fault() is None, !r.logging(), r.out() == Seq::<u8>::empty(), r.log_data() == Seq::<u8>::empty()
        { unimplemented!() }
    }
    impl<T> Io for Cursor<T> {
        uninterp spec fn rest(&self) -> Seq<u8>;
        uninterp spec fn fault(&self) -> Option<Error>;
        uninterp spec fn out(&self) -> Seq<u8>;
        #[verifier::prophetic] uninterp spec fn last(&self) -> Seq<u8>;
        uninterp spec fn log_data(&self) -> Seq<u8>;
        uninterp spec fn logging(&self) -> bool;
    }
    impl<T> Read for Cursor<T> { #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() } }
    impl Io for Vec<u8> {
        open spec fn rest(&self) -> Seq<u8> { seq![] }
        open spec fn fault(&self) -> Option<Error> { None }
        open spec fn out(&self) -> Seq<u8> { self@ }
        #[verifier::prophetic] open spec fn last(&self) -> Seq<u8> { seq![] }
        open spec fn log_data(&self) -> Seq<u8> { seq![] }
        open spec fn logging(&self) -> bool { false }
    }
    impl Write for Vec<u8> {
        #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
    }
}
// ---- byteorder ----
pub mod byteorder {
    use vstd::prelude::*;
    use crate::vx::io::*;
    pub open spec fn le_nat(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_nat(s.skip(1)) } }
    pub open spec fn le_bytes(v: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { seq![] } else { seq![(v % 256) as u8] + le_bytes(v / 256, (n - 1) as nat) } }
    pub open spec fn be_bytes(v: nat, n: nat) -> Seq<u8> { le_bytes(v, n).reverse() }
    pub open spec fn be_nat(s: Seq<u8>) -> nat { le_nat(s.reverse()) }
    pub open spec fn to_nat<T: ByteOrder>(s: Seq<u8>) -> nat { if T::little() { le_nat(s) } else { be_nat(s) } }
    pub open spec fn to_bytes<T: ByteOrder>(v: nat, n: nat) -> Seq<u8> { if T::little() { le_bytes(v, n) } else { be_bytes(v, n) } }
    pub trait ByteOrder { spec fn little() -> bool; }
    pub struct LittleEndian;
    impl ByteOrder for LittleEndian { open spec fn little() -> bool { true } }
    pub struct BigEndian;
    impl ByteOrder for BigEndian { open spec fn little() -> bool { false } }
    #[verifier::prophetic] pub open spec fn sent<S: Io + ?Sized>(a: &S, b: &S, s: Seq<u8>, r: Result<()>) -> bool {
        match r { Ok(_) => gave(a, b, s), Err(e) => write_err(a, e) }
    }
    pub trait ReadBytesExt: Read {
        #[verifier::external_body] fn read_u8(&mut self) -> (r: Result<u8>)
            ensures r matches Ok(v) ==> took(old(self), final(self), 1) && v == old(self).rest()[0], r matches Err(e) ==> read_err(old(self), final(self), 1, e) { unimplemented!() }
        #[verifier::external_body] fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16>)
            ensures r matches Ok(v) ==> took(old(self), final(self), 2) && v == to_nat::<T>(old(self).rest().take(2)), r matches Err(e) ==> read_err(old(self), final(self), 2, e) { unimplemented!() }
        #[verifier::external_body] fn read_u32<T: ByteOrder>(&mut self) -> (r: Result<u32>)
            ensures r matches Ok(v) ==> took(old(self), final(self), 4) && v == to_nat::<T>(old(self).rest().take(4)), r matches Err(e) ==> read_err(old(self), final(self), 4, e) { unimplemented!() }
        #[verifier::external_body] fn read_u64<T: ByteOrder>(&mut self) -> (r: Result<u64>)
            ensures r matches Ok(v) ==> took(old(self), final(self), 8) && v == to_nat::<T>(old(self).rest().take(8)), r matches Err(e) ==> read_err(old(self), final(self), 8, e) { unimplemented!() }
    }
    impl<R: Read> ReadBytesExt for R {}
    pub trait WriteBytesExt: Write {
        #[verifier::external_body] fn write_u8(&mut self, n: u8) -> (r: Result<()>) ensures sent(old(self), final(self), seq![n], r) { unimplemented!() }
        #[verifier::external_body] fn write_u16<T: ByteOrder>(&mut self, n: u16) -> (r: Result<()>) ensures sent(old(self), final(self), to_bytes::<T>(n as nat, 2), r) { unimplemented!() }
        #[verifier::external_body] fn write_u32<T: ByteOrder>(&mut self, n: u32) -> (r: Result<()>) ensures sent(old(self), final(self), to_bytes::<T>(n as nat, 4), r) { unimplemented!() }
        #[verifier::external_body] fn write_u64<T: ByteOrder>(&mut self, n: u64) -> (r: Result<()>) ensures sent(old(self), final(self), to_bytes::<T>(n as nat, 8), r) { unimplemented!() }
    }
    impl<W: Write> WriteBytesExt for W {}
}

// ---- chrono ----
pub mod chrono {
    use vstd::prelude::*;
    #[derive(Clone, Copy)] pub struct Utc { pub o: u8 }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DateTime<T> { o: core::marker::PhantomData<T> }
    impl<T> Clone for DateTime<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl<T> Copy for DateTime<T> {}
    /// The clock: nothing is known about the time it gives (and it is treated as standing still during a call).
    pub uninterp spec fn the_time() -> DateTime<Utc>;
    impl Utc { #[verifier::external_body] pub fn now() -> (r: DateTime<Utc>) ensures r == the_time() { unimplemented!() } }
    /// The time a text states.
    pub uninterp spec fn time_of(s: Seq<char>) -> Option<DateTime<Utc>>;
    #[verifier::external_body] pub struct ParseError { o: u8 }
    impl crate::vx::fmt::VDisplay for ParseError { uninterp spec fn disp(&self) -> Seq<char>; }
    impl crate::vx::Parse for DateTime<Utc> { type Err = ParseError; open spec fn parsed(s: Seq<char>) -> Option<DateTime<Utc>> { time_of(s) } }
    /// What {:?} prints for a time is parsed as that time, and is not blank.
    pub axiom fn ax_time_text(t: DateTime<Utc>) ensures time_of(crate::vx::fmt::debug_text(&t)) == Some(t), !crate::vx::blank(crate::vx::fmt::debug_text(&t));
}
// ---- iterating over hash maps ----
/// The order in which a hash map hands out its keys: every key once, in an order nothing is known about.
pub uninterp spec fn key_order<K, V>(m: std::collections::HashMap<K, V>) -> Seq<K>;
pub broadcast axiom fn ax_key_order<K, V>(m: std::collections::HashMap<K, V>)
    ensures (#[trigger] key_order(m)).no_duplicates(), forall|k: K| #![trigger key_order(m).contains(k)] #![trigger m@.contains_key(k)] key_order(m).contains(k) <==> m@.contains_key(k);
pub open spec fn values_of<K, V>(m: std::collections::HashMap<K, V>) -> Seq<V> { key_order(m).map_values(|k: K| m@[k]) }
#[verifier::external_body] pub fn map_pairs<K, V>(m: &std::collections::HashMap<K, V>) -> (r: Vec<(&K, &V)>)
    ensures r@.len() == key_order(*m).len(),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == key_order(*m)[i] && *r@[i].1 == m@[key_order(*m)[i]]
{ unimplemented!() }
#[verifier::external_body] pub fn map_values<K, V>(m: &std::collections::HashMap<K, V>) -> (r: Vec<&V>)
    ensures r@.len() == key_order(*m).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == m@[key_order(*m)[i]]
{ unimplemented!() }
pub open spec fn deref<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }

// ---- hash map keys ----
pub mod keys {
    use vstd::prelude::*;
    use vstd::std_specs::hash::obeys_key_model;
    // Derived Eq and Hash, and those of String, agree with equality (the derives are required by the contracts).
    pub broadcast axiom fn ax_key_string() ensures #[trigger] obeys_key_model::<String>();
    pub broadcast axiom fn ax_key_string_key() ensures #[trigger] obeys_key_model::<crate::types::string_key::StringKey>();
    pub broadcast axiom fn ax_key_binary_key() ensures #[trigger] obeys_key_model::<crate::types::binary_key::BinaryKey>();
    pub broadcast axiom fn ax_key_binary_id() ensures #[trigger] obeys_key_model::<crate::types::binary_id::BinaryId>();
    pub broadcast axiom fn ax_key_icon() ensures #[trigger] obeys_key_model::<crate::types::custom_icon_uuid::CustomIconUuid>();
    pub broadcast group group_keys { ax_key_string, ax_key_string_key, ax_key_binary_key, ax_key_binary_id, ax_key_icon, vstd::std_specs::hash::group_hash_axioms }
}
// ---- uuid ----
pub mod uuid {
    use vstd::prelude::*;
    #[verifier::external_body] #[derive(PartialEq, Eq, Hash)] pub struct Uuid { o: [u8; 16] }
    unsafe impl Structural for Uuid {}
    impl View for Uuid { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    /// A UUID is its 16 bytes.
    pub broadcast axiom fn ax_uuid_ext(a: Uuid, b: Uuid) ensures (#[trigger] a@ == #[trigger] b@) ==> a == b;
    pub broadcast axiom fn ax_uuid_len(a: Uuid) ensures #[trigger] a@.len() == 16;
    impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for Uuid {}
    impl Uuid {
        #[verifier::external_body] pub fn new_v4() -> Uuid { unimplemented!() }
        #[verifier::external_body] pub fn nil() -> (r: Uuid) ensures r == nil_uuid() { unimplemented!() }
        #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (r: core::result::Result<Uuid, Error>)
            ensures r is Ok <==> b@.len() == 16, r matches Ok(u) ==> u@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8; 16]) ensures r@ == self@ { unimplemented!() }
    }
    #[verifier::external_body] pub struct Error { o: u8 }
    impl crate::vx::fmt::VDisplay for Error { uninterp spec fn disp(&self) -> Seq<char>; }
    pub uninterp spec fn nil_uuid() -> Uuid;
    /// The UUID of 16 bytes.
    pub open spec fn uuid_for(b: Seq<u8>) -> Uuid { choose|u: Uuid| #[trigger] u@ == b }
    pub broadcast proof fn lemma_uuid_for(u: Uuid) ensures uuid_for(#[trigger] u@) == u { broadcast use ax_uuid_ext; assert(uuid_for(u@)@ == u@); }
    pub axiom fn ax_nil() ensures nil_uuid()@ == Seq::new(16, |i: int| 0u8);
}
// ---- secstr ----
pub mod secstr {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct SecStr { o: Vec<u8> }
    impl View for SecStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Clone for SecStr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
    impl SecStr {
        #[verifier::external_body] pub fn new(v: Vec<u8>) -> (r: SecStr) ensures r@ == v@ { unimplemented!() }
        #[verifier::external_body] pub fn unsecure(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn from(s: String) -> (r: SecStr) ensures r@ == crate::vx::utf8(s@) { unimplemented!() }
    }
}
// ---- rust-crypto ----
pub mod rust_crypto {
    pub mod symmetriccipher {
        use vstd::prelude::*;
        use super::buffer::*;
        #[derive(Clone, Copy)] pub enum SymmetricCipherError { InvalidLength, InvalidPadding }
        /// A stream cipher XORs its keystream, from where it stands, onto the data.
        pub trait SynchronousStreamCipher {
            spec fn ks(&self) -> spec_fn(int) -> u8;
            spec fn pos(&self) -> int;
            fn process(&mut self, input: &[u8], output: &mut [u8])
                requires input@.len() == old(output)@.len(),
                ensures
                    final(output)@ == xored(input@, old(self).ks(), old(self).pos()),
                    final(self).pos() == old(self).pos() + input@.len(),
                    final(self).ks() == old(self).ks();
        }
        pub open spec fn xored(d: Seq<u8>, ks: spec_fn(int) -> u8, pos: int) -> Seq<u8> { Seq::new(d.len(), |i: int| d[i] ^ ks(pos + i)) }
        /// One block under one key.
        pub trait BlockEncryptor {
            spec fn block_key(&self) -> Seq<u8>;
            fn encrypt_block(&self, input: &[u8], output: &mut [u8])
                requires input@.len() == 16, old(output)@.len() == 16,
                ensures final(output)@ == aes_block(self.block_key(), input@);
        }
        pub uninterp spec fn aes_block(key: Seq<u8>, block: Seq<u8>) -> Seq<u8>;
        pub broadcast axiom fn ax_aes_block_len(key: Seq<u8>, block: Seq<u8>) requires block.len() == 16 ensures (#[trigger] aes_block(key, block)).len() == 16;
        /// AES-256 in CBC mode with PKCS padding over a whole message.
        pub uninterp spec fn cbc_enc(key: Seq<u8>, iv: Seq<u8>, plain: Seq<u8>) -> Seq<u8>;
        /// What is left of the blocks once decrypted, padding included. None when there is not a whole number of them.
        pub uninterp spec fn cbc_raw(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>) -> Option<Seq<u8>>;
        /// PKCS #7 padding; nothing encrypts to nothing.
        pub open spec fn padded(d: Seq<u8>) -> Seq<u8> {
            if d.len() == 0 { d } else { d + Seq::new((16 - d.len() % 16) as nat, |i: int| (16 - d.len() % 16) as u8) }
        }
        pub open spec fn unpadded(d: Seq<u8>) -> Option<Seq<u8>> {
            if d.len() == 0 {
                Some(d)
            } else {
                let n = d.last() as int;
                if 1 <= n <= 16 && n <= d.len() && forall|i: int| d.len() - n <= i < d.len() ==> d[i] == d.last() { Some(d.take(d.len() - n)) } else { None }
            }
        }
        pub open spec fn cbc_dec(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>) -> Option<Seq<u8>> {
            match cbc_raw(key, iv, data) { Some(p) => unpadded(p), None => None }
        }
        /// What it encrypts it decrypts.
        pub axiom fn ax_cbc(key: Seq<u8>, iv: Seq<u8>, plain: Seq<u8>) ensures cbc_raw(key, iv, cbc_enc(key, iv, plain)) == Some(padded(plain));
        pub broadcast axiom fn ax_cbc_raw_len(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>) ensures #[trigger] cbc_raw(key, iv, data) matches Some(p) ==> p.len() == data.len();
        pub proof fn lemma_cbc(key: Seq<u8>, iv: Seq<u8>, plain: Seq<u8>) ensures cbc_dec(key, iv, cbc_enc(key, iv, plain)) == Some(plain)
        {
            ax_cbc(key, iv, plain);
            if plain.len() > 0 {
                let p = padded(plain);
                assert(p.take(p.len() - p.last() as int) =~= plain);
            }
        }
        pub broadcast proof fn ax_cbc_len(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>) ensures #[trigger] cbc_dec(key, iv, data) matches Some(p) ==> p.len() <= data.len()
        {
            broadcast use ax_cbc_raw_len;
        }
        /// A cipher works through its input buffer and delivers the result in pieces: what it
        /// yields in all, how much of it has been delivered, how far into the input it is.
        pub open spec fn step(whole: Option<Seq<u8>>, done: int, w: Seq<u8>, w2: Seq<u8>, done2: int, last: bool) -> bool {
            &&& whole matches Some(f) ==> done <= done2 <= f.len() && w2 == w + f.subrange(done, done2) && (last ==> done2 == f.len())
            &&& (last ==> whole is Some)
        }
        #[verifier::external_body] pub struct Decryptor { o: u8 }
        impl Decryptor {
            pub uninterp spec fn key(&self) -> Seq<u8>;
            pub uninterp spec fn iv(&self) -> Seq<u8>;
            pub uninterp spec fn done(&self) -> int;
            pub uninterp spec fn at(&self) -> int;
            pub uninterp spec fn left(&self) -> nat;
            #[verifier::external_body] pub fn decrypt(&mut self, input: &mut RefReadBuffer, output: &mut RefWriteBuffer, eof: bool) -> (r: Result<BufferResult, SymmetricCipherError>)
                requires old(self).at() == old(input).at()
                ensures
                    final(self).key() == old(self).key(), final(self).iv() == old(self).iv(),
                    final(self).at() == final(input).at(), final(input).all() == old(input).all(), final(output).cap() == old(output).cap(),
                    r matches Ok(b) ==> eof ==> step(cbc_raw(old(self).key(), old(self).iv(), old(input).all()), old(self).done(), old(output)@, final(output)@, final(self).done(), b is BufferUnderflow),
                    r is Err ==> eof ==> cbc_raw(old(self).key(), old(self).iv(), old(input).all()) is None,
                    r matches Ok(BufferResult::BufferOverflow) ==> old(output)@.len() + 16 <= old(output).cap() ==> final(self).left() < old(self).left(),
            { unimplemented!() }
        }
        #[verifier::external_body] pub struct Encryptor { o: u8 }
        impl Encryptor {
            pub uninterp spec fn key(&self) -> Seq<u8>;
            pub uninterp spec fn iv(&self) -> Seq<u8>;
            pub uninterp spec fn done(&self) -> int;
            pub uninterp spec fn at(&self) -> int;
            pub uninterp spec fn left(&self) -> nat;
            #[verifier::external_body] pub fn encrypt(&mut self, input: &mut RefReadBuffer, output: &mut RefWriteBuffer, eof: bool) -> (r: Result<BufferResult, SymmetricCipherError>)
                requires old(self).at() == old(input).at()
                ensures
                    final(self).key() == old(self).key(), final(self).iv() == old(self).iv(),
                    final(self).at() == final(input).at(), final(input).all() == old(input).all(), final(output).cap() == old(output).cap(),
                    r matches Ok(b) ==> eof ==> step(Some(cbc_enc(old(self).key(), old(self).iv(), old(input).all())), old(self).done(), old(output)@, final(output)@, final(self).done(), b is BufferUnderflow),
                    r matches Ok(BufferResult::BufferOverflow) ==> old(output)@.len() + 16 <= old(output).cap() ==> final(self).left() < old(self).left(),
            { unimplemented!() }
        }
    }
    pub mod salsa20 {
        use vstd::prelude::*;
        use super::symmetriccipher::*;
        #[verifier::external_body] pub struct Salsa20 { o: u8 }
        pub uninterp spec fn salsa20(key: Seq<u8>, nonce: Seq<u8>) -> spec_fn(int) -> u8;
        impl Salsa20 {
            #[verifier::external_body] pub fn new(key: &[u8], nonce: &[u8]) -> (r: Salsa20)
                requires key@.len() == 16 || key@.len() == 32, nonce@.len() == 8,
                ensures r.pos() == 0, r.ks() == salsa20(key@, nonce@),
            { unimplemented!() }
        }
        impl SynchronousStreamCipher for Salsa20 {
            uninterp spec fn ks(&self) -> spec_fn(int) -> u8;
            uninterp spec fn pos(&self) -> int;
            #[verifier::external_body] fn process(&mut self, input: &[u8], output: &mut [u8]) { unimplemented!() }
        }
    }
    pub mod digest {
        use vstd::prelude::*;
        pub trait Digest {
            spec fn fed(&self) -> Seq<u8>;
            fn input(&mut self, d: &[u8]) ensures final(self).fed() == old(self).fed() + d@;
            fn result(&mut self, out: &mut [u8])
                requires old(out)@.len() >= 32,
                ensures final(out)@ == super::sha2::sha256(old(self).fed()) + old(out)@.skip(32);
        }
    }
    pub mod sha2 {
        use vstd::prelude::*;
        use super::digest::Digest;
        pub uninterp spec fn sha256(d: Seq<u8>) -> Seq<u8>;
        pub broadcast axiom fn ax_sha256_len(d: Seq<u8>) ensures (#[trigger] sha256(d)).len() == 32;
        #[verifier::external_body] pub struct Sha256 { o: u8 }
        impl Sha256 {
            #[verifier::external_body] pub fn new() -> (r: Sha256) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
        }
        impl Digest for Sha256 {
            uninterp spec fn fed(&self) -> Seq<u8>;
            #[verifier::external_body] fn input(&mut self, d: &[u8]) { unimplemented!() }
            #[verifier::external_body] fn result(&mut self, out: &mut [u8]) { unimplemented!() }
        }
    }
    pub mod aes {
        use vstd::prelude::*;
        use super::symmetriccipher::*;
        pub enum KeySize { KeySize128, KeySize192, KeySize256 }
        #[verifier::external_body] pub fn cbc_decryptor(size: KeySize, key: &[u8], iv: &[u8], padding: super::blockmodes::NoPadding) -> (r: Decryptor)
            requires size is KeySize256, key@.len() == 32, iv@.len() == 16
            ensures r.key() == key@, r.iv() == iv@, r.done() == 0, r.at() == 0 { unimplemented!() }
        #[verifier::external_body] pub fn cbc_encryptor(size: KeySize, key: &[u8], iv: &[u8], padding: super::blockmodes::PkcsPadding) -> (r: Encryptor)
            requires size is KeySize256, key@.len() == 32, iv@.len() == 16
            ensures r.key() == key@, r.iv() == iv@, r.done() == 0, r.at() == 0 { unimplemented!() }
    }
    pub mod aesni {
        use vstd::prelude::*;
        use super::symmetriccipher::*;
        #[verifier::external_body] pub struct AesNiEncryptor { o: u8 }
        impl AesNiEncryptor {
            #[verifier::external_body] pub fn new(size: super::aes::KeySize, key: &[u8]) -> (r: AesNiEncryptor) requires size is KeySize256, key@.len() == 32 ensures r.block_key() == key@ { unimplemented!() }
        }
        impl BlockEncryptor for AesNiEncryptor {
            uninterp spec fn block_key(&self) -> Seq<u8>;
            #[verifier::external_body] fn encrypt_block(&self, input: &[u8], output: &mut [u8]) { unimplemented!() }
        }
    }
    pub mod aessafe {
        use vstd::prelude::*;
        use super::symmetriccipher::*;
        #[verifier::external_body] pub struct AesSafe256Encryptor { o: u8 }
        impl AesSafe256Encryptor {
            #[verifier::external_body] pub fn new(key: &[u8]) -> (r: AesSafe256Encryptor) requires key@.len() == 32 ensures r.block_key() == key@ { unimplemented!() }
        }
        impl BlockEncryptor for AesSafe256Encryptor {
            uninterp spec fn block_key(&self) -> Seq<u8>;
            #[verifier::external_body] fn encrypt_block(&self, input: &[u8], output: &mut [u8]) { unimplemented!() }
        }
    }
    pub mod util { #[verifier::external_body] pub fn supports_aesni() -> bool { unimplemented!() } }
    pub mod blockmodes { pub struct PkcsPadding; pub struct NoPadding; }
    pub mod buffer {
        use vstd::prelude::*;
        pub enum BufferResult { BufferUnderflow, BufferOverflow }
        pub trait ReadBuffer {}
        pub trait WriteBuffer {}
        #[verifier::external_body] pub struct RefReadBuffer<'a> { o: &'a [u8] }
        impl<'a> ReadBuffer for RefReadBuffer<'a> {}
        impl<'a> RefReadBuffer<'a> {
            pub uninterp spec fn all(&self) -> Seq<u8>;
            pub uninterp spec fn at(&self) -> int;
            #[verifier::external_body] pub fn new(b: &'a [u8]) -> (r: RefReadBuffer<'a>) ensures r.all() == b@, r.at() == 0 { unimplemented!() }
            #[verifier::external_body] pub fn take_remaining(&mut self) -> (r: &[u8])
                requires 0 <= old(self).at() <= old(self).all().len()
                ensures r@ == old(self).all().skip(old(self).at()), final(self).all() == old(self).all(), final(self).at() == old(self).all().len() { unimplemented!() }
        }
        #[verifier::external_body] pub struct RefWriteBuffer<'a> { o: &'a mut [u8] }
        impl<'a> WriteBuffer for RefWriteBuffer<'a> {}
        /// What was written and not yet taken out.
        impl<'a> View for RefWriteBuffer<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
        impl<'a> RefWriteBuffer<'a> {
            pub uninterp spec fn cap(&self) -> nat;
            #[verifier::external_body] pub fn new(b: &'a mut [u8]) -> (r: RefWriteBuffer<'a>) ensures r@ == Seq::<u8>::empty(), r.cap() == old(b)@.len() { unimplemented!() }
            #[verifier::external_body] pub fn take_read_buffer(&mut self) -> (r: RefReadBuffer<'_>)
                ensures r.all() == old(self)@, r.at() == 0, final(self)@ == Seq::<u8>::empty(), final(self).cap() == old(self).cap() { unimplemented!() }
        }
    }
}
pub use rust_crypto::sha2::sha256;
pub use rust_crypto::symmetriccipher::{aes_block, cbc_enc, cbc_dec, cbc_raw, unpadded, xored};
/// encrypt_block into a part of an array (R19).
#[verifier::external_body] pub fn encrypt_block_at<B: rust_crypto::symmetriccipher::BlockEncryptor, const N: usize>(c: &B, input: &[u8], output: &mut [u8; N], from: usize, to: usize)
    requires input@.len() == 16, from + 16 == to, to <= N
    ensures final(output)@ == old(output)@.take(from as int) + aes_block(c.block_key(), input@) + old(output)@.skip(to as int)
{ unimplemented!() }
/// for (u, a) in x.iter().zip(y.iter_mut()) { *a = *u; } (R18); verified.
pub fn copy_zip<const N: usize>(x: &[u8], y: &mut [u8; N])
    ensures final(y)@ == Seq::new(N as nat, |i: int| if i < x@.len() { x@[i] } else { old(y)@[i] })
{
    let mut i: usize = 0;
    while i < x.len() && i < N
        invariant i <= N, i <= x@.len(), y@.len() == N, forall|j: int| 0 <= j < N ==> #[trigger] y@[j] == (if j < i { x@[j] } else { old(y)@[j] })
        decreases N - i
    { y[i] = x[i]; i += 1; }
    assert(y@ =~= Seq::new(N as nat, |i: int| if i < x@.len() { x@[i] } else { old(y)@[i] }));
}
/// 32 bytes, whatever is there.
pub open spec fn pad32(s: Seq<u8>) -> Seq<u8> { Seq::new(32, |i: int| if i < s.len() { s[i] } else { 0u8 }) }
pub broadcast proof fn lemma_pad32(s: Seq<u8>) requires s.len() == 32 ensures #[trigger] pad32(s) == s { assert(pad32(s) =~= s); }
/// Byte strings one after the other.
pub open spec fn flat(s: Seq<&[u8]>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last()@ } }
pub mod rand {
    pub mod rngs {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct OsRng { o: u8 }
        impl OsRng {
            /// What was drawn with it so far.
            pub uninterp spec fn draws(&self) -> Seq<Seq<u8>>;
            /// OsRng {} (R20)
            #[verifier::external_body] pub fn unit() -> (r: OsRng) ensures r.draws() == Seq::<Seq<u8>>::empty(), from_os(r.draws()) { unimplemented!() }
            /// Fills the whole buffer from the operating system's source, or panics.
            #[verifier::external_body] pub fn fill_bytes(&mut self, b: &mut [u8])
                requires from_os(old(self).draws())
                ensures final(b)@.len() == old(b)@.len(), final(self).draws() == old(self).draws().push(final(b)@), from_os(final(self).draws()) { unimplemented!() }
        }
        /// These byte strings are what consecutive, separate draws from the operating system's source gave.
        pub uninterp spec fn from_os(d: Seq<Seq<u8>>) -> bool;
    }
    pub trait RngCore {}
}
pub mod flate2 {
    use vstd::prelude::*;
    /// The error comes from the decompressor.
    pub uninterp spec fn from_flate2(e: crate::vx::io::Error) -> bool;
    pub uninterp spec fn gunzip(d: Seq<u8>) -> Option<Seq<u8>>;
    pub uninterp spec fn gz(d: Seq<u8>) -> Seq<u8>;
    /// What it compresses it decompresses; there is always a header.
    pub axiom fn ax_gz(d: Seq<u8>) ensures gunzip(gz(d)) == Some(d), gz(d).len() > 0;
    pub struct Compression { pub o: u8 }
    impl Compression { #[verifier::external_body] pub fn default() -> Compression { unimplemented!() } }
    pub mod read {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct GzDecoder { o: u8 }
        impl GzDecoder {
            /// What the data decompress to, if they do.
            pub uninterp spec fn plain(&self) -> Option<Seq<u8>>;
            #[verifier::external_body] pub fn new(d: &[u8]) -> (r: GzDecoder) ensures r.plain() == super::gunzip(d@) { unimplemented!() }
            #[verifier::external_body] pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: crate::vx::io::Result<usize>)
                ensures r is Ok <==> old(self).plain() is Some, r matches Err(e) ==> super::from_flate2(e), r is Ok ==> final(out)@ == old(out)@ + old(self).plain().unwrap() { unimplemented!() }
        }
    }
    pub mod write {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct GzEncoder { o: u8 }
        impl GzEncoder {
            pub uninterp spec fn before(&self) -> Seq<u8>;
            pub uninterp spec fn fed(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn new(w: Vec<u8>, c: super::Compression) -> (r: GzEncoder) ensures r.before() == w@, r.fed() == Seq::<u8>::empty() { unimplemented!() }
            #[verifier::external_body] pub fn write_all(&mut self, d: &[u8]) -> (r: crate::vx::io::Result<()>)
                ensures r is Ok ==> final(self).fed() == old(self).fed() + d@ && final(self).before() == old(self).before() { unimplemented!() }
            #[verifier::external_body] pub fn finish(self) -> (r: crate::vx::io::Result<Vec<u8>>)
                ensures r matches Ok(v) ==> v@ == self.before() + super::gz(self.fed()) { unimplemented!() }
        }
    }
}
pub mod base64 {
    pub mod engine { pub mod general_purpose { pub const STANDARD: crate::vx::base64::G = crate::vx::base64::G { o: 0 }; } }
    pub trait Engine {}
    pub use engine::general_purpose as gp;
    use vstd::prelude::*;
    use crate::vx::{Bytes, Text};
    pub struct G { pub o: u8 }
    #[verifier::external_body] pub struct DecodeError { o: u8 }
    impl crate::vx::fmt::VDisplay for DecodeError { uninterp spec fn disp(&self) -> Seq<char>; }
    /// Standard base64 with padding.
    pub uninterp spec fn b64(d: Seq<u8>) -> Seq<char>;
    pub uninterp spec fn unb64(s: Seq<char>) -> Option<Seq<u8>>;
    pub open spec fn b64_char(c: char) -> bool { ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') || ('0' <= c && c <= '9') || c == '+' || c == '/' || c == '=' }
    /// What it encodes it decodes; the text is made of the 64 characters and =, and empty for no data only.
    pub axiom fn ax_b64(d: Seq<u8>) ensures unb64(b64(d)) == Some(d), b64(d).len() == (d.len() + 2) / 3 * 4, forall|i: int| 0 <= i < b64(d).len() ==> b64_char(#[trigger] b64(d)[i]);
    impl G {
        #[verifier::external_body] pub fn decode<T: Text>(&self, t: T) -> (r: core::result::Result<Vec<u8>, DecodeError>)
            ensures match unb64(t.text()) { Some(d) => r is Ok && r->Ok_0@ == d, None => r is Err } { unimplemented!() }
        #[verifier::external_body] pub fn encode<T: Bytes>(&self, t: T) -> (r: String) ensures r@ == b64(t.bytes()) { unimplemented!() }
    }
}
pub mod hex {
    use vstd::prelude::*;
    use crate::vx::Bytes;
    #[verifier::external_body] pub struct FromHexError { o: u8 }
    pub open spec fn digit(b: u8) -> int { if 48 <= b <= 57 { b - 48 } else if 97 <= b <= 102 { b - 87 } else if 65 <= b <= 70 { b - 55 } else { -1 } }
    pub open spec fn is_hex(s: Seq<u8>) -> bool { s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) >= 0 }
    pub open spec fn unhex(s: Seq<u8>) -> Seq<u8> { Seq::new((s.len() / 2) as nat, |i: int| (digit(s[2 * i]) * 16 + digit(s[2 * i + 1])) as u8) }
    pub open spec fn hex_text(d: Seq<u8>) -> Seq<char> { Seq::new(d.len() * 2, |i: int| crate::vx::fmt::hex_char(if i % 2 == 0 { d[i / 2] as int / 16 } else { d[i / 2] as int % 16 })) }
    pub trait FromHex: Sized {
        spec fn holds(&self) -> Seq<u8>;
        fn from_hex<T: Bytes>(t: T) -> (r: core::result::Result<Self, FromHexError>)
            ensures r is Ok <==> is_hex(t.bytes()), r matches Ok(v) ==> v.holds() == unhex(t.bytes());
    }
    impl FromHex for Vec<u8> {
        open spec fn holds(&self) -> Seq<u8> { self@ }
        #[verifier::external_body] fn from_hex<T: Bytes>(t: T) -> (r: core::result::Result<Vec<u8>, FromHexError>) { unimplemented!() }
    }
    pub trait ToHex {}
    #[verifier::external_body] pub fn encode<T: Bytes>(t: T) -> (r: String) ensures r@ == hex_text(t.bytes()) { unimplemented!() }
}
// ---- xml-rs ----
pub mod xml {
    use vstd::prelude::*;
    /// Name (without prefix) and value of each attribute, in order.
    pub type Attrs = Seq<(Seq<char>, Seq<char>)>;
    /// What a reader reports and a writer is given. Other: comments, processing instructions, ignored white space, the document's start.
    pub ghost enum Ev { Start(Seq<char>, Attrs), End(Seq<char>), Text(Seq<char>), Other, EndDoc }
    /// An element: text in it, or elements.
    pub ghost enum Tree { Leaf(Seq<char>, Attrs, Seq<char>), Node(Seq<char>, Attrs, Seq<Tree>) }
    /// The events that write an element.
    pub open spec fn flat(t: Tree) -> Seq<Ev> decreases t {
        match t {
            Tree::Leaf(n, a, s) => seq![Ev::Start(n, a), Ev::Text(s), Ev::End(n)],
            Tree::Node(n, a, k) => seq![Ev::Start(n, a)] + flats(k) + seq![Ev::End(n)],
        }
    }
    pub open spec fn flats(k: Seq<Tree>) -> Seq<Ev> decreases k { if k.len() == 0 { seq![] } else { flats(k.drop_last()) + flat(k.last()) } }
    /// Whatever was read, only elements within the current one have been ended, and it itself at most.
    #[verifier::opaque]
    pub open spec fn stays_at(a: Seq<Ev>, ao: Seq<Seq<char>>, b: Seq<Ev>, bo: Seq<Seq<char>>) -> bool {
        &&& b.len() <= a.len()
        &&& ao.len() > 0 ==> bo.len() + 1 >= ao.len() && bo.take(ao.len() - 1) =~= ao.drop_last()
    }
    pub broadcast proof fn lemma_stays_same(a: Seq<Ev>, ao: Seq<Seq<char>>, b: Seq<Ev>, bo: Seq<Seq<char>>)
        ensures a == b && ao == bo ==> #[trigger] stays_at(a, ao, b, bo)
    { reveal(stays_at); }
    /// b is a, or elements opened within a.
    #[verifier::opaque]
    pub open spec fn inside(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { b.len() >= a.len() && b.take(a.len() as int) =~= a }
    pub broadcast proof fn lemma_inside_same(a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures a == b ==> #[trigger] inside(a, b) { reveal(inside); }
    pub broadcast proof fn lemma_inside_nonempty(a: Seq<Seq<char>>, b: Seq<Seq<char>>) requires #[trigger] inside(a, b) ensures b.len() >= a.len() { reveal(inside); }
    pub broadcast proof fn lemma_inside_push(a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: Seq<char>) requires #[trigger] inside(a, b) ensures inside(a, #[trigger] b.push(n)) { reveal(inside); assert(b.push(n).take(a.len() as int) =~= b.take(a.len() as int)); }
    pub broadcast proof fn lemma_inside_pop(a: Seq<Seq<char>>, b: Seq<Seq<char>>) requires #[trigger] inside(a, b), a.len() > 0, b.last() != a.last() ensures inside(a, #[trigger] b.drop_last()) {
        reveal(inside); if a.len() == b.len() { assert(b.take(a.len() as int) =~= b); }
        assert(b.drop_last().take(a.len() as int) =~= b.take(a.len() as int));
    }
    pub broadcast proof fn lemma_inside_child(o: Seq<Seq<char>>, b: Seq<Seq<char>>, n: Seq<char>, x: Seq<Ev>, y: Seq<Ev>, p: Seq<Seq<char>>)
        requires #[trigger] inside(o, b), #[trigger] stays_at(x, b.push(n), y, p) ensures inside(o, p)
    { reveal(inside); reveal(stays_at); assert(b.push(n).drop_last() =~= b); assert(p.take(o.len() as int) =~= p.take(b.len() as int).take(o.len() as int)); }
    pub broadcast proof fn lemma_stays_len(x: Seq<Ev>, a: Seq<Seq<char>>, y: Seq<Ev>, b: Seq<Seq<char>>) requires #[trigger] stays_at(x, a, y, b) ensures y.len() <= x.len() { reveal(stays_at); }
    pub broadcast proof fn lemma_inside_stays(x: Seq<Ev>, a: Seq<Seq<char>>, y: Seq<Ev>, b: Seq<Seq<char>>)
        requires #[trigger] inside(a, b), y.len() <= x.len() ensures #[trigger] stays_at(x, a, y, b)
    { reveal(inside); reveal(stays_at); if a.len() > 0 { assert(b.take(a.len() - 1) =~= b.take(a.len() as int).drop_last()); } }
    pub broadcast proof fn lemma_inside_left(x: Seq<Ev>, a: Seq<Seq<char>>, y: Seq<Ev>, b: Seq<Seq<char>>)
        requires #[trigger] inside(a, b), y.len() <= x.len(), a.len() > 0 ensures #[trigger] stays_at(x, a, y, b.drop_last())
    { reveal(inside); reveal(stays_at); assert(b.drop_last().take(a.len() - 1) =~= b.take(a.len() as int).drop_last()); }
    pub broadcast group group_inside { lemma_inside_same, lemma_inside_nonempty, lemma_inside_push, lemma_inside_pop, lemma_inside_child, lemma_stays_len, lemma_inside_stays, lemma_inside_left }
    /// All its texts and attribute values are made of such characters.
    pub open spec fn clean(t: Tree) -> bool decreases t { match t { Tree::Leaf(_, a, s) => clean_attrs(a) && is_text(s), Tree::Node(_, a, k) => clean_attrs(a) && cleans(k) } }
    pub open spec fn cleans(k: Seq<Tree>) -> bool decreases k { k.len() > 0 ==> cleans(k.drop_last()) && clean(k.last()) }
    pub open spec fn clean_attrs(a: Attrs) -> bool { forall|i: int| 0 <= i < a.len() ==> is_text(#[trigger] a[i].1) }
    /// The characters XML allows.
    pub open spec fn is_text(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> xml_char(#[trigger] s[i]) }
    pub open spec fn xml_char(c: char) -> bool { c == '\t' || c == '\n' || c == '\r' || ('\u{20}' <= c && c <= '\u{fffd}') || ('\u{10000}' <= c && c <= '\u{10ffff}') }
    pub mod attribute {
        use vstd::prelude::*;
        pub struct OwnedAttribute { pub name: crate::vx::xml::name::OwnedName, pub value: String }
        pub open spec fn attrs(v: Seq<OwnedAttribute>) -> crate::vx::xml::Attrs { v.map_values(|a: OwnedAttribute| (a.name.local_name@, a.value@)) }
    }
    pub mod name { pub struct OwnedName { pub local_name: String, pub namespace: Option<String>, pub prefix: Option<String> } }
    pub mod common {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct TextPosition { o: u8 }
        impl crate::vx::fmt::VDisplay for TextPosition { uninterp spec fn disp(&self) -> Seq<char>; }
        pub trait Position {}
    }
    /// What the parser reports for a whole document, up to the first error or the document's end.
    pub uninterp spec fn events(d: Seq<u8>, ws: bool, cdata: bool) -> Seq<Ev>;
    // ---- parsing what was written ----
    pub open spec fn tag(t: Tree) -> Seq<char> { match t { Tree::Leaf(n, _, _) => n, Tree::Node(n, _, _) => n } }
    pub open spec fn marks(t: Tree) -> Attrs { match t { Tree::Leaf(_, a, _) => a, Tree::Node(_, a, _) => a } }
    /// What is reported between elements: comments and the like, white space.
    pub open spec fn gap(e: Seq<Ev>) -> bool { forall|i: int| 0 <= i < e.len() ==> ((#[trigger] e[i]) is Other || (e[i] matches Ev::Text(s) && crate::vx::blank(s))) }
    /// y is what is reported for an element: its text in one piece, and nothing else between its elements than gaps.
    pub open spec fn shown(y: Seq<Ev>, t: Tree) -> bool decreases t, 0nat {
        match t {
            Tree::Leaf(n, a, s) => y == if s.len() == 0 { seq![Ev::Start(n, a), Ev::End(n)] } else { seq![Ev::Start(n, a), Ev::Text(s), Ev::End(n)] },
            Tree::Node(n, a, k) => if k.len() == 0 { y == seq![Ev::Start(n, a), Ev::End(n)] } else {
                &&& y.len() >= 2 && y[0] == Ev::Start(n, a) && y.last() == Ev::End(n)
                &&& exists|j: int| 1 <= j < y.len() && #[trigger] gap(y.subrange(j, y.len() - 1)) && shown_all(y.subrange(1, j), k)
            },
        }
    }
    pub open spec fn shown_all(y: Seq<Ev>, k: Seq<Tree>) -> bool decreases k, 1nat {
        if k.len() == 0 { y.len() == 0 } else {
            exists|i: int, j: int| 0 <= i <= j <= y.len() && #[trigger] gap(y.subrange(i, j)) && shown_all(y.take(i), k.drop_last()) && shown(y.skip(j), k.last())
        }
    }
    /// A name made of letters, as all names here are.
    pub open spec fn plain_name(n: Seq<char>) -> bool { n.len() > 0 && forall|i: int| 0 <= i < n.len() ==> ('a' <= #[trigger] n[i] <= 'z' || 'A' <= n[i] <= 'Z') }
    pub open spec fn plain_marks(a: Attrs) -> bool { (forall|i: int| 0 <= i < a.len() ==> plain_name(#[trigger] a[i].0)) && forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i].0 != #[trigger] a[j].0 }
    pub open spec fn named(t: Tree) -> bool decreases t { match t { Tree::Leaf(n, a, _) => plain_name(n) && plain_marks(a), Tree::Node(n, a, k) => plain_name(n) && plain_marks(a) && all_named(k) } }
    pub open spec fn all_named(k: Seq<Tree>) -> bool decreases k { k.len() > 0 ==> all_named(k.drop_last()) && named(k.last()) }
    /// No text in it is white space only.
    pub open spec fn solid(t: Tree) -> bool decreases t { match t { Tree::Leaf(_, _, s) => s.len() == 0 || !crate::vx::blank(s), Tree::Node(_, _, k) => all_solid(k) } }
    pub open spec fn all_solid(k: Seq<Tree>) -> bool decreases k { k.len() > 0 ==> all_solid(k.drop_last()) && solid(k.last()) }
    /// e is what is reported for a document that holds this element.
    pub open spec fn reads_as(e: Seq<Ev>, t: Tree) -> bool {
        exists|a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>| #[trigger] gap(a) && #[trigger] shown(b, t) && #[trigger] gap(c) && e == a + b + c + seq![Ev::EndDoc]
    }
    /// What is written with plain names and allowed characters is read back, unless it reaches the parser's limit of 2^30 bytes per text.
    pub axiom fn ax_written(l: writer::Layout, t: Tree, ws: bool, cdata: bool)
        requires l.indent, crate::vx::blank(l.by), clean(t), named(t), writer::emit(l, flat(t)).len() < 0x4000_0000, (ws && cdata) || solid(t)
        ensures reads_as(events(writer::emit(l, flat(t)), ws, cdata), t);
    /// It is longer than the names and texts in it.
    pub axiom fn ax_written_len(l: writer::Layout, t: Tree) requires clean(t), named(t) ensures writer::emit(l, flat(t)).len() >= weight(t);
    pub open spec fn weight(t: Tree) -> nat decreases t { match t { Tree::Leaf(n, _, s) => n.len() + n.len() + s.len(), Tree::Node(n, _, k) => n.len() + weights(k) } }
    pub open spec fn weights(k: Seq<Tree>) -> nat decreases k { if k.len() == 0 { 0 } else { weights(k.drop_last()) + weight(k.last()) } }
    pub mod reader {
        use vstd::prelude::*;
        use super::Ev;
        #[verifier::external_body] pub struct Error { o: u8 }
        impl crate::vx::fmt::VDisplay for Error { uninterp spec fn disp(&self) -> Seq<char>; }
        #[verifier::external_body] pub struct ParserConfig { o: u8 }
        impl ParserConfig {
            pub uninterp spec fn ws(&self) -> bool;
            pub uninterp spec fn cdata(&self) -> bool;
            #[verifier::external_body] pub fn new() -> (r: ParserConfig) ensures !r.ws(), !r.cdata() { unimplemented!() }
            #[verifier::external_body] pub fn whitespace_to_characters(self, b: bool) -> (r: ParserConfig) ensures r.ws() == b, r.cdata() == self.cdata() { unimplemented!() }
            #[verifier::external_body] pub fn cdata_to_characters(self, b: bool) -> (r: ParserConfig) ensures r.ws() == self.ws(), r.cdata() == b { unimplemented!() }
        }
        #[allow(inconsistent_fields)] pub enum XmlEvent {
            StartDocument { o: u8 },
            EndDocument,
            ProcessingInstruction { name: String, data: Option<String> },
            StartElement { name: super::name::OwnedName, attributes: Vec<super::attribute::OwnedAttribute>, namespace: u8 },
            EndElement { name: super::name::OwnedName },
            CData(String),
            Comment(String),
            Characters(String),
            Whitespace(String),
        }
        pub open spec fn ev(e: XmlEvent) -> Ev {
            match e {
                XmlEvent::EndDocument => Ev::EndDoc,
                XmlEvent::StartElement { name, attributes, .. } => Ev::Start(name.local_name@, super::attribute::attrs(attributes@)),
                XmlEvent::EndElement { name } => Ev::End(name.local_name@),
                XmlEvent::Characters(s) => Ev::Text(s@),
                _ => Ev::Other,
            }
        }
        #[verifier::external_body] #[verifier::reject_recursive_types(R)] pub struct EventReader<R> { o: core::marker::PhantomData<R> }
        impl<R: crate::vx::io::Io> EventReader<R> {
            /// The events to come, up to the first error or the document's end (EndDoc is the last if it is there).
            pub uninterp spec fn ahead(&self) -> Seq<Ev>;
            /// The names of the elements started and not ended.
            pub uninterp spec fn open(&self) -> Seq<Seq<char>>;
            #[verifier::external_body] pub fn new_with_config(source: R, config: ParserConfig) -> (r: EventReader<R>)
                ensures r.open().len() == 0, source.fault() is None ==> r.ahead() == super::events(source.rest(), config.ws(), config.cdata()) { unimplemented!() }
            #[verifier::external_body] pub fn new(source: R) -> (r: EventReader<R>)
                ensures r.open().len() == 0, source.fault() is None ==> r.ahead() == super::events(source.rest(), false, false) { unimplemented!() }
            /// Elements nest, the document ends when all are ended, and errors and the end repeat.
            #[verifier::external_body] pub fn next(&mut self) -> (r: core::result::Result<XmlEvent, Error>)
                ensures
                    r is Err <==> old(self).ahead().len() == 0,
                    r is Err ==> final(self).ahead() == old(self).ahead() && final(self).open() == old(self).open(),
                    r matches Ok(e) ==> ev(e) == old(self).ahead()[0],
                    r matches Ok(e) ==> final(self).ahead() == (if e is EndDocument { old(self).ahead() } else { old(self).ahead().skip(1) }),
                    r matches Ok(e) ==> final(self).open() == (match ev(e) { Ev::Start(n, _) => old(self).open().push(n), Ev::End(_) => old(self).open().drop_last(), _ => old(self).open() }),
                    r matches Ok(e) ==> (ev(e) matches Ev::End(n) ==> old(self).open().len() > 0 && old(self).open().last() == n),
                    r matches Ok(XmlEvent::EndDocument) ==> old(self).open().len() == 0,
            { unimplemented!() }
            #[verifier::external_body] pub fn position(&self) -> super::common::TextPosition { unimplemented!() }
        }
    }
    pub mod writer {
        use vstd::prelude::*;
        use super::{Ev, Attrs, Tree, flat, flats, clean, cleans, clean_attrs, is_text};
        use crate::vx::io::{Io, Write, gave};
        #[verifier::external_body] pub struct Error { o: u8 }
        impl crate::vx::fmt::VDisplay for Error { uninterp spec fn disp(&self) -> Seq<char>; }
        pub ghost struct Layout { pub indent: bool, pub by: Seq<char> }
        #[verifier::external_body] pub struct EmitterConfig { o: u8 }
        impl EmitterConfig {
            pub uninterp spec fn layout(&self) -> Layout;
            #[verifier::external_body] pub fn new() -> (r: EmitterConfig) ensures r.layout() == (Layout { indent: false, by: "  "@ }) { unimplemented!() }
            #[verifier::external_body] pub fn perform_indent(self, b: bool) -> (r: EmitterConfig) ensures r.layout() == (Layout { indent: b, ..self.layout() }) { unimplemented!() }
            #[verifier::external_body] pub fn indent_string(self, s: &str) -> (r: EmitterConfig) ensures r.layout() == (Layout { by: s@, ..self.layout() }) { unimplemented!() }
        }
        pub trait IntoEv { spec fn into_ev(&self, open: Seq<Seq<char>>) -> Ev; }
        impl IntoEv for &str { open spec fn into_ev(&self, open: Seq<Seq<char>>) -> Ev { Ev::Text(self@) } }
        #[verifier::external_body] pub struct StartElementBuilder<'a> { o: &'a str }
        impl<'a> StartElementBuilder<'a> {
            pub uninterp spec fn name(&self) -> Seq<char>;
            pub uninterp spec fn attrs(&self) -> Attrs;
            #[verifier::external_body] pub fn attr(self, n: &'a str, v: &'a str) -> (r: StartElementBuilder<'a>) ensures r.name() == self.name(), r.attrs() == self.attrs().push((n@, v@)) { unimplemented!() }
        }
        impl<'a> IntoEv for StartElementBuilder<'a> { open spec fn into_ev(&self, open: Seq<Seq<char>>) -> Ev { Ev::Start(self.name(), self.attrs()) } }
        pub struct EndElementBuilder { pub o: u8 }
        impl IntoEv for EndElementBuilder { open spec fn into_ev(&self, open: Seq<Seq<char>>) -> Ev { Ev::End(open.last()) } }
        pub struct XmlEvent { pub o: u8 }
        impl XmlEvent {
            #[verifier::external_body] pub fn start_element<'a>(n: &'a str) -> (r: StartElementBuilder<'a>) ensures r.name() == n@, r.attrs() == Seq::<(Seq<char>, Seq<char>)>::empty() { unimplemented!() }
            #[verifier::external_body] pub fn end_element() -> (r: EndElementBuilder) { unimplemented!() }
        }
        /// The bytes an event adds after those before it.
        pub uninterp spec fn delta(l: Layout, before: Seq<Ev>, e: Ev) -> Seq<u8>;
        pub open spec fn emit(l: Layout, evs: Seq<Ev>) -> Seq<u8> { more(l, seq![], evs) }
        /// The same for several events.
        pub open spec fn more(l: Layout, before: Seq<Ev>, evs: Seq<Ev>) -> Seq<u8> decreases evs.len() {
            if evs.len() == 0 { seq![] } else { more(l, before, evs.drop_last()) + delta(l, before + evs.drop_last(), evs.last()) }
        }
        pub proof fn lemma_more(l: Layout, before: Seq<Ev>, x: Seq<Ev>, y: Seq<Ev>)
            ensures more(l, before, x + y) == more(l, before, x) + more(l, before + x, y)
            decreases y.len()
        {
            if y.len() == 0 { assert(x + y =~= x); assert(more(l, before, x) + more(l, before + x, y) =~= more(l, before, x)); } else {
                lemma_more(l, before, x, y.drop_last());
                assert((x + y).drop_last() =~= x + y.drop_last());
                assert(before + (x + y.drop_last()) =~= before + x + y.drop_last());
                assert(more(l, before, x + y) =~= more(l, before, x) + more(l, before + x, y));
            }
        }
        /// What was written from a to b. The parts below are combined by the lemmas that follow.
        #[verifier::opaque] #[verifier::prophetic] pub open spec fn wrote<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, evs: Seq<Ev>) -> bool {
            &&& b.emitter.layout() == a.emitter.layout() && b.emitter.written() =~= a.emitter.written() + evs
            &&& gave(&a.sink, &b.sink, more(a.emitter.layout(), a.emitter.written(), evs))
        }
        pub proof fn lemma_wrote<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, c: &EventWriter<W>, x: Seq<Ev>, y: Seq<Ev>)
            requires wrote(a, b, x), wrote(b, c, y)
            ensures wrote(a, c, x + y)
        { reveal(wrote); lemma_more(a.emitter.layout(), a.emitter.written(), x, y); }
        #[verifier::opaque] #[verifier::prophetic] pub open spec fn did<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, e: Ev) -> bool {
            &&& wrote(a, b, seq![e])
            &&& match e {
                Ev::Start(n, _) => b.emitter.open() == a.emitter.open().push(n),
                Ev::End(n) => a.emitter.open().len() > 0 && n == a.emitter.open().last() && b.emitter.open() == a.emitter.open().drop_last(),
                _ => b.emitter.open() == a.emitter.open(),
            }
        }
        /// A whole element.
        #[verifier::opaque] #[verifier::prophetic] pub open spec fn put<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, t: Tree) -> bool {
            wrote(a, b, flat(t)) && b.emitter.open() == a.emitter.open() && clean(t)
        }
        /// An element not ended yet, with these elements in it.
        #[verifier::opaque] #[verifier::prophetic] pub open spec fn within<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, n: Seq<char>, at: Attrs, k: Seq<Tree>) -> bool {
            wrote(a, b, seq![Ev::Start(n, at)] + flats(k)) && b.emitter.open() == a.emitter.open().push(n) && clean_attrs(at) && cleans(k)
        }
        /// An element not ended yet, with text in it.
        #[verifier::opaque] #[verifier::prophetic] pub open spec fn intext<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, n: Seq<char>, at: Attrs, s: Seq<char>) -> bool {
            wrote(a, b, seq![Ev::Start(n, at), Ev::Text(s)]) && b.emitter.open() == a.emitter.open().push(n) && clean_attrs(at) && is_text(s)
        }
        #[verifier::opaque] #[verifier::prophetic] pub open spec fn texted<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, s: Seq<char>) -> bool {
            wrote(a, b, seq![Ev::Text(s)]) && b.emitter.open() == a.emitter.open() && is_text(s)
        }
        #[verifier::opaque] #[verifier::prophetic] pub open spec fn ended<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>) -> bool {
            a.emitter.open().len() > 0 && wrote(a, b, seq![Ev::End(a.emitter.open().last())]) && b.emitter.open() == a.emitter.open().drop_last()
        }
        pub broadcast proof fn lemma_did<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, e: Ev)
            requires #[trigger] did(a, b, e)
            ensures match e { Ev::Start(n, at) => clean_attrs(at) ==> within(a, b, n, at, seq![]), Ev::End(n) => ended(a, b), Ev::Text(s) => is_text(s) ==> texted(a, b, s), _ => true }
        { reveal(did); reveal(within); reveal(ended); reveal(texted); assert(forall|x: Ev| #![auto] seq![x] + flats(seq![]) =~= seq![x]); }
        pub broadcast proof fn lemma_kid<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, c: &EventWriter<W>, n: Seq<char>, at: Attrs, k: Seq<Tree>, t: Tree)
            requires #[trigger] within(a, b, n, at, k), #[trigger] put(b, c, t)
            ensures within(a, c, n, at, k.push(t))
        {
            reveal(within); reveal(put);
            let s = seq![Ev::Start(n, at)];
            lemma_wrote(a, b, c, s + flats(k), flat(t));
            assert(k.push(t).drop_last() =~= k);
            assert(s + flats(k) + flat(t) =~= s + flats(k.push(t)));
        }
        pub broadcast proof fn lemma_texted<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, c: &EventWriter<W>, n: Seq<char>, at: Attrs, s: Seq<char>)
            requires #[trigger] within(a, b, n, at, seq![]), #[trigger] texted(b, c, s)
            ensures intext(a, c, n, at, s)
        {
            reveal(within); reveal(texted); reveal(intext);
            let x = seq![Ev::Start(n, at)];
            lemma_wrote(a, b, c, x + flats(seq![]), seq![Ev::Text(s)]);
            assert(x + flats(seq![]) + seq![Ev::Text(s)] =~= seq![Ev::Start(n, at), Ev::Text(s)]);
        }
        pub broadcast proof fn lemma_close<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, c: &EventWriter<W>, n: Seq<char>, at: Attrs, k: Seq<Tree>)
            requires #[trigger] within(a, b, n, at, k), #[trigger] ended(b, c)
            ensures put(a, c, Tree::Node(n, at, k))
        {
            reveal(within); reveal(ended); reveal(put);
            let s = seq![Ev::Start(n, at)] + flats(k);
            lemma_wrote(a, b, c, s, seq![Ev::End(b.emitter.open().last())]);
            assert(b.emitter.open().last() == n);
            assert(b.emitter.open().drop_last() =~= a.emitter.open());
            assert(s + seq![Ev::End(n)] =~= flat(Tree::Node(n, at, k)));
        }
        pub broadcast proof fn lemma_close_text<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, c: &EventWriter<W>, n: Seq<char>, at: Attrs, s: Seq<char>)
            requires #[trigger] intext(a, b, n, at, s), #[trigger] ended(b, c)
            ensures put(a, c, Tree::Leaf(n, at, s))
        {
            reveal(intext); reveal(ended); reveal(put);
            let x = seq![Ev::Start(n, at), Ev::Text(s)];
            lemma_wrote(a, b, c, x, seq![Ev::End(b.emitter.open().last())]);
            assert(b.emitter.open().last() == n);
            assert(b.emitter.open().drop_last() =~= a.emitter.open());
            assert(x + seq![Ev::End(n)] =~= flat(Tree::Leaf(n, at, s)));
        }
        pub broadcast group group_writing { lemma_did, lemma_kid, lemma_texted, lemma_close, lemma_close_text }
        #[verifier::external_body] pub struct Emitter { o: u8 }
        pub struct EventWriter<W> { pub sink: W, pub emitter: Emitter }
        impl Emitter {
            pub uninterp spec fn layout(&self) -> Layout;
            pub uninterp spec fn written(&self) -> Seq<Ev>;
            pub uninterp spec fn open(&self) -> Seq<Seq<char>>;
        }
        impl<W: Write> EventWriter<W> {
            #[verifier::external_body] pub fn new_with_config(sink: W, config: EmitterConfig) -> (r: EventWriter<W>)
                ensures r.sink == sink, r.emitter.written() == Seq::<Ev>::empty(), r.emitter.open() == Seq::<Seq<char>>::empty(), r.emitter.layout() == config.layout() { unimplemented!() }
            /// All of an event's bytes are written or it is an error; an element is ended under the name it was started with.
            #[verifier::external_body] pub fn write<E: IntoEv>(&mut self, e: E) -> (r: core::result::Result<(), Error>)
                ensures
                    r is Ok ==> did(old(self), final(self), e.into_ev(old(self).emitter.open())),
            { unimplemented!() }
        }
    }
}
} // vx
pub use crate::vx::rust_crypto;
