# values in the document and the tags around them: C01, C03, C08, C15, C18
@module format::xml
@top
use crate::rust_crypto::symmetriccipher::SynchronousStreamCipher;
use crate::vx::xml::{Ev, Attrs, Tree, flat, flats};
use crate::vx::xml::attribute::attrs as attrs_of;
use crate::vx::io::{Io, gave};
use crate::vx::{lower, all_in, encode_utf8, decode_utf8, valid_utf8, xored};
use crate::vx::base64::{b64, unb64};
use crate::vx::chrono::time_of;
use crate::vx::flate2::{gunzip, gz};
use crate::vx::fmt::{dec_i32, debug_text};
use crate::types::color::{is_color, color_of, color_text};
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::is_key_of;
use crate::vx::xml::stays_at;
use crate::vx::xml::writer::{put, within, intext, texted, ended};
broadcast use {crate::vx::xml::lemma_stays_same, crate::vx::xml::writer::group_writing};
/// A keystream.
pub type Ks = spec_fn(int) -> u8;

// ---- what reading a value takes from the events to come ----
/// A value and the events left, or nothing if reading fails.
pub type Got<T> = Option<(T, Seq<Ev>)>;
/// The text of an element just started, if it has any.
pub open spec fn text(ev: Seq<Ev>) -> Got<Option<Seq<char>>> {
    if ev.len() == 0 { None } else {
        match ev[0] { Ev::Text(s) => Some((Some(s), ev.skip(1))), Ev::EndDoc => None, _ => Some((None, ev.skip(1))) }
    }
}
pub open spec fn string(ev: Seq<Ev>) -> Got<Seq<char>> {
    match text(ev) { Some((Some(s), e)) => Some((s, e)), Some((None, e)) => Some((seq![], e)), None => None }
}
pub open spec fn white() -> Seq<char> { seq![' ', '\t', '\n', '\r'] }
/// The same, blank counting as nothing.
pub open spec fn value(ev: Seq<Ev>) -> Got<Option<Seq<char>>> {
    match text(ev) { Some((Some(s), e)) => Some((if all_in(s, white()) { None } else { Some(s) }, e)), g => g }
}
pub open spec fn need<T>(g: Got<Option<T>>) -> Got<T> { match g { Some((Some(v), e)) => Some((v, e)), _ => None } }
pub open spec fn bin_opt(ev: Seq<Ev>) -> Got<Option<Seq<u8>>> {
    match value(ev) { Some((Some(s), e)) => match unb64(s) { Some(d) => Some((Some(d), e)), None => None }, Some((None, e)) => Some((None, e)), None => None }
}
pub open spec fn bin(ev: Seq<Ev>) -> Got<Seq<u8>> {
    match bin_opt(ev) { Some((Some(d), e)) => Some((d, e)), Some((None, e)) => Some((seq![], e)), None => None }
}
pub open spec fn zipped(ev: Seq<Ev>) -> Got<Seq<u8>> {
    match bin_opt(ev) { Some((Some(d), e)) => match gunzip(d) { Some(x) => Some((x, e)), None => None }, Some((None, e)) => Some((seq![], e)), None => None }
}
pub open spec fn bool_opt(ev: Seq<Ev>) -> Got<Option<bool>> {
    match value(ev) {
        Some((Some(s), e)) => if lower(s) == "false"@ { Some((Some(false), e)) } else if lower(s) == "null"@ { Some((None, e)) }
            else if lower(s) == "true"@ { Some((Some(true), e)) } else { None },
        Some((None, e)) => Some((None, e)),
        None => None,
    }
}
pub open spec fn boolean(ev: Seq<Ev>) -> Got<bool> { need(bool_opt(ev)) }
pub open spec fn color_opt(ev: Seq<Ev>) -> Got<Option<Color>> {
    match value(ev) { Some((Some(s), e)) => if is_color(s) { Some((Some(color_of(s)), e)) } else { None }, Some((None, e)) => Some((None, e)), None => None }
}
pub open spec fn datetime(ev: Seq<Ev>) -> Got<DateTime<Utc>> {
    match value(ev) { Some((Some(s), e)) => match time_of(s) { Some(t) => Some((t, e)), None => None }, _ => None }
}
pub open spec fn i32_opt(ev: Seq<Ev>) -> Got<Option<i32>> {
    match value(ev) { Some((Some(s), e)) => match crate::vx::i32_of(s) { Some(n) => Some((Some(n), e)), None => None }, Some((None, e)) => Some((None, e)), None => None }
}
pub open spec fn int32(ev: Seq<Ev>) -> Got<i32> { need(i32_opt(ev)) }
pub open spec fn icon(ev: Seq<Ev>) -> Got<int> { match i32_opt(ev) { Some((Some(n), e)) => if 0 <= n <= 68 { Some((n as int, e)) } else { None }, _ => None } }
pub open spec fn obfuscation(ev: Seq<Ev>) -> Got<int> { match i32_opt(ev) { Some((Some(n), e)) => if 0 <= n <= 1 { Some((n as int, e)) } else { None }, _ => None } }
pub open spec fn uuid_opt(ev: Seq<Ev>) -> Got<Option<Seq<u8>>> {
    match bin_opt(ev) { Some((Some(d), e)) => if d.len() == 16 { Some((Some(d), e)) } else { None }, Some((None, e)) => Some((None, e)), None => None }
}
pub open spec fn uuid(ev: Seq<Ev>) -> Got<Seq<u8>> { need(uuid_opt(ev)) }
/// The value of the first attribute of that name, in any letter case.
pub open spec fn attr_val(a: Attrs, name: Seq<char>) -> Option<Seq<char>> decreases a.len() {
    if a.len() == 0 { None } else if lower(a[0].0) == lower(name) { Some(a[0].1) } else { attr_val(a.skip(1), name) }
}
/// An attribute that says true or false, in any letter case; absent means false.
pub open spec fn flag(a: Attrs, name: Seq<char>) -> Option<bool> {
    match attr_val(a, name) { None => Some(false), Some(v) => if lower(v) == "true"@ { Some(true) } else if lower(v) == "false"@ { Some(false) } else { None } }
}
/// The value of a string or binary of an entry.
pub ghost enum VStr { Plain(Seq<char>), Protected(Seq<u8>) }
pub ghost enum VBin { Plain(Seq<u8>), Protected(Seq<u8>), Ref(Seq<char>) }
pub open spec fn vstr(v: StringValue) -> VStr { match v { StringValue::Plain(s) => VStr::Plain(s@), StringValue::Protected(x) => VStr::Protected(x@) } }
pub open spec fn vbin(v: BinaryValue) -> VBin { match v { BinaryValue::Plain(d) => VBin::Plain(d@), BinaryValue::Protected(x) => VBin::Protected(x@), BinaryValue::Ref(i) => VBin::Ref(i.0@) } }
/// A value, the events left and how far the keystream has been used.
pub type Got2<T> = Option<(T, Seq<Ev>, int)>;
/// C08: what is marked protected is what was stored XORed with the next piece of the keystream; everything else is stored as it is and uses none.
pub open spec fn string_value(ev: Seq<Ev>, a: Attrs, ks: Ks, pos: int) -> Got2<VStr> {
    match (flag(a, "protectinmemory"@), flag(a, "protected"@)) {
        (Some(pmem), Some(pxml)) =>
            if pxml {
                match bin(ev) {
                    Some((d, e)) => { let p = xored(d, ks, pos); if valid_utf8(p) { Some((VStr::Protected(p), e, pos + d.len())) } else { None } },
                    None => None,
                }
            } else {
                match string(ev) { Some((s, e)) => Some((if pmem { VStr::Protected(encode_utf8(s)) } else { VStr::Plain(s) }, e, pos)), None => None }
            },
        _ => None,
    }
}
pub open spec fn binary_value(ev: Seq<Ev>, a: Attrs, ks: Ks, pos: int) -> Got2<VBin> {
    match flag(a, "protected"@) {
        None => None,
        Some(protected) => match attr_val(a, "ref"@) {
            Some(s) => Some((VBin::Ref(s), ev, pos)),
            None => match bin(ev) {
                Some((d, e)) => if protected { Some((VBin::Protected(xored(d, ks, pos)), e, pos + d.len())) } else { Some((VBin::Plain(d), e, pos)) },
                None => None,
            },
        },
    }
}
pub open spec fn stays<R: Io>(a: &EventReader<R>, b: &EventReader<R>) -> bool { stays_at(a.ahead(), a.open(), b.ahead(), b.open()) }
pub open spec fn vec_opt(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn str_opt(o: Option<String>) -> Option<Seq<char>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn uuid_bytes(o: Option<Uuid>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
// ---- what is written ----
pub use crate::vx::xml::{is_text, xml_char};
pub open spec fn bool_text(b: Option<bool>) -> Seq<char> { match b { Some(true) => "true"@, Some(false) => "false"@, None => "null"@ } }
pub open spec fn color_tree(tag: Seq<char>, c: Option<Color>) -> Tree { match c { Some(c) => Tree::Leaf(tag, seq![], color_text(c)), None => Tree::Node(tag, seq![], seq![]) } }
pub open spec fn icon_tree(tag: Seq<char>, c: Option<CustomIconUuid>) -> Tree { match c { Some(u) => Tree::Leaf(tag, seq![], b64(u.0@)), None => Tree::Node(tag, seq![], seq![]) } }
@fn read_string_opt
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match text(old(reader).ahead()) { Some((v, e)) => r is Ok && str_opt(r->Ok_0) == v && final(reader).ahead() == e, None => r is Err && final(reader).ahead() == old(reader).ahead() },
        stays(old(reader), final(reader)),
@start
    proof { reveal(stays_at); }
@fn read_value_opt
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match value(old(reader).ahead()) { Some((v, e)) => r is Ok && str_opt(r->Ok_0) == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_err
@props C03
@ret r
@spec
    ensures
        r is Err, final(reader).ahead() == old(reader).ahead(), final(reader).open() == old(reader).open(), stays(old(reader), final(reader)),
@start
    proof { reveal(stays_at); }
@fn read_string
@props C18 C01 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match string(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0@ == v && final(reader).ahead() == e, None => r is Err && final(reader).ahead() == old(reader).ahead() },
        stays(old(reader), final(reader)),
@fn read_string_key
@props C18 C15
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match string(old(reader).ahead()) { Some((v, e)) => r is Ok && is_key_of(r->Ok_0, v) && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_binary_key
@props C18
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match string(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0.0@ == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_binary_opt
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match bin_opt(old(reader).ahead()) { Some((v, e)) => r is Ok && vec_opt(r->Ok_0) == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_binary
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match bin(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0@ == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_gzip
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match zipped(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0@ == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_bool_opt
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match bool_opt(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0 == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@start
        broadcast use crate::vx::lemmas::ax_str_ext;
@fn read_bool
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match boolean(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0 == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_color_opt
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match color_opt(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0 == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_datetime
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match datetime(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0 == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_i32_opt
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match i32_opt(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0 == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_i32
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match int32(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0 == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_icon
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match icon(old(reader).ahead()) { Some((v, e)) => r is Ok && icon_num(r->Ok_0) == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_obfuscation
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match obfuscation(old(reader).ahead()) { Some((v, e)) => r is Ok && obf_num(r->Ok_0) == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_uuid_opt
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match uuid_opt(old(reader).ahead()) { Some((v, e)) => r is Ok && uuid_bytes(r->Ok_0) == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_uuid
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match uuid(old(reader).ahead()) { Some((v, e)) => r is Ok && r->Ok_0@ == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn read_custom_icon_uuid_opt
@props C18 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        match uuid_opt(old(reader).ahead()) { Some((v, e)) => r is Ok && (match r->Ok_0 { Some(u) => Some(u.0@), None => None }) == v && final(reader).ahead() == e, None => r is Err },
        stays(old(reader), final(reader)),
@fn search_attr_value
@attr #[verifier::loop_isolation(false)]
@props C08 C18
@ret r
@eq str
@spec
    ensures str_opt(r) == attr_val(attrs_of(attrs@), name@),
@start
    proof { assert(attrs_of(attrs@).skip(0) =~= attrs_of(attrs@)); }
@loop 0 it
        invariant attr_val(attrs_of(attrs@), name@) == attr_val(attrs_of(attrs@).skip(it.index@), name@),
@loopstart 0
        proof { assert(attrs_of(attrs@).skip(it.index@)[0] == attrs_of(attrs@)[it.index@]); assert(attrs_of(attrs@).skip(it.index@).skip(1) =~= attrs_of(attrs@).skip(it.index@ + 1)); }
@fn get_protect_in_memory_attr_value
@props C08 C18
@ret r
@spec
    ensures
        match flag(attrs_of(attrs@), "protectinmemory"@) { Some(b) => r is Ok && r->Ok_0 == b, None => r is Err },
        final(reader).ahead() == old(reader).ahead(), final(reader).open() == old(reader).open(),
@fn get_protected_attr_value
@props C08 C18
@ret r
@spec
    ensures
        match flag(attrs_of(attrs@), "protected"@) { Some(b) => r is Ok && r->Ok_0 == b, None => r is Err },
        final(reader).ahead() == old(reader).ahead(), final(reader).open() == old(reader).open(),
@fn read_string_value_opt
@props C08 C18 C01 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match string_value(old(reader).ahead(), attrs_of(attrs@), old(cipher).ks(), old(cipher).pos()) {
            Some((v, e, p)) => r is Ok && r->Ok_0 is Some && vstr(r->Ok_0->Some_0) == v && final(reader).ahead() == e && final(cipher).pos() == p,
            None => r is Err,
        }, //@C08 @C18
        stays(old(reader), final(reader)),
@start
        proof {
            let e = seq![]; let ks = cipher.ks(); let p = cipher.pos();
            assert(xored(e, ks, p) =~= e); reveal_strlit(""); assert(""@ =~= seq![]); assert(encode_utf8(seq![]) =~= e) by (compute);
        }
        broadcast use vstd::utf8::group_utf8_lib, crate::vx::ax_text_of;
@fn read_binary_value_opt
@props C08 C18 C01 C03
@ret r
@spec
    requires old(reader).open().len() > 0,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match binary_value(old(reader).ahead(), attrs_of(attrs@), old(cipher).ks(), old(cipher).pos()) {
            Some((v, e, p)) => r is Ok && r->Ok_0 is Some && vbin(r->Ok_0->Some_0) == v && final(reader).ahead() == e && final(cipher).pos() == p,
            None => r is Err,
        }, //@C08 @C18
        stays(old(reader), final(reader)),
@start
        proof { assert(xored(seq![], cipher.ks(), cipher.pos()) =~= seq![]); }

# ---- what is written for a value ----
@fn check_text
@attr #[verifier::loop_isolation(false)]
@props C01 C03
@ret r
@spec
    ensures
        r is Ok <==> is_text(text@),
@loop 0 it
        invariant it.seq() == text@, forall|i: int| 0 <= i < it.index@ ==> xml_char(#[trigger] text@[i]),
@fn write_binary
@props C01 C08
@ret r
@spec
    ensures
        r is Ok ==> texted(old(writer), final(writer), b64(data@)),
@fn write_binary_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), Tree::Leaf(tag@, seq![], b64(value@))),
@fn write_bool_opt_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), Tree::Leaf(tag@, seq![], bool_text(*value))),
@fn write_bool_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), Tree::Leaf(tag@, seq![], bool_text(Some(value)))),
@fn write_color_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), color_tree(tag@, *value)),
@fn write_custom_icon_uuid_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), icon_tree(tag@, *value)),
@fn write_datetime_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), Tree::Leaf(tag@, seq![], debug_text(value))),
@start
    proof { crate::vx::fmt::ax_debug_ref(value); }
@fn write_end_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> ended(old(writer), final(writer)),
@fn write_gzip
@props C01
@ret r
@spec
    ensures
        r is Ok ==> texted(old(writer), final(writer), b64(gz(data@))),
@fn write_i32_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), Tree::Leaf(tag@, seq![], dec_i32(value))),
@fn write_null_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), Tree::Node(tag@, seq![], seq![])),
@fn write_start_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> within(old(writer), final(writer), tag@, seq![], seq![]),
@fn write_string
@props C01
@ret r
@spec
    ensures
        r is Ok ==> texted(old(writer), final(writer), value@),
@fn write_string_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), Tree::Leaf(tag@, seq![], value@)),
@fn write_uuid_tag
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), Tree::Leaf(tag@, seq![], b64(uuid@))),
