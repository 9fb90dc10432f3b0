# key files: C14, C05, C17
@module format::kf_reader
@top
use crate::vx::xml::{Ev, Attrs, events, stays_at, inside, group_inside};
use crate::vx::xml::reader::ev;
use crate::vx::io::{Io, took, failed};
use crate::vx::hex::{is_hex, unhex};
use crate::format::xml::{Got, string, bin, stays};
/// The key in a Key element whose content begins ev, and the events after the element.
pub open spec fn data_from(ev: Seq<Ev>, st: Option<Seq<u8>>) -> Got<Option<Seq<u8>>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => if n == "Data"@ { match bin(ev.skip(1)) { Some((v, e)) => if e.len() < ev.len() { data_from(e, Some(v)) } else { None }, None => None } } else { data_from(ev.skip(1), st) },
            Ev::End(n) => if n == "Key"@ { Some((st, ev.skip(1))) } else { data_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => data_from(ev.skip(1), st),
        }
    }
}
/// What follows a Meta element whose content begins ev, if every version it states is 1.00.
pub open spec fn version_from(ev: Seq<Ev>) -> Option<Seq<Ev>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => if n == "Version"@ { match string(ev.skip(1)) { Some((v, e)) => if v == "1.00"@ && e.len() < ev.len() { version_from(e) } else { None }, None => None } } else { version_from(ev.skip(1)) },
            Ev::End(n) => if n == "Meta"@ { Some(ev.skip(1)) } else { version_from(ev.skip(1)) },
            Ev::EndDoc => None,
            _ => version_from(ev.skip(1)),
        }
    }
}
pub open spec fn keys_from(ev: Seq<Ev>, st: Option<Seq<u8>>) -> Got<Option<Seq<u8>>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) =>
                if n == "Key"@ { match data_from(ev.skip(1), None) { Some((Some(k), e)) => if e.len() < ev.len() { keys_from(e, Some(k)) } else { None }, _ => None } }
                else if n == "Meta"@ { match version_from(ev.skip(1)) { Some(e) => if e.len() < ev.len() { keys_from(e, st) } else { None }, None => None } }
                else { keys_from(ev.skip(1), st) },
            Ev::End(n) => if n == "KeyFile"@ { Some((st, ev.skip(1))) } else { keys_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => keys_from(ev.skip(1), st),
        }
    }
}
pub open spec fn file_from(ev: Seq<Ev>, st: Option<Seq<u8>>) -> Option<Seq<u8>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) =>
                if n == "KeyFile"@ { match keys_from(ev.skip(1), None) { Some((Some(k), e)) => if e.len() < ev.len() { file_from(e, Some(k)) } else { None }, _ => None } }
                else { file_from(ev.skip(1), st) },
            Ev::EndDoc => st,
            _ => file_from(ev.skip(1), st),
        }
    }
}
/// C14: what a key file of these bytes is.
pub open spec fn key_file(s: Seq<u8>) -> Option<(KeyFileType, Seq<u8>)> {
    if s.len() == 32 { Some((KeyFileType::Binary, s)) }
    else if s.len() == 64 { if is_hex(s) { Some((KeyFileType::Hex, unhex(s))) } else { None } }
    else { match file_from(events(s, false, false), None) { Some(k) => Some((KeyFileType::Xml, k)), None => None } }
}
pub open spec fn is(k: KeyFile, v: (KeyFileType, Seq<u8>)) -> bool { k.file_type == v.0 && k.key@ == v.1 }
pub open spec fn sec_opt(o: Option<SecStr>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }
@fn read
@props C14 C03 C04
@ret r
@spec
    ensures
        match r {
            Ok(k) => old(reader).fault() is None && (key_file(old(reader).rest()) matches Some(v) && is(k, v)),
            Err(e) => (e matches Error::Io(x) && failed(old(reader), x)) || key_file(old(reader).rest()) is None,
        }, //@C14
@fn read_binary
@props C14
@ret r
@spec
    ensures r matches Ok(k) && is(k, (KeyFileType::Binary, data@)),
@fn read_hex
@props C14
@ret r
@spec
    ensures
        is_hex(data@) ==> (r matches Ok(k) && is(k, (KeyFileType::Hex, unhex(data@)))),
        !is_hex(data@) ==> r is Err,
@fn read_xml
@props C14 C03
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@eq str
@spec
    requires old(reader).fault() is None,
    ensures
        match file_from(events(old(reader).rest(), false, false), None) { Some(k) => r matches Ok(f) && is(f, (KeyFileType::Xml, k)), None => r is Err },
@start
    broadcast use crate::vx::lemmas::ax_str_ext;
    let ghost all = events(reader.rest(), false, false);
@loop 0
        invariant_except_break
            file_from(all, None) == file_from(reader.ahead(), sec_opt(opt_key)),
        ensures
            file_from(all, None) == sec_opt(opt_key),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_inside};
@fn read_xml_key_file
@props C14 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "KeyFile"@,
    ensures
        match keys_from(old(reader).ahead(), None) { Some((Some(k), e)) => r is Ok && r->Ok_0@ == k && final(reader).ahead() == e, _ => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_inside};
@loop 0
        invariant_except_break
            keys_from(old(reader).ahead(), None) == keys_from(reader.ahead(), sec_opt(opt_key)),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "KeyFile"@,
        ensures
            keys_from(old(reader).ahead(), None) == Some((sec_opt(opt_key), reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_inside};
@fn read_xml_meta
@props C14 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Meta"@,
    ensures
        match version_from(old(reader).ahead()) { Some(e) => r is Ok && final(reader).ahead() == e, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_inside};
@loop 0
        invariant_except_break
            version_from(old(reader).ahead()) == version_from(reader.ahead()),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Meta"@,
        ensures
            version_from(old(reader).ahead()) == Some(reader.ahead()), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_inside};
@fn read_xml_key
@props C14 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Key"@,
    ensures
        match data_from(old(reader).ahead(), None) { Some((Some(k), e)) => r is Ok && r->Ok_0@ == k && final(reader).ahead() == e, _ => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_inside};
@loop 0
        invariant_except_break
            data_from(old(reader).ahead(), None) == data_from(reader.ahead(), sec_opt(opt_key)),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Key"@,
        ensures
            data_from(old(reader).ahead(), None) == Some((sec_opt(opt_key), reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_inside};
@module format::kf_writer
@top
use crate::vx::hex;
use crate::vx::io::{Io, gave};
use crate::vx::xml::{Ev, Tree, flat};
use crate::format::kdb2_xml_writer::{layout, lemma_put};
use crate::vx::xml::writer::{Layout, emit, put, wrote, group_writing};
use crate::vx::hex::hex_text;
use crate::vx::base64::b64;
use crate::vx::utf8;
/// The document of a key.
pub open spec fn key_tree(k: Seq<u8>) -> Tree {
    let meta = Tree::Node("Meta"@, seq![], Seq::<Tree>::empty().push(Tree::Leaf("Version"@, seq![], "1.00"@)));
    let key = Tree::Node("Key"@, seq![], Seq::<Tree>::empty().push(Tree::Leaf("Data"@, seq![], b64(k))));
    Tree::Node("KeyFile"@, seq![], Seq::<Tree>::empty().push(meta).push(key))
}
/// The bytes of a key file.
pub open spec fn saved(kind: KeyFileType, k: Seq<u8>) -> Seq<u8> {
    match kind { KeyFileType::Binary => k, KeyFileType::Hex => utf8(hex_text(k)), KeyFileType::Xml => emit(layout(), flat(key_tree(k))) }
}
@fn write
@props C14 C05
@ret r
@spec
    ensures r is Ok ==> (*final(writer)).out() == (*old(writer)).out() + saved(key.file_type, key.key@), //@C14 @C05
@fn write_binary
@props C14 C05
@ret r
@spec
    ensures r is Ok ==> (*final(writer)).out() == (*old(writer)).out() + key.key@, //@C14 @C05
@fn write_hex
@props C14 C05
@ret r
@spec
    ensures r is Ok ==> (*final(writer)).out() == (*old(writer)).out() + utf8(hex_text(key.key@)), //@C14 @C05
@fn write_xml
@props C14 C05
@ret r
@spec
    ensures r is Ok ==> (*final(writer)).out() == (*old(writer)).out() + emit(layout(), flat(key_tree(key.key@))), //@C14 @C05
@before write_xml_key_file_section
        let ghost before = writer;
@after write_xml_key_file_section
        proof { lemma_put(&before, &writer, key_tree(key.key@)); }
@fn write_xml_key_file_section
@props C14
@ret r
@spec
    ensures r is Ok ==> put(old(writer), final(writer), key_tree(key.key@)),
@start
    broadcast use group_writing;
@fn write_xml_meta_section
@props C14
@ret r
@spec
    ensures r is Ok ==> put(old(writer), final(writer), Tree::Node("Meta"@, seq![], Seq::<Tree>::empty().push(Tree::Leaf("Version"@, seq![], "1.00"@)))),
@start
    broadcast use group_writing;
@fn write_xml_key_section
@props C14
@ret r
@spec
    ensures r is Ok ==> put(old(writer), final(writer), Tree::Node("Key"@, seq![], Seq::<Tree>::empty().push(Tree::Leaf("Data"@, seq![], b64(key.key@))))),
@start
    broadcast use group_writing;
@module types::key_file
@top
use crate::types::Error;
use crate::vx::io::{Io, gave, failed};
use crate::format::kf_reader::{key_file, is};
use crate::format::kf_writer::saved;
use crate::vx::rand::rngs::from_os;
/// 32 bytes of the operating system's random source.
pub open spec fn is_random(k: Seq<u8>) -> bool { k.len() == 32 && exists|d: Seq<Seq<u8>>| #[trigger] from_os(d) && d == seq![k] }
@fn KeyFile::get_random_key
@props C17
@ret r
@spec
    ensures r matches Ok(k) ==> is_random(k@), //@C17
@fn KeyFile::new
@props C17 C14
@ret r
@spec
    ensures r matches Ok(k) ==> is_random(k.key@) && k.file_type is Xml, //@C17
@fn KeyFile::new_binary
@props C17 C14
@ret r
@spec
    ensures r matches Ok(k) ==> is_random(k.key@) && k.file_type is Binary, //@C17
@fn KeyFile::new_hex
@props C17 C14
@ret r
@spec
    ensures r matches Ok(k) ==> is_random(k.key@) && k.file_type is Hex, //@C17
@fn KeyFile::new_xml
@props C17 C14
@ret r
@spec
    ensures r matches Ok(k) ==> is_random(k.key@) && k.file_type is Xml, //@C17
@fn KeyFile::open
@props C14 C03 C04
@ret r
@spec
    ensures
        match r {
            Ok(k) => old(reader).fault() is None && (key_file(old(reader).rest()) matches Some(v) && is(k, v)),
            Err(e) => (e matches Error::Io(x) && failed(old(reader), x)) || key_file(old(reader).rest()) is None,
        }, //@C14 @C04
@fn KeyFile::save
@props C14 C05
@ret r
@spec
    ensures r is Ok ==> (*final(writer)).out() == (*old(writer)).out() + saved(self.file_type, self.key@), //@C14 @C05
