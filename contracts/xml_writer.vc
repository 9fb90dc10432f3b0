# writing the document: C01, C08
@module format::kdb2_xml_writer
@top
use crate::rust_crypto::symmetriccipher::SynchronousStreamCipher;
use crate::vx::xml::{Ev, Attrs, Tree, flat, flats, clean, is_text};
use crate::vx::xml::writer::{put, within, ended, emit, Layout};
use crate::vx::io::{Io, gave};
use crate::vx::{xored, key_order, valid_utf8};
use crate::vx::base64::b64;
use crate::vx::flate2::gz;
use crate::vx::fmt::{dec_i32, debug_text};
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::key_text;
use crate::types::{GroupUuid, EntryUuid, BinaryId};
use crate::crypto::salsa20::keystream;
use crate::format::xml::{Ks, bool_text, color_tree, icon_tree};
broadcast use crate::vx::xml::writer::group_writing;

// ---- the document of a database ----
/// Elements, and how far the keystream has been used once they are written.
pub type Out = (Seq<Tree>, int);
pub open spec fn leaf(n: Seq<char>, s: Seq<char>) -> Tree { Tree::Leaf(n, seq![], s) }
pub open spec fn node(n: Seq<char>, k: Seq<Tree>) -> Tree { Tree::Node(n, seq![], k) }
pub open spec fn time_leaf(n: Seq<char>, t: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>) -> Tree { leaf(n, debug_text(&t)) }
pub open spec fn assoc_tree(a: Association) -> Tree {
    node("Association"@, Seq::<Tree>::empty()
            .push(leaf("KeystrokeSequence"@, a.keystroke_sequence@))
            .push(leaf("Window"@, a.window@)))
}
pub open spec fn assocs(s: Seq<Association>) -> Seq<Tree> { s.map_values(|a: Association| assoc_tree(a)) }
pub open spec fn auto_type_head(e: Entry) -> Seq<Tree> {
    Seq::<Tree>::empty()
            .push(leaf("DataTransferObfuscation"@, dec_i32(obf_num(e.auto_type_obfuscation) as i32)))
            .push(leaf("DefaultSequence"@, e.auto_type_def_sequence@))
            .push(leaf("Enabled"@, bool_text(Some(e.auto_type_enabled))))
}
pub open spec fn auto_type_tree(e: Entry) -> Tree { node("AutoType"@, auto_type_head(e) + assocs(e.associations@)) }
/// The attribute that marks a value as protected.
pub open spec fn protected() -> Attrs { seq![("Protected"@, "True"@)] }
/// C08: a protected value is stored as the base64 of it XORed with the next piece of the keystream, and marked; no other value is.
pub open spec fn string_tree(k: StringKey, v: StringValue, ks: Ks, pos: int) -> Tree {
    node("String"@, Seq::<Tree>::empty()
            .push(leaf("Key"@, key_text(k)))
            .push(match v {
            StringValue::Plain(s) => leaf("Value"@, s@),
            StringValue::Protected(x) => Tree::Leaf("Value"@, protected(), b64(xored(x@, ks, pos))),
        }))
}
/// What is hidden can be read as text.
pub open spec fn fits(v: StringValue) -> bool { v matches StringValue::Protected(x) ==> valid_utf8(x@) }
pub open spec fn string_used(v: StringValue) -> int { match v { StringValue::Plain(_) => 0, StringValue::Protected(x) => x@.len() as int } }
pub open spec fn binary_tree(k: BinaryKey, v: BinaryValue, ks: Ks, pos: int) -> Tree {
    node("Binary"@, Seq::<Tree>::empty()
            .push(leaf("Key"@, k.0@))
            .push(match v {
            BinaryValue::Plain(d) => leaf("Value"@, b64(d@)),
            BinaryValue::Protected(x) => Tree::Leaf("Value"@, protected(), b64(xored(x@, ks, pos))),
            BinaryValue::Ref(i) => Tree::Node("Value"@, seq![("Ref"@, i.0@)], seq![]),
        }))
}
pub open spec fn binary_used(v: BinaryValue) -> int { match v { BinaryValue::Protected(x) => x@.len() as int, _ => 0 } }
pub open spec fn binaries_out(m: Map<BinaryKey, BinaryValue>, o: Seq<BinaryKey>, ks: Ks, pos: int) -> Out decreases o.len() {
    if o.len() == 0 { (seq![], pos) } else {
        let (t, p) = binaries_out(m, o.drop_last(), ks, pos);
        (t.push(binary_tree(o.last(), m[o.last()], ks, p)), p + binary_used(m[o.last()]))
    }
}
pub open spec fn strings_out(m: Map<StringKey, StringValue>, o: Seq<StringKey>, ks: Ks, pos: int) -> Out decreases o.len() {
    if o.len() == 0 { (seq![], pos) } else {
        let (t, p) = strings_out(m, o.drop_last(), ks, pos);
        (t.push(string_tree(o.last(), m[o.last()], ks, p)), p + string_used(m[o.last()]))
    }
}
pub ghost struct VTimes { pub creation: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub expiry: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub expires: bool, pub accessed: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub modified: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub moved: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub count: i32 }
pub open spec fn vtimes<T: Times>(t: &T) -> VTimes {
    VTimes { creation: t.t_creation_time(), expiry: t.t_expiry_time(), expires: t.t_expires(), accessed: t.t_last_accessed(), modified: t.t_last_modified(), moved: t.t_location_changed(), count: t.t_usage_count() }
}
pub open spec fn times_tree(t: VTimes) -> Tree {
    node("Times"@, Seq::<Tree>::empty()
            .push(time_leaf("CreationTime"@, t.creation))
            .push(time_leaf("ExpiryTime"@, t.expiry))
            .push(leaf("Expires"@, bool_text(Some(t.expires))))
            .push(time_leaf("LastAccessTime"@, t.accessed))
            .push(time_leaf("LastModificationTime"@, t.modified))
            .push(time_leaf("LocationChanged"@, t.moved))
            .push(leaf("UsageCount"@, dec_i32(t.count))))
}
pub open spec fn entry_head(e: Entry) -> Seq<Tree> {
    Seq::<Tree>::empty()
            .push(leaf("UUID"@, b64(e.uuid.0@)))
            .push(auto_type_tree(e))
            .push(color_tree("BackgroundColor"@, e.background_color))
            .push(icon_tree("CustomIconUUID"@, e.custom_icon_uuid))
            .push(color_tree("ForegroundColor"@, e.foreground_color))
            .push(leaf("IconID"@, dec_i32(icon_num(e.icon) as i32)))
            .push(leaf("OverrideURL"@, e.override_url@))
            .push(leaf("Tags"@, e.tags@))
            .push(times_tree(vtimes(&e)))
}
pub open spec fn entry_binaries(e: Entry, ks: Ks, pos: int) -> Out { binaries_out(e.binaries@, key_order(e.binaries), ks, pos) }
pub open spec fn entry_strings(e: Entry, ks: Ks, pos: int) -> Out { strings_out(e.strings@, key_order(e.strings), ks, entry_binaries(e, ks, pos).1) }
pub open spec fn all_fit(m: Map<StringKey, StringValue>, o: Seq<StringKey>) -> bool { forall|i: int| 0 <= i < o.len() ==> fits(m[#[trigger] o[i]]) }
pub open spec fn past_fits(e: Entry) -> bool { all_fit(e.strings@, key_order(e.strings)) }
pub open spec fn pasts_fit(s: Seq<Entry>) -> bool { forall|i: int| 0 <= i < s.len() ==> past_fits(#[trigger] s[i]) }
pub open spec fn entry_fits(e: Entry) -> bool { past_fits(e) && pasts_fit(e.history@) }
pub open spec fn entries_fit(s: Seq<Entry>) -> bool { forall|i: int| 0 <= i < s.len() ==> entry_fits(#[trigger] s[i]) }
pub open spec fn group_fits(g: Group) -> bool decreases g, g.groups@.len() + 1 { entries_fit(g.entries@) && groups_fit(g, g.groups@.len()) }
pub open spec fn groups_fit(g: Group, n: nat) -> bool decreases g, n { 0 < n <= g.groups@.len() ==> groups_fit(g, (n - 1) as nat) && group_fits(g.groups@[n - 1]) }
/// An entry of a history.
pub open spec fn past_tree(e: Entry, ks: Ks, pos: int) -> Tree { node("Entry"@, entry_head(e) + entry_binaries(e, ks, pos).0 + entry_strings(e, ks, pos).0) }
pub open spec fn past_end(e: Entry, ks: Ks, pos: int) -> int { entry_strings(e, ks, pos).1 }
pub open spec fn pasts_out(s: Seq<Entry>, ks: Ks, pos: int) -> Out decreases s.len() {
    if s.len() == 0 { (seq![], pos) } else {
        let (t, p) = pasts_out(s.drop_last(), ks, pos);
        (t.push(past_tree(s.last(), ks, p)), past_end(s.last(), ks, p))
    }
}
pub open spec fn history_tree(s: Seq<Entry>, ks: Ks, pos: int) -> Tree { node("History"@, pasts_out(s, ks, pos).0) }
pub open spec fn entry_tree(e: Entry, ks: Ks, pos: int) -> Tree {
    node("Entry"@, (entry_head(e) + entry_binaries(e, ks, pos).0 + entry_strings(e, ks, pos).0).push(history_tree(e.history@, ks, past_end(e, ks, pos))))
}
pub open spec fn entry_end(e: Entry, ks: Ks, pos: int) -> int { pasts_out(e.history@, ks, past_end(e, ks, pos)).1 }
pub open spec fn entries_out(s: Seq<Entry>, ks: Ks, pos: int) -> Out decreases s.len() {
    if s.len() == 0 { (seq![], pos) } else {
        let (t, p) = entries_out(s.drop_last(), ks, pos);
        (t.push(entry_tree(s.last(), ks, p)), entry_end(s.last(), ks, p))
    }
}
pub open spec fn group_head(g: Group) -> Seq<Tree> {
    Seq::<Tree>::empty()
            .push(leaf("UUID"@, b64(g.uuid.0@)))
            .push(icon_tree("CustomIconUUID"@, g.custom_icon_uuid))
            .push(leaf("DefaultAutoTypeSequence"@, g.def_auto_type_sequence@))
            .push(leaf("EnableAutoType"@, bool_text(g.enable_auto_type)))
            .push(leaf("EnableSearching"@, bool_text(g.enable_searching)))
            .push(leaf("IconID"@, dec_i32(icon_num(g.icon) as i32)))
            .push(leaf("IsExpanded"@, bool_text(Some(g.is_expanded))))
            .push(leaf("LastTopVisibleEntry"@, b64(g.last_top_visible_entry.0@)))
            .push(leaf("Name"@, g.name@))
            .push(leaf("Notes"@, g.notes@))
            .push(times_tree(vtimes(&g)))
}
/// The first n groups in a group.
pub open spec fn groups_out(g: Group, n: nat, ks: Ks, pos: int) -> Out decreases g, n {
    if n == 0 || n > g.groups@.len() { (seq![], pos) } else {
        let (t, p) = groups_out(g, (n - 1) as nat, ks, pos);
        (t.push(group_tree(g.groups@[n - 1], ks, p)), group_end(g.groups@[n - 1], ks, p))
    }
}
pub open spec fn group_tree(g: Group, ks: Ks, pos: int) -> Tree decreases g, g.groups@.len() + 1 {
    let (t, p) = entries_out(g.entries@, ks, pos);
    node("Group"@, group_head(g) + t + groups_out(g, g.groups@.len(), ks, p).0)
}
pub open spec fn group_end(g: Group, ks: Ks, pos: int) -> int decreases g, g.groups@.len() + 1 {
    groups_out(g, g.groups@.len(), ks, entries_out(g.entries@, ks, pos).1).1
}
pub open spec fn pool_tree(id: BinaryId, d: Seq<u8>) -> Tree { Tree::Leaf("Binary"@, Seq::<(Seq<char>, Seq<char>)>::empty().push(("ID"@, id.0@)).push(("Compressed"@, "True"@)), b64(gz(d))) }
pub open spec fn pool_trees(m: Map<BinaryId, Vec<u8>>, o: Seq<BinaryId>) -> Seq<Tree> { o.map_values(|i: BinaryId| pool_tree(i, m[i]@)) }
pub open spec fn item_tree(k: Seq<char>, v: Seq<char>) -> Tree { node("Item"@, Seq::<Tree>::empty()
            .push(leaf("Key"@, k))
            .push(leaf("Value"@, v))) }
pub open spec fn item_trees(m: Map<String, String>, o: Seq<String>) -> Seq<Tree> { o.map_values(|k: String| item_tree(k@, m[k]@)) }
pub open spec fn picture_tree(u: CustomIconUuid, d: Seq<u8>) -> Tree { node("Icon"@, Seq::<Tree>::empty()
            .push(leaf("UUID"@, b64(u.0@)))
            .push(leaf("Data"@, b64(d)))) }
pub open spec fn picture_trees(m: Map<CustomIconUuid, Vec<u8>>, o: Seq<CustomIconUuid>) -> Seq<Tree> { o.map_values(|u: CustomIconUuid| picture_tree(u, m[u]@)) }
pub open spec fn protection_tree(d: Database) -> Tree {
    node("MemoryProtection"@, Seq::<Tree>::empty()
            .push(leaf("ProtectNotes"@, bool_text(Some(d.protect_notes))))
            .push(leaf("ProtectPassword"@, bool_text(Some(d.protect_password))))
            .push(leaf("ProtectTitle"@, bool_text(Some(d.protect_title))))
            .push(leaf("ProtectURL"@, bool_text(Some(d.protect_url))))
            .push(leaf("ProtectUserName"@, bool_text(Some(d.protect_username)))))
}
pub open spec fn meta_kids(d: Database, hash: Seq<u8>) -> Seq<Tree> {
    Seq::<Tree>::empty()
            .push(node("Binaries"@, pool_trees(d.binaries@, key_order(d.binaries))))
            .push(color_tree("Color"@, d.color))
            .push(node("CustomData"@, item_trees(d.custom_data@, key_order(d.custom_data))))
            .push(node("CustomIcons"@, picture_trees(d.custom_icons@, key_order(d.custom_icons))))
            .push(leaf("DatabaseDescription"@, d.description@))
            .push(time_leaf("DatabaseDescriptionChanged"@, d.description_changed))
            .push(leaf("DatabaseName"@, d.name@))
            .push(time_leaf("DatabaseNameChanged"@, d.name_changed))
            .push(leaf("DefaultUserName"@, d.def_username@))
            .push(time_leaf("DefaultUserNameChanged"@, d.def_username_changed))
            .push(leaf("EntryTemplatesGroup"@, b64(d.entry_templates_group_uuid.0@)))
            .push(time_leaf("EntryTemplatesGroupChanged"@, d.entry_templates_group_changed))
            .push(leaf("Generator"@, common::GENERATOR_NAME@))
            .push(leaf("HeaderHash"@, b64(hash)))
            .push(leaf("HistoryMaxItems"@, dec_i32(d.history_max_items)))
            .push(leaf("HistoryMaxSize"@, dec_i32(d.history_max_size)))
            .push(leaf("LastSelectedGroup"@, b64(d.last_selected_group.0@)))
            .push(leaf("LastTopVisibleGroup"@, b64(d.last_top_visible_group.0@)))
            .push(leaf("MaintenanceHistoryDays"@, dec_i32(d.maintenance_history_days)))
            .push(leaf("MasterKeyChangeForce"@, dec_i32(d.master_key_change_force)))
            .push(leaf("MasterKeyChangeRec"@, dec_i32(d.master_key_change_rec)))
            .push(time_leaf("MasterKeyChanged"@, d.master_key_changed))
            .push(protection_tree(d))
            .push(time_leaf("RecycleBinChanged"@, d.recycle_bin_changed))
            .push(leaf("RecycleBinEnabled"@, bool_text(Some(d.recycle_bin_enabled))))
            .push(leaf("RecycleBinUUID"@, b64(d.recycle_bin_uuid.0@)))
}
pub open spec fn doc(d: Database, hash: Seq<u8>, ks: Ks) -> Tree {
    node("KeePassFile"@, Seq::<Tree>::empty()
            .push(node("Meta"@, meta_kids(d, hash)))
            .push(node("Root"@, Seq::<Tree>::empty()
            .push(group_tree(d.root_group, ks, 0)))))
}
pub open spec fn layout() -> Layout { Layout { indent: true, by: "\t"@ } }
proof fn lemma_true() ensures is_text("True"@) { reveal_strlit("True"); }
pub proof fn lemma_put<W: Io>(a: &EventWriter<W>, b: &EventWriter<W>, t: Tree)
    requires put(a, b, t), a.emitter.written() == Seq::<Ev>::empty(), a.emitter.layout() == layout(),
    ensures gave(&a.sink, &b.sink, emit(layout(), flat(t))), clean(t)
{ reveal(put); reveal(crate::vx::xml::writer::wrote); }
/// The document written for a database, a header hash and an inner key.
pub open spec fn stands_for(xml: Seq<u8>, db: Database, hash: Seq<u8>, key: Seq<u8>) -> bool { xml == emit(layout(), flat(doc(db, hash, keystream(key)))) && clean(doc(db, hash, keystream(key))) && group_fits(db.root_group) }
@fn write_association_section
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), assoc_tree(*assoc)),
@fn write_auto_type_section
@attr #[verifier::loop_isolation(false)]
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), auto_type_tree(*entry)),
@loop 0 it
        invariant
            it.seq().len() == entry.associations@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == entry.associations@[i],
            within(old(writer), writer, "AutoType"@, seq![], auto_type_head(*entry) + assocs(entry.associations@).take(it.index@)),
@loopend 0
        proof { let a = assocs(entry.associations@); assert(auto_type_head(*entry) + a.take(it.index@ + 1) =~= (auto_type_head(*entry) + a.take(it.index@)).push(a[it.index@])); }
@tail
    proof { let a = assocs(entry.associations@); assert(a.take(a.len() as int) =~= a); }
@fn write_binary_section
@props C08 C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), binary_tree(*key, *value, old(cipher).ks(), old(cipher).pos())),
        r is Ok ==> final(cipher).ks() == old(cipher).ks(), r is Ok ==> final(cipher).pos() == old(cipher).pos() + binary_used(*value),
@start
    proof { lemma_true(); }
@fn write_string_section
@props C08 C01 C02
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), string_tree(*key, *value, old(cipher).ks(), old(cipher).pos())), r is Ok ==> fits(*value),
        r is Ok ==> final(cipher).ks() == old(cipher).ks(), r is Ok ==> final(cipher).pos() == old(cipher).pos() + string_used(*value),
@start
    proof { lemma_true(); }
@fn write_binaries_section
@attr #[verifier::loop_isolation(false)]
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), node("Binaries"@, pool_trees(binaries@, key_order(*binaries)))),
@start
    proof { assert(pool_trees(binaries@, key_order(*binaries)).take(0) =~= seq![]); }
    proof { lemma_true(); }
@loop 0 it !map
        invariant
            it.seq().len() == key_order(*binaries).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == key_order(*binaries)[i] && *it.seq()[i].1 == binaries@[key_order(*binaries)[i]],
            within(old(writer), writer, "Binaries"@, seq![], pool_trees(binaries@, key_order(*binaries)).take(it.index@)), is_text("True"@),
@loopend 0
        proof { let a = pool_trees(binaries@, key_order(*binaries)); assert(a.take(it.index@ + 1) =~= a.take(it.index@).push(a[it.index@])); }
@tail
    proof { let a = pool_trees(binaries@, key_order(*binaries)); assert(a.take(0) =~= seq![]); assert(a.take(a.len() as int) =~= a); }
@fn write_custom_data_section
@attr #[verifier::loop_isolation(false)]
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), node("CustomData"@, item_trees(data@, key_order(*data)))),
@start
    proof { assert(item_trees(data@, key_order(*data)).take(0) =~= seq![]); }
@loop 0 it !map
        invariant
            it.seq().len() == key_order(*data).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == key_order(*data)[i] && *it.seq()[i].1 == data@[key_order(*data)[i]],
            within(old(writer), writer, "CustomData"@, seq![], item_trees(data@, key_order(*data)).take(it.index@)),
@loopend 0
        proof { let a = item_trees(data@, key_order(*data)); assert(a.take(it.index@ + 1) =~= a.take(it.index@).push(a[it.index@])); }
@tail
    proof { let a = item_trees(data@, key_order(*data)); assert(a.take(0) =~= seq![]); assert(a.take(a.len() as int) =~= a); }
@fn write_custom_data_item_section
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), item_tree(key@, value@)),
@fn write_custom_icons_section
@attr #[verifier::loop_isolation(false)]
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), node("CustomIcons"@, picture_trees(icons@, key_order(*icons)))),
@start
    proof { assert(picture_trees(icons@, key_order(*icons)).take(0) =~= seq![]); }
@loop 0 it !map
        invariant
            it.seq().len() == key_order(*icons).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == key_order(*icons)[i] && *it.seq()[i].1 == icons@[key_order(*icons)[i]],
            within(old(writer), writer, "CustomIcons"@, seq![], picture_trees(icons@, key_order(*icons)).take(it.index@)),
@loopend 0
        proof { let a = picture_trees(icons@, key_order(*icons)); assert(a.take(it.index@ + 1) =~= a.take(it.index@).push(a[it.index@])); }
@tail
    proof { let a = picture_trees(icons@, key_order(*icons)); assert(a.take(0) =~= seq![]); assert(a.take(a.len() as int) =~= a); }
@fn write_custom_icon_section
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), picture_tree(*uuid, icon@)),
@fn write_times_section
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), times_tree(vtimes(node))),
@fn write_memory_protection_section
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), protection_tree(*db)),
@fn write_meta_section
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), node("Meta"@, meta_kids(*db, hash.0@))),
@fn write_root_section
@props C01
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), node("Root"@, Seq::<Tree>::empty().push(group_tree(db.root_group, old(cipher).ks(), old(cipher).pos())))), r is Ok ==> group_fits(db.root_group),
        r is Ok ==> final(cipher).ks() == old(cipher).ks(), r is Ok ==> final(cipher).pos() == group_end(db.root_group, old(cipher).ks(), old(cipher).pos()),
@fn write_kee_pass_file_section
@props C01 C08
@ret r
@spec
    requires old(cipher).pos() == 0,
    ensures r is Ok ==> put(old(writer), final(writer), doc(*db, hash.0@, old(cipher).ks())) && group_fits(db.root_group),
@fn write_entry_section
@attr #[verifier::loop_isolation(false)]
@props C01 C08
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), if state is Active { entry_tree(*entry, old(cipher).ks(), old(cipher).pos()) } else { past_tree(*entry, old(cipher).ks(), old(cipher).pos()) }),
        r is Ok ==> final(cipher).ks() == old(cipher).ks(),
        r is Ok ==> final(cipher).pos() == (if state is Active { entry_end(*entry, old(cipher).ks(), old(cipher).pos()) } else { past_end(*entry, old(cipher).ks(), old(cipher).pos()) }),
        r is Ok ==> if state is Active { entry_fits(*entry) } else { past_fits(*entry) },
    decreases (if state is Active { 2int } else { 0int })
@start
    let ghost ks = cipher.ks(); let ghost pos = cipher.pos();
    let ghost head = entry_head(*entry);
    proof { assert(head + Seq::<Tree>::empty() =~= head); }
@loop 0 it !map
        invariant
            it.seq().len() == key_order(entry.binaries).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == key_order(entry.binaries)[i] && *it.seq()[i].1 == entry.binaries@[key_order(entry.binaries)[i]],
            cipher.ks() == ks, cipher.pos() == binaries_out(entry.binaries@, key_order(entry.binaries).take(it.index@), ks, pos).1,
            within(old(writer), writer, "Entry"@, seq![], head + binaries_out(entry.binaries@, key_order(entry.binaries).take(it.index@), ks, pos).0),
@loopend 0
        proof {
            let o = key_order(entry.binaries); let m = entry.binaries@; let n = it.index@;
            assert(o.take(n + 1).drop_last() =~= o.take(n)); assert(o.take(n + 1).last() == o[n]);
            assert(head + binaries_out(m, o.take(n + 1), ks, pos).0 =~= (head + binaries_out(m, o.take(n), ks, pos).0).push(binary_tree(o[n], m[o[n]], ks, binaries_out(m, o.take(n), ks, pos).1)));
        }
@loop 1 it !map
        invariant
            it.seq().len() == key_order(entry.strings).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == key_order(entry.strings)[i] && *it.seq()[i].1 == entry.strings@[key_order(entry.strings)[i]],
            cipher.ks() == ks, cipher.pos() == strings_out(entry.strings@, key_order(entry.strings).take(it.index@), ks, entry_binaries(*entry, ks, pos).1).1,
            all_fit(entry.strings@, key_order(entry.strings).take(it.index@)),
            within(old(writer), writer, "Entry"@, seq![], head2 + strings_out(entry.strings@, key_order(entry.strings).take(it.index@), ks, entry_binaries(*entry, ks, pos).1).0),
@before for (key, value) in &entry.strings
    let ghost head2 = head + entry_binaries(*entry, ks, pos).0;
    proof { let o = key_order(entry.binaries); assert(o.take(o.len() as int) =~= o); assert(head2 + Seq::<Tree>::empty() =~= head2); assert(key_order(entry.strings).take(0).len() == 0); }
@loopend 1
        proof {
            let o = key_order(entry.strings); let m = entry.strings@; let n = it.index@; let p = entry_binaries(*entry, ks, pos).1;
            assert(o.take(n + 1).drop_last() =~= o.take(n)); assert(o.take(n + 1).last() == o[n]);
            assert(head2 + strings_out(m, o.take(n + 1), ks, p).0 =~= (head2 + strings_out(m, o.take(n), ks, p).0).push(string_tree(o[n], m[o[n]], ks, strings_out(m, o.take(n), ks, p).1)));
        }
@before if state == EntryState::Active
    proof { let o = key_order(entry.strings); assert(o.take(o.len() as int) =~= o); }
@fn write_history_section
@attr #[verifier::loop_isolation(false)]
@props C01 C08
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), history_tree(entries@, old(cipher).ks(), old(cipher).pos())),
        r is Ok ==> final(cipher).ks() == old(cipher).ks(),
        r is Ok ==> final(cipher).pos() == pasts_out(entries@, old(cipher).ks(), old(cipher).pos()).1, r is Ok ==> pasts_fit(entries@),
    decreases 1int
@start
    hide(past_fits);
    let ghost ks = cipher.ks(); let ghost pos = cipher.pos();
@loop 0 it
        invariant
            it.seq().len() == entries@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == entries@[i],
            cipher.ks() == ks, cipher.pos() == pasts_out(entries@.take(it.index@), ks, pos).1, pasts_fit(entries@.take(it.index@)),
            within(old(writer), writer, "History"@, seq![], pasts_out(entries@.take(it.index@), ks, pos).0),
@loopend 0
        proof { let n = it.index@; assert(entries@.take(n + 1).drop_last() =~= entries@.take(n)); assert(entries@.take(n + 1).last() == entries@[n]); }
@tail
    proof { assert(entries@.take(entries@.len() as int) =~= entries@); }
@fn write_group_section
@props C01 C08
@ret r
@spec
    ensures
        r is Ok ==> put(old(writer), final(writer), group_tree(*group, old(cipher).ks(), old(cipher).pos())),
        r is Ok ==> final(cipher).ks() == old(cipher).ks(),
        r is Ok ==> final(cipher).pos() == group_end(*group, old(cipher).ks(), old(cipher).pos()), r is Ok ==> group_fits(*group),
    decreases *group
@start
    hide(entry_fits); hide(entry_tree); hide(entry_end);
    let ghost ks = cipher.ks(); let ghost pos = cipher.pos();
    let ghost head = group_head(*group);
    proof { assert(head + Seq::<Tree>::empty() =~= head); assert(group.entries@.take(0).len() == 0); }
@loop 0 it
        invariant
            it.seq().len() == group.entries@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == group.entries@[i],
            cipher.ks() == ks, cipher.pos() == entries_out(group.entries@.take(it.index@), ks, pos).1, entries_fit(group.entries@.take(it.index@)),
            within(old(writer), writer, "Group"@, seq![], head + entries_out(group.entries@.take(it.index@), ks, pos).0),
@loopend 0
        proof {
            let n = it.index@; let es = group.entries@;
            assert(es.take(n + 1).drop_last() =~= es.take(n)); assert(es.take(n + 1).last() == es[n]);
            assert(head + entries_out(es.take(n + 1), ks, pos).0 =~= (head + entries_out(es.take(n), ks, pos).0).push(entry_tree(es[n], ks, entries_out(es.take(n), ks, pos).1)));
        }
@before for subgroup in &group.groups
    let ghost p2 = cipher.pos(); let ghost head2 = head + entries_out(group.entries@, ks, pos).0;
    proof { assert(group.entries@.take(group.entries@.len() as int) =~= group.entries@); assert(head2 + Seq::<Tree>::empty() =~= head2); }
@loop 1 it
        invariant
            it.seq().len() == group.groups@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == group.groups@[i],
            cipher.ks() == ks, cipher.pos() == groups_out(*group, it.index@ as nat, ks, p2).1, groups_fit(*group, it.index@ as nat), entries_fit(group.entries@),
            within(old(writer), writer, "Group"@, seq![], head2 + groups_out(*group, it.index@ as nat, ks, p2).0),
@loopend 1
        proof {
            let n = it.index@ as nat;
            assert(head2 + groups_out(*group, n + 1, ks, p2).0 =~= (head2 + groups_out(*group, n, ks, p2).0).push(group_tree(group.groups@[n as int], ks, groups_out(*group, n, ks, p2).1)));
        }
@fn write
@props C01 C08
@ret r
@spec
    ensures
        r is Ok ==> exists|x: Seq<u8>| #[trigger] stands_for(x, *db, hash.0@, key.0@) && (*final(writer)).out() == (*old(writer)).out() + x, //@C01 @C08 @C05
@before write_kee_pass_file_section
        let ghost before = writer;
@after write_kee_pass_file_section
        proof { lemma_put(&before, &writer, doc(*db, hash.0@, keystream(key.0@))); }
@tail
    proof { assert(stands_for(emit(layout(), flat(doc(*db, hash.0@, keystream(key.0@)))), *db, hash.0@, key.0@)); }
