# reading the document: C01, C03, C08, C13, C18
@module format::kdb2_xml_reader
@top
use crate::rust_crypto::symmetriccipher::SynchronousStreamCipher;
use crate::vx::xml::{Ev, Attrs, events, inside, stays_at};
use crate::vx::xml::attribute::attrs as attrs_of;
use crate::vx::io::Io;
use crate::vx::{string_of, uuid::nil_uuid, chrono::the_time};
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{is_key_of, key_for};
use crate::types::group::is_default_group;
use crate::types::entry::is_default_entry;
use crate::types::xml_data::is_default_data;
use crate::types::color::Color;
use crate::types::icon::Icon;
use crate::types::obfuscation::Obfuscation;
use crate::crypto::salsa20::keystream;
use crate::format::kdb2_xml_writer::{VTimes, vtimes};
use crate::format::xml::{Ks, Got, Got2, VStr, VBin, vstr, vbin, stays, string, bin, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, attr_val, flag, string_value, binary_value, str_opt};
broadcast use {crate::vx::xml::group_inside, crate::vx::xml::lemma_stays_same, crate::vx::lemma_string_of, crate::vx::uuid::lemma_uuid_for, crate::types::string_key::lemma_key_for};
// ---- what the document can say ----
pub ghost struct VAssoc { pub keys: Seq<char>, pub win: Seq<char> }
pub ghost struct VEntry {
    pub assocs: Seq<VAssoc>, pub sequence: Seq<char>, pub enabled: bool, pub obf: int, pub background: Option<Color>, pub binaries: Map<BinaryKey, VBin>,
    pub strings: Map<StringKey, VStr>, pub picture: Option<Seq<u8>>, pub foreground: Option<Color>, pub history: Seq<VEntry>, pub symbol: int,
    pub url: Seq<char>, pub tags: Seq<char>, pub times: VTimes, pub id: Seq<u8>, pub within: Seq<u8>,
}
pub ghost struct VGroup {
    pub picture: Option<Seq<u8>>, pub sequence: Seq<char>, pub auto_type: Option<bool>, pub searching: Option<bool>, pub entries: Seq<VEntry>, pub groups: Seq<VGroup>,
    pub symbol: int, pub expanded: bool, pub top: Seq<u8>, pub title: Seq<char>, pub notes: Seq<char>, pub times: VTimes, pub id: Seq<u8>, pub within: Seq<u8>,
}
pub ghost struct VNames { pub name: Seq<char>, pub name_changed: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub description: Seq<char>, pub description_changed: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub def_username: Seq<char>, pub def_username_changed: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub generator: Seq<char> }
pub ghost struct VLimits { pub history_max_items: i32, pub history_max_size: i32, pub maintenance_history_days: i32, pub master_key_change_force: i32, pub master_key_change_rec: i32, pub master_key_changed: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub color: Option<Color> }
pub ghost struct VPlaces { pub entry_templates_group_changed: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub entry_templates_group_uuid: Seq<u8>, pub last_selected_group: Seq<u8>, pub last_top_visible_group: Seq<u8>, pub recycle_bin_changed: crate::vx::chrono::DateTime<crate::vx::chrono::Utc>, pub recycle_bin_enabled: bool, pub recycle_bin_uuid: Seq<u8> }
pub ghost struct VProtect { pub protect_notes: bool, pub protect_password: bool, pub protect_title: bool, pub protect_url: bool, pub protect_username: bool }
pub ghost struct VTables { pub binaries: Map<BinaryId, Seq<u8>>, pub custom_data: Map<String, Seq<char>>, pub custom_icons: Map<CustomIconUuid, Seq<u8>>, pub header_hash: Option<Seq<u8>> }
pub ghost struct VData { pub names: VNames, pub limits: VLimits, pub places: VPlaces, pub protect: VProtect, pub tables: VTables, pub root: Option<VGroup> }
// ---- what the values say ----
pub open spec fn vassoc(a: Association) -> VAssoc { VAssoc { keys: a.keystroke_sequence@, win: a.window@ } }
pub open spec fn vassocs(s: Seq<Association>) -> Seq<VAssoc> { s.map_values(|a: Association| vassoc(a)) }
pub open spec fn vbins(m: Map<BinaryKey, BinaryValue>) -> Map<BinaryKey, VBin> { m.map_values(|v: BinaryValue| vbin(v)) }
pub open spec fn vstrs(m: Map<StringKey, StringValue>) -> Map<StringKey, VStr> { m.map_values(|v: StringValue| vstr(v)) }
#[verifier::opaque] pub open spec fn vdatas<K>(m: Map<K, Vec<u8>>) -> Map<K, Seq<u8>> { m.map_values(|v: Vec<u8>| v@) }
#[verifier::opaque] pub open spec fn vtexts<K>(m: Map<K, String>) -> Map<K, Seq<char>> { m.map_values(|v: String| v@) }
pub open spec fn icon_id(o: Option<CustomIconUuid>) -> Option<Seq<u8>> { match o { Some(u) => Some(u.0@), None => None } }
pub open spec fn ventry(x: Entry) -> VEntry decreases x, x.history@.len() + 1 {
    VEntry {
        assocs: vassocs(x.associations@), sequence: x.auto_type_def_sequence@, enabled: x.auto_type_enabled, obf: obf_num(x.auto_type_obfuscation),
        background: x.background_color, binaries: vbins(x.binaries@), strings: vstrs(x.strings@), picture: icon_id(x.custom_icon_uuid),
        foreground: x.foreground_color, history: vpasts(x, x.history@.len()), symbol: icon_num(x.icon), url: x.override_url@, tags: x.tags@,
        times: vtimes(&x), id: x.uuid.0@, within: x.parent.0@,
    }
}
/// The first n of its history.
pub open spec fn vpasts(x: Entry, n: nat) -> Seq<VEntry> decreases x, n {
    if n == 0 || n > x.history@.len() { seq![] } else { vpasts(x, (n - 1) as nat).push(ventry(x.history@[n - 1])) }
}
pub open spec fn ventries(s: Seq<Entry>) -> Seq<VEntry> { s.map_values(|x: Entry| ventry(x)) }
pub open spec fn vgroup(g: Group) -> VGroup decreases g, g.groups@.len() + 1 {
    VGroup {
        picture: icon_id(g.custom_icon_uuid), sequence: g.def_auto_type_sequence@, auto_type: g.enable_auto_type, searching: g.enable_searching,
        entries: ventries(g.entries@), groups: vsubs(g, g.groups@.len()), symbol: icon_num(g.icon), expanded: g.is_expanded, top: g.last_top_visible_entry.0@,
        title: g.name@, notes: g.notes@, times: vtimes(&g), id: g.uuid.0@, within: g.parent.0@,
    }
}
/// The first n of its groups.
pub open spec fn vsubs(g: Group, n: nat) -> Seq<VGroup> decreases g, n {
    if n == 0 || n > g.groups@.len() { seq![] } else { vsubs(g, (n - 1) as nat).push(vgroup(g.groups@[n - 1])) }
}
pub open spec fn vgroups(s: Seq<Group>) -> Seq<VGroup> { s.map_values(|x: Group| vgroup(x)) }
pub open spec fn vdata(x: XmlData) -> VData {
    VData {
        names: VNames { name: x.name@, name_changed: x.name_changed, description: x.description@, description_changed: x.description_changed, def_username: x.def_username@, def_username_changed: x.def_username_changed, generator: x.generator@ },
        limits: VLimits { history_max_items: x.history_max_items, history_max_size: x.history_max_size, maintenance_history_days: x.maintenance_history_days, master_key_change_force: x.master_key_change_force, master_key_change_rec: x.master_key_change_rec, master_key_changed: x.master_key_changed, color: x.color },
        places: VPlaces { entry_templates_group_changed: x.entry_templates_group_changed, entry_templates_group_uuid: x.entry_templates_group_uuid.0@, last_selected_group: x.last_selected_group.0@, last_top_visible_group: x.last_top_visible_group.0@, recycle_bin_changed: x.recycle_bin_changed, recycle_bin_enabled: x.recycle_bin_enabled, recycle_bin_uuid: x.recycle_bin_uuid.0@ },
        protect: VProtect { protect_notes: x.protect_notes, protect_password: x.protect_password, protect_title: x.protect_title, protect_url: x.protect_url, protect_username: x.protect_username },
        tables: VTables { binaries: vdatas(x.binaries@), custom_data: vtexts(x.custom_data@), custom_icons: vdatas(x.custom_icons@), header_hash: match x.header_hash { Some(h) => Some(h.0@), None => None } },
        root: match x.root_group { Some(g) => Some(vgroup(g)), None => None },
    }
}
proof fn lemma_pasts(x: Entry, n: nat) requires n <= x.history@.len() ensures vpasts(x, n) == ventries(x.history@.take(n as int)) decreases n {
    if n > 0 { lemma_pasts(x, (n - 1) as nat); assert(x.history@.take(n as int).drop_last() =~= x.history@.take(n - 1)); }
    assert(vpasts(x, n) =~= ventries(x.history@.take(n as int)));
}
proof fn lemma_subs(g: Group, n: nat) requires n <= g.groups@.len() ensures vsubs(g, n) == vgroups(g.groups@.take(n as int)) decreases n {
    if n > 0 { lemma_subs(g, (n - 1) as nat); assert(g.groups@.take(n as int).drop_last() =~= g.groups@.take(n - 1)); }
    assert(vsubs(g, n) =~= vgroups(g.groups@.take(n as int)));
}
pub broadcast proof fn lemma_all_pasts(x: Entry) ensures (#[trigger] ventry(x)).history == ventries(x.history@) {
    lemma_pasts(x, x.history@.len()); assert(x.history@.take(x.history@.len() as int) =~= x.history@);
}
pub broadcast proof fn lemma_all_subs(g: Group) ensures (#[trigger] vgroup(g)).groups == vgroups(g.groups@) {
    lemma_subs(g, g.groups@.len()); assert(g.groups@.take(g.groups@.len() as int) =~= g.groups@);
}
pub broadcast proof fn lemma_entries_push(s: Seq<Entry>, x: Entry) ensures #[trigger] ventries(s.push(x)) == ventries(s).push(ventry(x)) { assert(ventries(s.push(x)) =~= ventries(s).push(ventry(x))); }
pub broadcast proof fn lemma_entries_add(s: Seq<Entry>, t: Seq<Entry>) ensures #[trigger] ventries(s + t) == ventries(s) + ventries(t) { assert(ventries(s + t) =~= ventries(s) + ventries(t)); }
pub broadcast proof fn lemma_groups_push(s: Seq<Group>, x: Group) ensures #[trigger] vgroups(s.push(x)) == vgroups(s).push(vgroup(x)) { assert(vgroups(s.push(x)) =~= vgroups(s).push(vgroup(x))); }
pub broadcast proof fn lemma_assocs_push(s: Seq<Association>, x: Association) ensures #[trigger] vassocs(s.push(x)) == vassocs(s).push(vassoc(x)) { assert(vassocs(s.push(x)) =~= vassocs(s).push(vassoc(x))); }
pub broadcast proof fn lemma_bins_insert(m: Map<BinaryKey, BinaryValue>, k: BinaryKey, v: BinaryValue) ensures #[trigger] vbins(m.insert(k, v)) == vbins(m).insert(k, vbin(v)) { assert(vbins(m.insert(k, v)) =~= vbins(m).insert(k, vbin(v))); }
pub broadcast proof fn lemma_strs_insert(m: Map<StringKey, StringValue>, k: StringKey, v: StringValue) ensures #[trigger] vstrs(m.insert(k, v)) == vstrs(m).insert(k, vstr(v)) { assert(vstrs(m.insert(k, v)) =~= vstrs(m).insert(k, vstr(v))); }
pub broadcast proof fn lemma_datas_insert<K>(m: Map<K, Vec<u8>>, k: K, v: Vec<u8>) ensures #[trigger] vdatas(m.insert(k, v)) == vdatas(m).insert(k, v@) { reveal(vdatas); assert(vdatas(m.insert(k, v)) =~= vdatas(m).insert(k, v@)); }
pub broadcast proof fn lemma_texts_insert<K>(m: Map<K, String>, k: K, v: String) ensures #[trigger] vtexts(m.insert(k, v)) == vtexts(m).insert(k, v@) { reveal(vtexts); assert(vtexts(m.insert(k, v)) =~= vtexts(m).insert(k, v@)); }
pub broadcast proof fn lemma_datas_none<K>(m: Map<K, Vec<u8>>) ensures m == Map::<K, Vec<u8>>::empty() ==> #[trigger] vdatas(m) == Map::<K, Seq<u8>>::empty() { reveal(vdatas); assert(vdatas(Map::<K, Vec<u8>>::empty()) =~= Map::empty()); }
pub broadcast proof fn lemma_texts_none<K>(m: Map<K, String>) ensures m == Map::<K, String>::empty() ==> #[trigger] vtexts(m) == Map::<K, Seq<char>>::empty() { reveal(vtexts); assert(vtexts(Map::<K, String>::empty()) =~= Map::empty()); }
pub broadcast group group_views { lemma_datas_insert, lemma_texts_insert, lemma_datas_none, lemma_texts_none, lemma_all_pasts, lemma_all_subs, lemma_entries_push, lemma_entries_add, lemma_groups_push, lemma_assocs_push, lemma_bins_insert, lemma_strs_insert }
// ---- defaults: what is not said ----
pub open spec fn fresh_times() -> VTimes { VTimes { creation: the_time(), expiry: the_time(), expires: false, accessed: the_time(), modified: the_time(), moved: the_time(), count: 0 } }
pub open spec fn fresh_entry() -> VEntry {
    VEntry {
        assocs: seq![], sequence: seq![], enabled: true, obf: 0, background: None, binaries: Map::empty(), strings: Map::empty(), picture: None, foreground: None,
        history: seq![], symbol: 0, url: seq![], tags: seq![], times: fresh_times(), id: nil_uuid()@, within: nil_uuid()@,
    }
}
pub open spec fn fresh_group(up: Seq<u8>) -> VGroup {
    VGroup {
        picture: None, sequence: seq![], auto_type: None, searching: None, entries: seq![], groups: seq![], symbol: 48, expanded: true, top: nil_uuid()@,
        title: seq![], notes: seq![], times: fresh_times(), id: nil_uuid()@, within: up,
    }
}
pub open spec fn fresh_data() -> VData {
    VData {
        names: VNames { name: seq![], name_changed: the_time(), description: seq![], description_changed: the_time(), def_username: seq![], def_username_changed: the_time(), generator: seq![] },
        limits: VLimits { history_max_items: 10, history_max_size: 6291456, maintenance_history_days: 365, master_key_change_force: -1i32, master_key_change_rec: -1i32, master_key_changed: the_time(), color: None },
        places: VPlaces { entry_templates_group_changed: the_time(), entry_templates_group_uuid: nil_uuid()@, last_selected_group: nil_uuid()@, last_top_visible_group: nil_uuid()@, recycle_bin_changed: the_time(), recycle_bin_enabled: true, recycle_bin_uuid: nil_uuid()@ },
        protect: VProtect { protect_notes: false, protect_password: true, protect_title: false, protect_url: false, protect_username: false },
        tables: VTables { binaries: Map::empty(), custom_data: Map::empty(), custom_icons: Map::empty(), header_hash: None },
        root: None,
    }
}
proof fn lemma_fresh_entry(x: Entry) requires is_default_entry(x) ensures ventry(x) == fresh_entry() {
    assert(vassocs(x.associations@) =~= seq![]); assert(vbins(x.binaries@) =~= Map::empty()); assert(vstrs(x.strings@) =~= Map::empty());
    assert(ventries(x.history@) =~= seq![]); assert(x.auto_type_def_sequence@ =~= seq![]); assert(x.override_url@ =~= seq![]); assert(x.tags@ =~= seq![]);
}
proof fn lemma_fresh_group(g: Group) requires is_default_group(Group { parent: GroupUuid(nil_uuid()), ..g }), g.name@.len() == 0, g.uuid.0 == nil_uuid() ensures vgroup(g) == fresh_group(g.parent.0@) {
    assert(ventries(g.entries@) =~= seq![]); assert(vgroups(g.groups@) =~= seq![]); assert(g.def_auto_type_sequence@ =~= seq![]); assert(g.name@ =~= seq![]); assert(g.notes@ =~= seq![]);
}
proof fn lemma_fresh_data(x: XmlData) requires is_default_data(x) ensures vdata(x) == fresh_data() {
    broadcast use lemma_datas_none, lemma_texts_none; let d = vdata(x);
    assert(d.tables.binaries =~= Map::empty()); assert(d.tables.custom_data =~= Map::empty()); assert(d.tables.custom_icons =~= Map::empty());
    assert(d.names.def_username =~= seq![]); assert(d.names.description =~= seq![]); assert(d.names.generator =~= seq![]); assert(d.names.name =~= seq![]);
}
proof fn lemma_adopted(a: Group, b: Group)
    requires
        b == (Group { entries: b.entries, groups: b.groups, ..a }), b.entries@.len() == a.entries@.len(), b.groups@.len() == a.groups@.len(),
        forall|j: int| 0 <= j < b.entries@.len() ==> #[trigger] b.entries@[j] == (Entry { parent: a.uuid, ..a.entries@[j] }),
        forall|j: int| 0 <= j < b.groups@.len() ==> #[trigger] b.groups@[j] == (Group { parent: a.uuid, ..a.groups@[j] }),
    ensures vgroup(b) == adopted(vgroup(a))
{
    assert(vgroup(b).entries =~= adopted(vgroup(a)).entries) by {
        assert forall|j: int| 0 <= j < b.entries@.len() implies #[trigger] ventry(b.entries@[j]) == (VEntry { within: a.uuid.0@, ..ventry(a.entries@[j]) }) by { broadcast use lemma_all_pasts; assert(b.entries@[j].history@ == a.entries@[j].history@); }
    }
    broadcast use lemma_all_subs;
    assert(vgroup(b).groups =~= adopted(vgroup(a)).groups) by {
        assert forall|j: int| 0 <= j < b.groups@.len() implies #[trigger] vgroup(b.groups@[j]) == (VGroup { within: a.uuid.0@, ..vgroup(a.groups@[j]) }) by { broadcast use lemma_all_subs; assert(b.groups@[j].groups@ == a.groups@[j].groups@); }
    }
}
// ---- what reading takes from the events to come: each element in turn, what is not known counting as nothing ----
pub open spec fn times_step(st: VTimes, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<VTimes> {
    if n == "CreationTime"@ { match datetime(ev) { Some((v, e)) => Some((VTimes { creation: v, ..st }, e)), None => None } } else
    if n == "ExpiryTime"@ { match datetime(ev) { Some((v, e)) => Some((VTimes { expiry: v, ..st }, e)), None => None } } else
    if n == "Expires"@ { match boolean(ev) { Some((v, e)) => Some((VTimes { expires: v, ..st }, e)), None => None } } else
    if n == "LastAccessTime"@ { match datetime(ev) { Some((v, e)) => Some((VTimes { accessed: v, ..st }, e)), None => None } } else
    if n == "LastModificationTime"@ { match datetime(ev) { Some((v, e)) => Some((VTimes { modified: v, ..st }, e)), None => None } } else
    if n == "LocationChanged"@ { match datetime(ev) { Some((v, e)) => Some((VTimes { moved: v, ..st }, e)), None => None } } else
    if n == "UsageCount"@ { match int32(ev) { Some((v, e)) => Some((VTimes { count: v, ..st }, e)), None => None } } else
    { Some((st, ev)) }
}
pub open spec fn times_from(ev: Seq<Ev>, st: VTimes) -> Got<VTimes> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match times_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { times_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "Times"@ { Some((st, ev.skip(1))) } else { times_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => times_from(ev.skip(1), st),
        }
    }
}
/// A pair of things, either not found yet.
pub ghost struct Two<A, B> { pub a: Option<A>, pub b: Option<B> }
pub open spec fn both<A, B>(t: Two<A, B>) -> Option<(A, B)> { match (t.a, t.b) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
pub open spec fn none<A, B>() -> Two<A, B> { Two { a: None, b: None } }
pub open spec fn item_step(st: Two<Seq<char>, Seq<char>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<Two<Seq<char>, Seq<char>>> {
    if n == "Key"@ { match string(ev) { Some((v, e)) => Some((Two { a: Some(v), ..st }, e)), None => None } } else
    if n == "Value"@ { match string(ev) { Some((v, e)) => Some((Two { b: Some(v), ..st }, e)), None => None } } else
    { Some((st, ev)) }
}
pub open spec fn item_from(ev: Seq<Ev>, st: Two<Seq<char>, Seq<char>>) -> Got<Two<Seq<char>, Seq<char>>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match item_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { item_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "Item"@ { Some((st, ev.skip(1))) } else { item_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => item_from(ev.skip(1), st),
        }
    }
}
pub open spec fn picture_step(st: Two<Seq<u8>, Seq<u8>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<Two<Seq<u8>, Seq<u8>>> {
    if n == "Data"@ { match bin(ev) { Some((v, e)) => Some((Two { b: Some(v), ..st }, e)), None => None } } else
    if n == "UUID"@ { match uuid_opt(ev) { Some((v, e)) => Some((Two { a: v, ..st }, e)), None => None } } else
    { Some((st, ev)) }
}
pub open spec fn picture_from(ev: Seq<Ev>, st: Two<Seq<u8>, Seq<u8>>) -> Got<Two<Seq<u8>, Seq<u8>>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match picture_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { picture_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "Icon"@ { Some((st, ev.skip(1))) } else { picture_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => picture_from(ev.skip(1), st),
        }
    }
}
/// Some association and the events after it, or none and the events after what made it fail (the rest of the element included or not).
pub open spec fn assoc_from(ev: Seq<Ev>, st: Two<Seq<char>, Seq<char>>) -> (Option<VAssoc>, Seq<Ev>) decreases ev.len() {
    if ev.len() == 0 { (None, ev) } else {
        match ev[0] {
            Ev::Start(n, a) =>
                if n == "KeystrokeSequence"@ { match string(ev.skip(1)) { Some((v, e)) => if e.len() < ev.len() { assoc_from(e, Two { a: Some(v), ..st }) } else { (None, e) }, None => (None, ev.skip(1)) } }
                else if n == "Window"@ { match string(ev.skip(1)) { Some((v, e)) => if e.len() < ev.len() { assoc_from(e, Two { b: Some(v), ..st }) } else { (None, e) }, None => (None, ev.skip(1)) } }
                else { assoc_from(ev.skip(1), st) },
            Ev::End(n) => if n == "Association"@ { (match both(st) { Some((a, b)) => Some(VAssoc { keys: a, win: b }), None => None }, ev.skip(1)) } else { assoc_from(ev.skip(1), st) },
            Ev::EndDoc => (None, ev),
            _ => assoc_from(ev.skip(1), st),
        }
    }
}
pub open spec fn auto_step(st: VEntry, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<VEntry> {
    if n == "Association"@ { { let (r, e) = assoc_from(ev, none()); Some((match r { Some(x) => VEntry { assocs: st.assocs.push(x), ..st }, None => st }, e)) } } else
    if n == "DataTransferObfuscation"@ { match obfuscation(ev) { Some((v, e)) => Some((VEntry { obf: v, ..st }, e)), None => None } } else
    if n == "DefaultSequence"@ { match string(ev) { Some((v, e)) => Some((VEntry { sequence: v, ..st }, e)), None => None } } else
    if n == "Enabled"@ { match boolean(ev) { Some((v, e)) => Some((VEntry { enabled: v, ..st }, e)), None => None } } else
    { Some((st, ev)) }
}
pub open spec fn auto_from(ev: Seq<Ev>, st: VEntry) -> Got<VEntry> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match auto_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { auto_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "AutoType"@ { Some((st, ev.skip(1))) } else { auto_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => auto_from(ev.skip(1), st),
        }
    }
}
pub open spec fn bin_step(st: Two<BinaryKey, VBin>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, ks: Ks, pos: int) -> Got2<Two<BinaryKey, VBin>> {
    if n == "Key"@ { match string(ev) { Some((v, e)) => Some((Two { a: Some(BinaryKey(string_of(v))), ..st }, e, pos)), None => None } } else
    if n == "Value"@ { match binary_value(ev, a, ks, pos) { Some((v, e, p)) => Some((Two { b: Some(v), ..st }, e, p)), None => None } } else
    { Some((st, ev, pos)) }
}
pub open spec fn bin_from(ev: Seq<Ev>, st: Two<BinaryKey, VBin>, ks: Ks, pos: int) -> Got2<Two<BinaryKey, VBin>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match bin_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { bin_from(e, t, ks, p) } else { None }, None => None },
            Ev::End(n) => if n == "Binary"@ { Some((st, ev.skip(1), pos)) } else { bin_from(ev.skip(1), st, ks, pos) },
            Ev::EndDoc => None,
            _ => bin_from(ev.skip(1), st, ks, pos),
        }
    }
}
pub open spec fn str_step(st: Two<StringKey, VStr>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, ks: Ks, pos: int) -> Got2<Two<StringKey, VStr>> {
    if n == "Key"@ { match string(ev) { Some((v, e)) => Some((Two { a: Some(key_for(v)), ..st }, e, pos)), None => None } } else
    if n == "Value"@ { match string_value(ev, a, ks, pos) { Some((v, e, p)) => Some((Two { b: Some(v), ..st }, e, p)), None => None } } else
    { Some((st, ev, pos)) }
}
pub open spec fn str_from(ev: Seq<Ev>, st: Two<StringKey, VStr>, ks: Ks, pos: int) -> Got2<Two<StringKey, VStr>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match str_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { str_from(e, t, ks, p) } else { None }, None => None },
            Ev::End(n) => if n == "String"@ { Some((st, ev.skip(1), pos)) } else { str_from(ev.skip(1), st, ks, pos) },
            Ev::EndDoc => None,
            _ => str_from(ev.skip(1), st, ks, pos),
        }
    }
}
/// An entry, whose group is up; active: not one of a history.
pub open spec fn entry_step(s0: VEntry, n: Seq<char>, a: Attrs, ev: Seq<Ev>, ks: Ks, active: bool, up: Seq<u8>, pos: int) -> Got2<VEntry> decreases ev.len(), 2int {
    let st = VEntry { within: up, ..s0 };
    if n == "AutoType"@ { match auto_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None } } else
    if n == "BackgroundColor"@ { match color_opt(ev) { Some((v, e)) => Some((VEntry { background: v, ..st }, e, pos)), None => None } } else
    if n == "Binary"@ { match bin_from(ev, none(), ks, pos) { Some((t, e, p)) => match both(t) { Some((k, v)) => Some((VEntry { binaries: st.binaries.insert(k, v), ..st }, e, p)), None => None }, None => None } } else
    if n == "CustomIconUUID"@ { match uuid_opt(ev) { Some((v, e)) => Some((VEntry { picture: v, ..st }, e, pos)), None => None } } else
    if n == "ForegroundColor"@ { match color_opt(ev) { Some((v, e)) => Some((VEntry { foreground: v, ..st }, e, pos)), None => None } } else
    if n == "History"@ { if active { match past_from(ev, seq![], ks, up, pos) { Some((l, e, p)) => Some((VEntry { history: st.history + l, ..st }, e, p)), None => None } } else { Some((st, ev, pos)) } } else
    if n == "IconID"@ { match icon(ev) { Some((v, e)) => Some((VEntry { symbol: v, ..st }, e, pos)), None => None } } else
    if n == "OverrideURL"@ { match string(ev) { Some((v, e)) => Some((VEntry { url: v, ..st }, e, pos)), None => None } } else
    if n == "String"@ { match str_from(ev, none(), ks, pos) { Some((t, e, p)) => match both(t) { Some((k, v)) => Some((VEntry { strings: st.strings.insert(k, v), ..st }, e, p)), None => None }, None => None } } else
    if n == "Tags"@ { match string(ev) { Some((v, e)) => Some((VEntry { tags: v, ..st }, e, pos)), None => None } } else
    if n == "Times"@ { match times_from(ev, st.times) { Some((t, e)) => Some((VEntry { times: t, ..st }, e, pos)), None => None } } else
    if n == "UUID"@ { match uuid(ev) { Some((v, e)) => Some((VEntry { id: v, ..st }, e, pos)), None => None } } else
    { Some((st, ev, pos)) }
}
pub open spec fn entry_from(ev: Seq<Ev>, st: VEntry, ks: Ks, active: bool, up: Seq<u8>, pos: int) -> Got2<VEntry> decreases ev.len(), 1int {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match entry_step(st, n, a, ev.skip(1), ks, active, up, pos) { Some((t, e, p)) => if e.len() < ev.len() { entry_from(e, t, ks, active, up, p) } else { None }, None => None },
            Ev::End(n) => if n == "Entry"@ { Some((st, ev.skip(1), pos)) } else { entry_from(ev.skip(1), st, ks, active, up, pos) },
            Ev::EndDoc => None,
            _ => entry_from(ev.skip(1), st, ks, active, up, pos),
        }
    }
}
pub open spec fn past_from(ev: Seq<Ev>, st: Seq<VEntry>, ks: Ks, up: Seq<u8>, pos: int) -> Got2<Seq<VEntry>> decreases ev.len(), 1int {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) =>
                if n == "Entry"@ { match entry_from(ev.skip(1), fresh_entry(), ks, false, up, pos) { Some((x, e, p)) => if e.len() < ev.len() { past_from(e, st.push(x), ks, up, p) } else { None }, None => None } }
                else { past_from(ev.skip(1), st, ks, up, pos) },
            Ev::End(n) => if n == "History"@ { Some((st, ev.skip(1), pos)) } else { past_from(ev.skip(1), st, ks, up, pos) },
            Ev::EndDoc => None,
            _ => past_from(ev.skip(1), st, ks, up, pos),
        }
    }
}
/// C13: a group read is the parent of its entries and groups.
pub open spec fn adopted(g: VGroup) -> VGroup {
    VGroup {
        entries: g.entries.map_values(|x: VEntry| VEntry { within: g.id, ..x }), groups: g.groups.map_values(|x: VGroup| VGroup { within: g.id, ..x }), ..g
    }
}
pub open spec fn group_step(st: VGroup, n: Seq<char>, a: Attrs, ev: Seq<Ev>, ks: Ks, pos: int) -> Got2<VGroup> decreases ev.len(), 2int {
    if n == "CustomIconUUID"@ { match uuid_opt(ev) { Some((v, e)) => Some((VGroup { picture: v, ..st }, e, pos)), None => None } } else
    if n == "DefaultAutoTypeSequence"@ { match string(ev) { Some((v, e)) => Some((VGroup { sequence: v, ..st }, e, pos)), None => None } } else
    if n == "EnableAutoType"@ { match bool_opt(ev) { Some((v, e)) => Some((VGroup { auto_type: v, ..st }, e, pos)), None => None } } else
    if n == "EnableSearching"@ { match bool_opt(ev) { Some((v, e)) => Some((VGroup { searching: v, ..st }, e, pos)), None => None } } else
    if n == "Entry"@ { match entry_from(ev, fresh_entry(), ks, true, nil_uuid()@, pos) { Some((x, e, p)) => Some((VGroup { entries: st.entries.push(x), ..st }, e, p)), None => None } } else
    if n == "Group"@ { match group_from(ev, fresh_group(nil_uuid()@), ks, pos) { Some((x, e, p)) => Some((VGroup { groups: st.groups.push(x), ..st }, e, p)), None => None } } else
    if n == "IconID"@ { match icon(ev) { Some((v, e)) => Some((VGroup { symbol: v, ..st }, e, pos)), None => None } } else
    if n == "IsExpanded"@ { match boolean(ev) { Some((v, e)) => Some((VGroup { expanded: v, ..st }, e, pos)), None => None } } else
    if n == "LastTopVisibleEntry"@ { match uuid(ev) { Some((v, e)) => Some((VGroup { top: v, ..st }, e, pos)), None => None } } else
    if n == "Name"@ { match string(ev) { Some((v, e)) => Some((VGroup { title: v, ..st }, e, pos)), None => None } } else
    if n == "Notes"@ { match string(ev) { Some((v, e)) => Some((VGroup { notes: v, ..st }, e, pos)), None => None } } else
    if n == "Times"@ { match times_from(ev, st.times) { Some((t, e)) => Some((VGroup { times: t, ..st }, e, pos)), None => None } } else
    if n == "UUID"@ { match uuid(ev) { Some((v, e)) => Some((VGroup { id: v, ..st }, e, pos)), None => None } } else
    { Some((st, ev, pos)) }
}
pub open spec fn group_from(ev: Seq<Ev>, st: VGroup, ks: Ks, pos: int) -> Got2<VGroup> decreases ev.len(), 1int {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match group_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { group_from(e, t, ks, p) } else { None }, None => None },
            Ev::End(n) => if n == "Group"@ { Some((adopted(st), ev.skip(1), pos)) } else { group_from(ev.skip(1), st, ks, pos) },
            Ev::EndDoc => None,
            _ => group_from(ev.skip(1), st, ks, pos),
        }
    }
}
pub open spec fn root_step(st: Option<VGroup>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, ks: Ks, pos: int) -> Got2<Option<VGroup>> {
    if n == "Group"@ { match group_from(ev, fresh_group(nil_uuid()@), ks, pos) { Some((x, e, p)) => Some((Some(x), e, p)), None => None } } else
    { Some((st, ev, pos)) }
}
pub open spec fn root_from(ev: Seq<Ev>, st: Option<VGroup>, ks: Ks, pos: int) -> Got2<Option<VGroup>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match root_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { root_from(e, t, ks, p) } else { None }, None => None },
            Ev::End(n) => if n == "Root"@ { Some((st, ev.skip(1), pos)) } else { root_from(ev.skip(1), st, ks, pos) },
            Ev::EndDoc => None,
            _ => root_from(ev.skip(1), st, ks, pos),
        }
    }
}
pub open spec fn pool_step(st: Map<BinaryId, Seq<u8>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<Map<BinaryId, Seq<u8>>> {
    if n == "Binary"@ { match (attr_val(a, "id"@), flag(a, "compressed"@)) {
        (Some(i), Some(z)) => match if z { zipped(ev) } else { bin(ev) } { Some((v, e)) => Some((st.insert(BinaryId(string_of(i)), v), e)), None => None },
        _ => None,
    } } else
    { Some((st, ev)) }
}
pub open spec fn pool_from(ev: Seq<Ev>, st: Map<BinaryId, Seq<u8>>) -> Got<Map<BinaryId, Seq<u8>>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match pool_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { pool_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "Binaries"@ { Some((st, ev.skip(1))) } else { pool_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => pool_from(ev.skip(1), st),
        }
    }
}
pub open spec fn items_step(st: Map<String, Seq<char>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<Map<String, Seq<char>>> {
    if n == "Item"@ { match item_from(ev, none()) { Some((t, e)) => match both(t) { Some((k, v)) => Some((st.insert(string_of(k), v), e)), None => None }, None => None } } else
    { Some((st, ev)) }
}
pub open spec fn items_from(ev: Seq<Ev>, st: Map<String, Seq<char>>) -> Got<Map<String, Seq<char>>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match items_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { items_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "CustomData"@ { Some((st, ev.skip(1))) } else { items_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => items_from(ev.skip(1), st),
        }
    }
}
pub open spec fn pictures_step(st: Map<CustomIconUuid, Seq<u8>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<Map<CustomIconUuid, Seq<u8>>> {
    if n == "Icon"@ { match picture_from(ev, none()) { Some((t, e)) => match both(t) { Some((k, v)) => Some((st.insert(CustomIconUuid(crate::vx::uuid::uuid_for(k)), v), e)), None => None }, None => None } } else
    { Some((st, ev)) }
}
pub open spec fn pictures_from(ev: Seq<Ev>, st: Map<CustomIconUuid, Seq<u8>>) -> Got<Map<CustomIconUuid, Seq<u8>>> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match pictures_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { pictures_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "CustomIcons"@ { Some((st, ev.skip(1))) } else { pictures_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => pictures_from(ev.skip(1), st),
        }
    }
}
pub open spec fn protection_step(st: VProtect, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<VProtect> {
    if n == "ProtectNotes"@ { match boolean(ev) { Some((v, e)) => Some((VProtect { protect_notes: v, ..st }, e)), None => None } } else
    if n == "ProtectPassword"@ { match boolean(ev) { Some((v, e)) => Some((VProtect { protect_password: v, ..st }, e)), None => None } } else
    if n == "ProtectTitle"@ { match boolean(ev) { Some((v, e)) => Some((VProtect { protect_title: v, ..st }, e)), None => None } } else
    if n == "ProtectURL"@ { match boolean(ev) { Some((v, e)) => Some((VProtect { protect_url: v, ..st }, e)), None => None } } else
    if n == "ProtectUserName"@ { match boolean(ev) { Some((v, e)) => Some((VProtect { protect_username: v, ..st }, e)), None => None } } else
    { Some((st, ev)) }
}
pub open spec fn protection_from(ev: Seq<Ev>, st: VProtect) -> Got<VProtect> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match protection_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { protection_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "MemoryProtection"@ { Some((st, ev.skip(1))) } else { protection_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => protection_from(ev.skip(1), st),
        }
    }
}
pub open spec fn meta_step(st: VData, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<VData> {
    if n == "Binaries"@ { match pool_from(ev, Map::empty()) { Some((v, e)) => Some((VData { tables: VTables { binaries: v, ..st.tables }, ..st }, e)), None => None } } else
    if n == "Color"@ { match color_opt(ev) { Some((v, e)) => Some((VData { limits: VLimits { color: v, ..st.limits }, ..st }, e)), None => None } } else
    if n == "CustomData"@ { match items_from(ev, Map::empty()) { Some((v, e)) => Some((VData { tables: VTables { custom_data: v, ..st.tables }, ..st }, e)), None => None } } else
    if n == "CustomIcons"@ { match pictures_from(ev, Map::empty()) { Some((v, e)) => Some((VData { tables: VTables { custom_icons: v, ..st.tables }, ..st }, e)), None => None } } else
    if n == "DatabaseDescription"@ { match string(ev) { Some((v, e)) => Some((VData { names: VNames { description: v, ..st.names }, ..st }, e)), None => None } } else
    if n == "DatabaseDescriptionChanged"@ { match datetime(ev) { Some((v, e)) => Some((VData { names: VNames { description_changed: v, ..st.names }, ..st }, e)), None => None } } else
    if n == "DatabaseName"@ { match string(ev) { Some((v, e)) => Some((VData { names: VNames { name: v, ..st.names }, ..st }, e)), None => None } } else
    if n == "DatabaseNameChanged"@ { match datetime(ev) { Some((v, e)) => Some((VData { names: VNames { name_changed: v, ..st.names }, ..st }, e)), None => None } } else
    if n == "DefaultUserName"@ { match string(ev) { Some((v, e)) => Some((VData { names: VNames { def_username: v, ..st.names }, ..st }, e)), None => None } } else
    if n == "DefaultUserNameChanged"@ { match datetime(ev) { Some((v, e)) => Some((VData { names: VNames { def_username_changed: v, ..st.names }, ..st }, e)), None => None } } else
    if n == "EntryTemplatesGroup"@ { match uuid(ev) { Some((v, e)) => Some((VData { places: VPlaces { entry_templates_group_uuid: v, ..st.places }, ..st }, e)), None => None } } else
    if n == "EntryTemplatesGroupChanged"@ { match datetime(ev) { Some((v, e)) => Some((VData { places: VPlaces { entry_templates_group_changed: v, ..st.places }, ..st }, e)), None => None } } else
    if n == "Generator"@ { match string(ev) { Some((v, e)) => Some((VData { names: VNames { generator: v, ..st.names }, ..st }, e)), None => None } } else
    if n == "HeaderHash"@ { match bin(ev) { Some((v, e)) => Some((VData { tables: VTables { header_hash: Some(v), ..st.tables }, ..st }, e)), None => None } } else
    if n == "HistoryMaxItems"@ { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { history_max_items: v, ..st.limits }, ..st }, e)), None => None } } else
    if n == "HistoryMaxSize"@ { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { history_max_size: v, ..st.limits }, ..st }, e)), None => None } } else
    if n == "LastSelectedGroup"@ { match uuid(ev) { Some((v, e)) => Some((VData { places: VPlaces { last_selected_group: v, ..st.places }, ..st }, e)), None => None } } else
    if n == "LastTopVisibleGroup"@ { match uuid(ev) { Some((v, e)) => Some((VData { places: VPlaces { last_top_visible_group: v, ..st.places }, ..st }, e)), None => None } } else
    if n == "MaintenanceHistoryDays"@ { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { maintenance_history_days: v, ..st.limits }, ..st }, e)), None => None } } else
    if n == "MasterKeyChangeForce"@ { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { master_key_change_force: v, ..st.limits }, ..st }, e)), None => None } } else
    if n == "MasterKeyChangeRec"@ { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { master_key_change_rec: v, ..st.limits }, ..st }, e)), None => None } } else
    if n == "MasterKeyChanged"@ { match datetime(ev) { Some((v, e)) => Some((VData { limits: VLimits { master_key_changed: v, ..st.limits }, ..st }, e)), None => None } } else
    if n == "MemoryProtection"@ { match protection_from(ev, st.protect) { Some((t, e)) => Some((VData { protect: t, ..st }, e)), None => None } } else
    if n == "RecycleBinChanged"@ { match datetime(ev) { Some((v, e)) => Some((VData { places: VPlaces { recycle_bin_changed: v, ..st.places }, ..st }, e)), None => None } } else
    if n == "RecycleBinEnabled"@ { match boolean(ev) { Some((v, e)) => Some((VData { places: VPlaces { recycle_bin_enabled: v, ..st.places }, ..st }, e)), None => None } } else
    if n == "RecycleBinUUID"@ { match uuid(ev) { Some((v, e)) => Some((VData { places: VPlaces { recycle_bin_uuid: v, ..st.places }, ..st }, e)), None => None } } else
    { Some((st, ev)) }
}
pub open spec fn meta_from(ev: Seq<Ev>, st: VData) -> Got<VData> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match meta_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { meta_from(e, t) } else { None }, None => None },
            Ev::End(n) => if n == "Meta"@ { Some((st, ev.skip(1))) } else { meta_from(ev.skip(1), st) },
            Ev::EndDoc => None,
            _ => meta_from(ev.skip(1), st),
        }
    }
}
pub open spec fn file_step(st: VData, n: Seq<char>, a: Attrs, ev: Seq<Ev>, ks: Ks, pos: int) -> Got2<VData> {
    if n == "Meta"@ { match meta_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None } } else
    if n == "Root"@ { match root_from(ev, st.root, ks, pos) { Some((t, e, p)) => Some((VData { root: t, ..st }, e, p)), None => None } } else
    { Some((st, ev, pos)) }
}
pub open spec fn file_from(ev: Seq<Ev>, st: VData, ks: Ks, pos: int) -> Got2<VData> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match file_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { file_from(e, t, ks, p) } else { None }, None => None },
            Ev::End(n) => if n == "KeePassFile"@ { Some((st, ev.skip(1), pos)) } else { file_from(ev.skip(1), st, ks, pos) },
            Ev::EndDoc => None,
            _ => file_from(ev.skip(1), st, ks, pos),
        }
    }
}
pub open spec fn doc_from(ev: Seq<Ev>, st: VData, ks: Ks, pos: int) -> Option<VData> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => if n == "KeePassFile"@ { match file_from(ev.skip(1), st, ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { doc_from(e, t, ks, p) } else { None }, None => None } } else { None },
            Ev::EndDoc => Some(st),
            _ => doc_from(ev.skip(1), st, ks, pos),
        }
    }
}
/// What a document says under an inner key, if it can be read.
pub open spec fn document(xml: Seq<u8>, key: Seq<u8>) -> Option<VData> { doc_from(events(xml, true, true), fresh_data(), keystream(key), 0) }
/// The data are what the document says.
pub open spec fn came_from(x: XmlData, xml: Seq<u8>, key: Seq<u8>) -> bool { document(xml, key) == Some(vdata(x)) }
@fn read_meta
@props C01 C18 C03
@attr #[verifier::rlimit(200)] #[verifier::spinoff_prover]
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Meta"@,
    ensures
        match meta_from(old(reader).ahead(), vdata(*old(data))) { Some((v, e)) => r is Ok && vdata(*final(data)) == v && final(reader).ahead() == e, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            meta_from(old(reader).ahead(), vdata(*old(data))) == meta_from(reader.ahead(), vdata(*data)),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Meta"@,
        ensures
            meta_from(old(reader).ahead(), vdata(*old(data))) == Some((vdata(*data), reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_memory_protection
@props C01 C18 C03
@attr #[verifier::rlimit(200)] #[verifier::spinoff_prover]
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "MemoryProtection"@,
    ensures
        match protection_from(old(reader).ahead(), vdata(*old(data)).protect) { Some((v, e)) => r is Ok && vdata(*final(data)) == (VData { protect: v, ..vdata(*old(data)) }) && final(reader).ahead() == e, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            protection_from(old(reader).ahead(), vdata(*old(data)).protect) == protection_from(reader.ahead(), vdata(*data).protect),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            vdata(*data) == (VData { protect: vdata(*data).protect, ..vdata(*old(data)) }),
            old(reader).open().len() > 0, old(reader).open().last() == "MemoryProtection"@,
        ensures
            protection_from(old(reader).ahead(), vdata(*old(data)).protect) == Some((vdata(*data).protect, reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_kee_pass_file
@props C01 C08 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "KeePassFile"@,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match file_from(old(reader).ahead(), vdata(*old(data)), old(cipher).ks(), old(cipher).pos()) { Some((v, e, p)) => r is Ok && vdata(*final(data)) == v && final(reader).ahead() == e && final(cipher).pos() == p, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            file_from(old(reader).ahead(), vdata(*old(data)), old(cipher).ks(), old(cipher).pos()) == file_from(reader.ahead(), vdata(*data), old(cipher).ks(), cipher.pos()),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "KeePassFile"@,
            cipher.ks() == old(cipher).ks(),
        ensures
            file_from(old(reader).ahead(), vdata(*old(data)), old(cipher).ks(), old(cipher).pos()) == Some((vdata(*data), reader.ahead(), cipher.pos())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_root
@props C01 C08 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Root"@,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match root_from(old(reader).ahead(), vdata(*old(data)).root, old(cipher).ks(), old(cipher).pos()) { Some((v, e, p)) => r is Ok && vdata(*final(data)) == (VData { root: v, ..vdata(*old(data)) }) && final(reader).ahead() == e && final(cipher).pos() == p, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            root_from(old(reader).ahead(), vdata(*old(data)).root, old(cipher).ks(), old(cipher).pos()) == root_from(reader.ahead(), vdata(*data).root, old(cipher).ks(), cipher.pos()),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Root"@,
            cipher.ks() == old(cipher).ks(),
            *data == (XmlData { root_group: data.root_group, ..*old(data) }),
        ensures
            root_from(old(reader).ahead(), vdata(*old(data)).root, old(cipher).ks(), old(cipher).pos()) == Some((vdata(*data).root, reader.ahead(), cipher.pos())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_binaries
@props C01 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Binaries"@,
    ensures
        match pool_from(old(reader).ahead(), Map::empty()) { Some((v, e)) => r is Ok && vdatas(r->Ok_0@) == v && final(reader).ahead() == e, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            pool_from(old(reader).ahead(), Map::empty()) == pool_from(reader.ahead(), vdatas(map@)),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Binaries"@,
        ensures
            pool_from(old(reader).ahead(), Map::empty()) == Some((vdatas(map@), reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_custom_data
@props C01 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "CustomData"@,
    ensures
        match items_from(old(reader).ahead(), Map::empty()) { Some((v, e)) => r is Ok && vtexts(r->Ok_0@) == v && final(reader).ahead() == e, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            items_from(old(reader).ahead(), Map::empty()) == items_from(reader.ahead(), vtexts(map@)),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "CustomData"@,
        ensures
            items_from(old(reader).ahead(), Map::empty()) == Some((vtexts(map@), reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_custom_icons
@props C01 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "CustomIcons"@,
    ensures
        match pictures_from(old(reader).ahead(), Map::empty()) { Some((v, e)) => r is Ok && vdatas(r->Ok_0@) == v && final(reader).ahead() == e, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            pictures_from(old(reader).ahead(), Map::empty()) == pictures_from(reader.ahead(), vdatas(map@)),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "CustomIcons"@,
        ensures
            pictures_from(old(reader).ahead(), Map::empty()) == Some((vdatas(map@), reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_custom_data_item
@props C01 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Item"@,
    ensures
        match item_from(old(reader).ahead(), none()) { Some((v, e)) => (match both(v) { Some((a, b)) => r is Ok && r->Ok_0.0@ == a && r->Ok_0.1@ == b, None => r is Err }) && final(reader).ahead() == e, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            item_from(old(reader).ahead(), none()) == item_from(reader.ahead(), Two { a: str_opt(key), b: str_opt(value) }),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Item"@,
        ensures
            item_from(old(reader).ahead(), none()) == Some((Two { a: str_opt(key), b: str_opt(value) }, reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_custom_icon
@props C01 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Icon"@,
    ensures
        match picture_from(old(reader).ahead(), none()) { Some((v, e)) => (match both(v) { Some((a, b)) => r is Ok && r->Ok_0.0.0@ == a && r->Ok_0.1@ == b, None => r is Err }) && final(reader).ahead() == e, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            picture_from(old(reader).ahead(), none()) == picture_from(reader.ahead(), Two { a: icon_id(uuid), b: crate::format::xml::vec_opt(data) }),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Icon"@,
        ensures
            picture_from(old(reader).ahead(), none()) == Some((Two { a: icon_id(uuid), b: crate::format::xml::vec_opt(data) }, reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_binary
@props C01 C08 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Binary"@,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match bin_from(old(reader).ahead(), none(), old(cipher).ks(), old(cipher).pos()) { Some((v, e, p)) => (match both(v) { Some((a, b)) => r is Ok && r->Ok_0.0 == a && vbin(r->Ok_0.1) == b, None => r is Err }) && final(reader).ahead() == e && final(cipher).pos() == p, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            bin_from(old(reader).ahead(), none(), old(cipher).ks(), old(cipher).pos()) == bin_from(reader.ahead(), Two { a: key, b: match value { Some(x) => Some(vbin(x)), None => None } }, old(cipher).ks(), cipher.pos()),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Binary"@,
            cipher.ks() == old(cipher).ks(),
        ensures
            bin_from(old(reader).ahead(), none(), old(cipher).ks(), old(cipher).pos()) == Some((Two { a: key, b: match value { Some(x) => Some(vbin(x)), None => None } }, reader.ahead(), cipher.pos())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_string
@props C01 C08 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "String"@,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match str_from(old(reader).ahead(), none(), old(cipher).ks(), old(cipher).pos()) { Some((v, e, p)) => (match both(v) { Some((a, b)) => r is Ok && r->Ok_0.0 == a && vstr(r->Ok_0.1) == b, None => r is Err }) && final(reader).ahead() == e && final(cipher).pos() == p, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            str_from(old(reader).ahead(), none(), old(cipher).ks(), old(cipher).pos()) == str_from(reader.ahead(), Two { a: key, b: match value { Some(x) => Some(vstr(x)), None => None } }, old(cipher).ks(), cipher.pos()),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "String"@,
            cipher.ks() == old(cipher).ks(),
        ensures
            str_from(old(reader).ahead(), none(), old(cipher).ks(), old(cipher).pos()) == Some((Two { a: key, b: match value { Some(x) => Some(vstr(x)), None => None } }, reader.ahead(), cipher.pos())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_times
@props C01 C16 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Times"@,
    ensures
        match times_from(old(reader).ahead(), vtimes(old(node))) { Some((v, e)) => r is Ok && vtimes(final(node)) == v && final(reader).ahead() == e, None => r is Err },
        final(node).t_rest() == old(node).t_rest(),
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            times_from(old(reader).ahead(), vtimes(old(node))) == times_from(reader.ahead(), vtimes(node)),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Times"@,
            node.t_rest() == old(node).t_rest(),
        ensures
            times_from(old(reader).ahead(), vtimes(old(node))) == Some((vtimes(node), reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_auto_type
@props C01 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "AutoType"@,
    ensures
        match auto_from(old(reader).ahead(), ventry(*old(node))) { Some((v, e)) => r is Ok && ventry(*final(node)) == v && final(reader).ahead() == e, None => r is Err },
        final(node).parent == old(node).parent,
        r is Ok ==> stays(old(reader), final(reader)),
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            auto_from(old(reader).ahead(), ventry(*old(node))) == auto_from(reader.ahead(), ventry(*node)),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "AutoType"@, node.parent == old(node).parent,
        ensures
            auto_from(old(reader).ahead(), ventry(*old(node))) == Some((ventry(*node), reader.ahead())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn read_entry
@props C01 C08 C13 C18 C03
@ret r
@eq str
@spec
    requires parent.0@ == nil_uuid()@, old(reader).open().len() > 0, old(reader).open().last() == "Entry"@,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match entry_from(old(reader).ahead(), fresh_entry(), old(cipher).ks(), (state is Active), parent.0@, old(cipher).pos()) { Some((v, e, p)) => r is Ok && ventry(r->Ok_0) == v && final(reader).ahead() == e && final(cipher).pos() == p, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
    decreases old(reader).ahead().len(), 1int
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            entry_from(old(reader).ahead(), fresh_entry(), old(cipher).ks(), (state is Active), parent.0@, old(cipher).pos()) == entry_from(reader.ahead(), ventry(node), old(cipher).ks(), (state is Active), parent.0@, cipher.pos()),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Entry"@, parent.0@ == nil_uuid()@, node.parent.0@ == nil_uuid()@,
            cipher.ks() == old(cipher).ks(),
        ensures
            entry_from(old(reader).ahead(), fresh_entry(), old(cipher).ks(), (state is Active), parent.0@, old(cipher).pos()) == Some((ventry(node), reader.ahead(), cipher.pos())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
        proof {
            let ev = reader.ahead();
            if ev.len() > 0 { if let Ev::Start(n, a) = ev[0] { let vx_s = entry_step(ventry(node), n, a, ev.skip(1), cipher.ks(), (state is Active), parent.0@, cipher.pos()); } }
        }
@before loop
    proof { lemma_fresh_entry(node); }
@fn read_history
@props C01 C08 C18 C03
@ret r
@eq str
@spec
    requires parent.0@ == nil_uuid()@, old(reader).open().len() > 0, old(reader).open().last() == "History"@,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match past_from(old(reader).ahead(), seq![], old(cipher).ks(), parent.0@, old(cipher).pos()) { Some((v, e, p)) => r is Ok && ventries(r->Ok_0@) == v && final(reader).ahead() == e && final(cipher).pos() == p, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
    decreases old(reader).ahead().len(), 1int
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            past_from(old(reader).ahead(), seq![], old(cipher).ks(), parent.0@, old(cipher).pos()) == past_from(reader.ahead(), ventries(list@), old(cipher).ks(), parent.0@, cipher.pos()),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "History"@, parent.0@ == nil_uuid()@,
            cipher.ks() == old(cipher).ks(),
        ensures
            past_from(old(reader).ahead(), seq![], old(cipher).ks(), parent.0@, old(cipher).pos()) == Some((ventries(list@), reader.ahead(), cipher.pos())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@before loop
    proof { assert(ventries(list@) =~= seq![]); }
@fn read_group
@props C01 C08 C13 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Group"@,
    ensures
        final(cipher).ks() == old(cipher).ks(),
        match group_from(old(reader).ahead(), fresh_group(parent.0@), old(cipher).ks(), old(cipher).pos()) { Some((v, e, p)) => r is Ok && vgroup(r->Ok_0) == v && final(reader).ahead() == e && final(cipher).pos() == p, None => r is Err },
        r is Ok ==> stays(old(reader), final(reader)),
    decreases old(reader).ahead().len(), 1int
@start
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@loop 0
        invariant_except_break
            group_from(old(reader).ahead(), fresh_group(parent.0@), old(cipher).ks(), old(cipher).pos()) == group_from(reader.ahead(), vgroup(node), old(cipher).ks(), cipher.pos()),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Group"@,
            cipher.ks() == old(cipher).ks(),
        ensures
            group_from(old(reader).ahead(), fresh_group(parent.0@), old(cipher).ks(), old(cipher).pos()) == Some((adopted(vgroup(node)), reader.ahead(), cipher.pos())), stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
        proof {
            let ev = reader.ahead();
            if ev.len() > 0 { if let Ev::Start(n, a) = ev[0] { let vx_s = group_step(vgroup(node), n, a, ev.skip(1), cipher.ks(), cipher.pos()); } }
        }
@before loop
    proof { lemma_fresh_group(node); }
@before let parent = node.uuid
    let ghost g0 = node;
@loop 1 vx_i !slots
        invariant
            0 <= vx_i <= node.entries@.len(), node == (Group { entries: node.entries, ..g0 }), node.entries@.len() == g0.entries@.len(),
            forall|j: int| 0 <= j < vx_i ==> #[trigger] node.entries@[j] == (Entry { parent: parent, ..g0.entries@[j] }),
            forall|j: int| vx_i <= j < node.entries@.len() ==> #[trigger] node.entries@[j] == g0.entries@[j],
        decreases node.entries@.len() - vx_i
@loop 2 vx_i !slots
        invariant
            0 <= vx_i <= node.groups@.len(), node == (Group { entries: node.entries, groups: node.groups, ..g0 }), node.groups@.len() == g0.groups@.len(),
            node.entries@.len() == g0.entries@.len(), forall|j: int| 0 <= j < node.entries@.len() ==> #[trigger] node.entries@[j] == (Entry { parent: parent, ..g0.entries@[j] }),
            forall|j: int| 0 <= j < vx_i ==> #[trigger] node.groups@[j] == (Group { parent: parent, ..g0.groups@[j] }),
            forall|j: int| vx_i <= j < node.groups@.len() ==> #[trigger] node.groups@[j] == g0.groups@[j],
        decreases node.groups@.len() - vx_i
@tail
    proof { lemma_adopted(g0, node); }
@fn read_association
@props C01 C18 C03
@ret r
@eq str
@spec
    requires old(reader).open().len() > 0, old(reader).open().last() == "Association"@,
    ensures
        ({ let (v, e) = assoc_from(old(reader).ahead(), none());
            final(reader).ahead() == e && (match v { Some(x) => r is Ok && vassoc(r->Ok_0) == x, None => r is Err }) }),
        stays(old(reader), final(reader)),
@start
        broadcast use crate::vx::lemmas::ax_str_ext;
@loop 0
        invariant_except_break
            assoc_from(old(reader).ahead(), none()) == assoc_from(reader.ahead(), Two { a: str_opt(keystroke), b: str_opt(window) }),
            inside(old(reader).open(), reader.open()), reader.ahead().len() <= old(reader).ahead().len(),
        invariant
            old(reader).open().len() > 0, old(reader).open().last() == "Association"@,
        ensures
            assoc_from(old(reader).ahead(), none()) == (match both(Two { a: str_opt(keystroke), b: str_opt(window) }) { Some((a, b)) => Some(VAssoc { keys: a, win: b }), None => None }, reader.ahead()),
            stays(old(reader), reader),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
@fn get_compressed_attr_value
@props C18 C03
@ret r
@spec
    ensures
        match flag(attrs_of(attrs@), "compressed"@) { Some(b) => r is Ok && r->Ok_0 == b, None => r is Err },
        final(reader).ahead() == old(reader).ahead(), final(reader).open() == old(reader).open(),
@fn get_id_attr_value
@props C18 C03
@ret r
@spec
    ensures
        match attr_val(attrs_of(attrs@), "id"@) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err },
        final(reader).ahead() == old(reader).ahead(), final(reader).open() == old(reader).open(),
@fn read
@props C01 C03 C08 C18
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@spec
    requires old(reader).fault() is None,
    ensures
        match document(old(reader).rest(), stream_key.0@) { Some(v) => r is Ok && vdata(r->Ok_0) == v, None => r is Err },
@start
    broadcast use crate::vx::lemmas::ax_str_ext;
    let ghost xml = reader.rest();
    let ghost key = stream_key.0@;
@before loop
    proof { lemma_fresh_data(data); }
@loop 0
        invariant_except_break
            document(xml, key) == doc_from(reader.ahead(), vdata(data), keystream(key), cipher.pos()),
        invariant
            cipher.ks() == keystream(key),
        ensures
            document(xml, key) == Some(vdata(data)),
        decreases reader.ahead().len()
@loopstart 0
        broadcast use {crate::vx::lemmas::ax_str_ext, group_views, crate::vx::keys::group_keys};
