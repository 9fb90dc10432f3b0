# the database's own functions: C11, C02, C06, C13
@module types::database
@top
use crate::types::group::{ahead, ahead_mut, bfs, step, qsize, Iter, is_first};
use crate::vx::{lower, has, deref};
use crate::vx::keys::group_keys;
use crate::vx::io::{Io, took, failed};
use crate::vx::{sha256, pad32};
use crate::format::kdb2_reader::{inner, Inner, Why, says, broke, described};
use crate::format::kdb2_xml_reader::{document, came_from, vdata, vgroup, vdatas, vtexts, VData, VGroup, VNames, VLimits, VPlaces, VProtect, VTables};
use crate::types::XmlData;
use crate::format::kdb2_writer::{file, head, since, fresh, sized, Secrets};
pub open spec fn signature() -> Seq<u8> { seq![0x03u8, 0xd9, 0xa2, 0x9a, 0x67, 0xfb, 0x4b, 0xb5] }
impl crate::vx::Bytes for crate::types::HeaderHash { open spec fn bytes(&self) -> Seq<u8> { self.0@ } }
/// What the database says, as a document with this header hash and root would.
pub open spec fn vbase(db: Database, hash: Option<Seq<u8>>, root: Option<VGroup>) -> VData {
    VData {
        names: VNames { name: db.name@, name_changed: db.name_changed, description: db.description@, description_changed: db.description_changed, def_username: db.def_username@, def_username_changed: db.def_username_changed, generator: db.generator@ },
        limits: VLimits { history_max_items: db.history_max_items, history_max_size: db.history_max_size, maintenance_history_days: db.maintenance_history_days, master_key_change_force: db.master_key_change_force, master_key_change_rec: db.master_key_change_rec, master_key_changed: db.master_key_changed, color: db.color },
        places: VPlaces { entry_templates_group_changed: db.entry_templates_group_changed, entry_templates_group_uuid: db.entry_templates_group_uuid.0@, last_selected_group: db.last_selected_group.0@, last_top_visible_group: db.last_top_visible_group.0@, recycle_bin_changed: db.recycle_bin_changed, recycle_bin_enabled: db.recycle_bin_enabled, recycle_bin_uuid: db.recycle_bin_uuid.0@ },
        protect: VProtect { protect_notes: db.protect_notes, protect_password: db.protect_password, protect_title: db.protect_title, protect_url: db.protect_url, protect_username: db.protect_username },
        tables: VTables { binaries: vdatas(db.binaries@), custom_data: vtexts(db.custom_data@), custom_icons: vdatas(db.custom_icons@), header_hash: hash },
        root,
    }
}
/// The database holds what the document says, and the root group if there is one.
pub open spec fn holds(db: Database, v: VData) -> bool {
    &&& vbase(db, v.tables.header_hash, v.root) == v
    &&& v.root matches Some(g) ==> vgroup(db.root_group) == g
    &&& v.root is None ==> crate::types::group::is_default_group(db.root_group) && db.root_group.name@ == "Root"@
    &&& db.db_type is Kdb2
}
/// The database holds what the outer header says.
pub open spec fn headed(db: Database, s: Seq<u8>, n: Inner) -> bool {
    exists|m: crate::types::MetaData| #[trigger] described(m, s.skip(8), n, s.take(8)) && db.comment == m.comment && db.compression == m.compression
        && db.master_cipher == m.master_cipher && db.stream_cipher == m.stream_cipher && db.transform_rounds == m.transform_rounds && db.version == m.version
}
/// What a file says to someone who has the key, if every integrity check holds and the document can be read.
pub open spec fn reading(s: Seq<u8>, key: Seq<u8>) -> Option<(Inner, VData)> {
    if s.len() < 8 || s.take(8) != signature() { None } else {
        match inner(s.skip(8), key) {
            Err(_) => None,
            Ok(n) => match document(n.xml, sha256(n.fields[8])) {
                None => None,
                Some(v) => if v.tables.header_hash is Some && v.tables.header_hash.unwrap() != sha256(s.take(8 + n.size)) { None } else { Some((n, v)) },
            },
        }
    }
}
/// The database is what the file says.
pub open spec fn opens(s: Seq<u8>, key: Seq<u8>, db: Database) -> bool { reading(s, key) matches Some((n, v)) && headed(db, s, n) && holds(db, v) }
/// Why opening s with the key fails.
pub open spec fn refuses(s: Seq<u8>, key: Seq<u8>, e: Error) -> bool {
    if s.len() < 4 { says(Why::Short, e) }
    else if s.take(4) != signature().take(4) { e matches Error::InvalidDbSignature(a) && a@ == s.take(4) }
    else if s.len() < 8 { says(Why::Short, e) }
    else if s.subrange(4, 8) != signature().skip(4) { e matches Error::UnhandledDbType(a) && a@ == s.subrange(4, 8) }
    else { match inner(s.skip(8), key) { Err(w) => says(w, e), Ok(_) => reading(s, key) is None } }
}
/// C04: whether a file opens, and to what, is a function of its bytes and the key: no two
/// openings of the same bytes without a read error come out differently.
pub proof fn opening_depends_on_the_bytes(s: Seq<u8>, key: Seq<u8>, a: Database, b: Database, e: Error)
    requires opens(s, key, a)
    ensures
        !refuses(s, key, e),
        opens(s, key, b) ==> (reading(s, key).unwrap().1.root matches Some(g) ==> vgroup(a.root_group) == g && vgroup(b.root_group) == g)
            && vbase(a, None, None) == vbase(b, None, None) && a.version == b.version && a.transform_rounds == b.transform_rounds && a.compression == b.compression
            && (match a.comment { Some(c) => b.comment matches Some(d) && c.0@ == d.0@, None => b.comment is None }),
{
    assert(s.take(8).take(4) =~= s.take(4)); assert(s.take(8).skip(4) =~= s.subrange(4, 8));
    if opens(s, key, b) {
        let v = reading(s, key).unwrap().1;
        assert(vbase(a, v.tables.header_hash, v.root) == vbase(b, v.tables.header_hash, v.root));
    }
}
/// C02: a file that opens has passed every check.
pub proof fn opening_checks_everything(s: Seq<u8>, key: Seq<u8>, db: Database)
    requires opens(s, key, db)
    ensures
        s.len() >= 8, s.take(8) == signature(),
        inner(s.skip(8), key) matches Ok(n) && (reading(s, key).unwrap().1.tables.header_hash matches Some(h) ==> h == sha256(s.take(8 + n.size))),
{}
/// Whether an entry is found: an unprotected value holds the text, ignoring case.
pub open spec fn entry_matches(e: Entry, low: Seq<char>) -> bool {
    exists|k: crate::types::string_key::StringKey| #[trigger] e.strings@.contains_key(k) && plain_has(e.strings@[k], low)
}
pub open spec fn plain_has(v: StringValue, low: Seq<char>) -> bool { v matches StringValue::Plain(s) && has(lower(s@), low) }
pub open spec fn matching_entries(es: Seq<Entry>, low: Seq<char>) -> Seq<Entry> { es.filter(|e: Entry| entry_matches(e, low)) }
/// The entries found in the groups, in order.
pub open spec fn found(gs: Seq<Group>, low: Seq<char>) -> Seq<Entry> decreases gs.len() {
    if gs.len() == 0 { seq![] } else { matching_entries(gs[0].entries@, low) + found(gs.skip(1), low) }
}
pub open spec fn all_groups(db: Database) -> Seq<Group> { bfs(seq![db.root_group]) }
pub open spec fn all_entries(gs: Seq<Group>) -> Seq<Entry> decreases gs.len() {
    if gs.len() == 0 { seq![] } else { gs[0].entries@ + all_entries(gs.skip(1)) }
}
pub open spec fn is_first_entry(s: Seq<Entry>, uuid: EntryUuid, r: Option<&Entry>) -> bool {
    match r {
        Some(x) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == *x && x.uuid == uuid && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).uuid != uuid,
        None => forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).uuid != uuid,
    }
}
proof fn lemma_filter_step(es: Seq<Entry>, n: int, low: Seq<char>)
    requires 0 <= n < es.len()
    ensures matching_entries(es.take(n + 1), low) == (if entry_matches(es[n], low) { matching_entries(es.take(n), low).push(es[n]) } else { matching_entries(es.take(n), low) })
{
    reveal(Seq::filter);
    assert(es.take(n + 1).drop_last() =~= es.take(n));
}
/// C11: what a search finds does not depend on protected values, string names or history.
pub proof fn search_ignores_secrets(a: Entry, b: Entry, low: Seq<char>)
    requires forall|s: Seq<char>| #![trigger has_plain(a, s)] has_plain(a, s) == has_plain(b, s)
    ensures entry_matches(a, low) == entry_matches(b, low)
{
    if entry_matches(a, low) { lemma_plain(a, b, low); }
    assert forall|s: Seq<char>| #![trigger has_plain(b, s)] has_plain(b, s) == has_plain(a, s) by { assert(has_plain(a, s) == has_plain(b, s)); }
    if entry_matches(b, low) { lemma_plain(b, a, low); }
}
/// s is the text of an unprotected value.
pub open spec fn has_plain(e: Entry, s: Seq<char>) -> bool {
    exists|k: crate::types::string_key::StringKey| #[trigger] e.strings@.contains_key(k) && (e.strings@[k] matches StringValue::Plain(t) && t@ == s)
}
proof fn lemma_plain(a: Entry, b: Entry, low: Seq<char>)
    requires forall|s: Seq<char>| #![trigger has_plain(a, s)] has_plain(a, s) == has_plain(b, s), entry_matches(a, low)
    ensures entry_matches(b, low)
{
    let k = choose|k: crate::types::string_key::StringKey| #[trigger] a.strings@.contains_key(k) && plain_has(a.strings@[k], low);
    if let StringValue::Plain(t) = a.strings@[k] {
        assert(has_plain(a, t@)); assert(has_plain(b, t@));
    }
}
/// A database as the documentation describes a new one.
pub open spec fn is_new(db: Database, key: Seq<u8>) -> bool {
    &&& db.composite_key.0@ == key && db.comment is None && db.compression is GZip && db.db_type is Kdb2 && db.master_cipher is Aes256 && db.stream_cipher is Salsa20
    &&& db.transform_rounds.0 == 10000 && db.version.major == 3 && db.version.minor == 1
    &&& crate::types::group::is_default_group(db.root_group) && db.root_group.name@ == "Root"@
    &&& db.protect_password && !db.protect_title && !db.protect_notes && !db.protect_url && !db.protect_username
}
/// C13: a new database is linked.
pub proof fn new_databases_are_linked(db: Database, key: Seq<u8>)
    requires is_new(db, key) ensures crate::format::links::linked(vgroup(db.root_group))
{ assert(db.root_group.entries@.len() == 0 && db.root_group.groups@.len() == 0); }
@fn Database::new
@props C01 C06 C07 C08 C13
@ret r
@spec
    ensures is_new(r, key.0@),
@start
        broadcast use crate::vx::ax_text_of;
@fn Database::find_entries
@props C11
@ret r
@spec
    ensures deref(r@) == found(all_groups(*self), lower(text.vinto())),
@start
        broadcast use crate::vx::ax_text_of;
        let ghost low = lower(text.vinto());
@loop 0 vx_it !next
        invariant
            text@ == low, deref(list@) + found(bfs(ahead(vx_it)), low) == found(all_groups(*self), low),
        ensures
            deref(list@) == found(all_groups(*self), low),
        decreases qsize(ahead(vx_it))
@loopstart 0
            let ghost before = deref(list@);
@loopend 0
            proof {
                assert(group.entries@.take(group.entries@.len() as int) =~= group.entries@);
                assert((seq![*group] + bfs(ahead(vx_it))).skip(1) =~= bfs(ahead(vx_it)));
                assert((seq![*group] + bfs(ahead(vx_it)))[0] == *group);
                assert(found(bfs(ahead(vx_it_before)), low) == matching_entries(group.entries@, low) + found(bfs(ahead(vx_it)), low));
                assert(deref(list@) + found(bfs(ahead(vx_it)), low) =~= before + found(bfs(ahead(vx_it_before)), low));
            }
@loop 1 it
        invariant
            text@ == low, deref(it.seq()) == group.entries@,
            deref(list@) == before + matching_entries(group.entries@.take(it.index@), low),
@loopstart 1
                let ghost lv = list@;
@loopend 1
                proof {
                    lemma_filter_step(group.entries@, it.index@, low);
                    assert(deref(it.seq())[it.index@] == group.entries@[it.index@]);
                    if entry_matches(*entry, low) { assert(deref(list@) =~= deref(lv).push(*entry)); }
                    assert(deref(list@) =~= before + matching_entries(group.entries@.take(it.index@ + 1), low));
                }
@fn Database::find_groups
@props C11
@ret r
@spec
    ensures deref(r@) == all_groups(*self).filter(|g: Group| has(lower(g.name@), lower(name.vinto()))),
@start
        broadcast use crate::vx::ax_text_of;
        let ghost low = lower(name.vinto());
@call filter crate::types::group::it_filter(Ghost(|g: Group| has(lower(g.name@), low))
@closure
|g: &&Group| -> (b: bool) ensures b == has(lower((**g).name@), low)
@fn Database::get_group
@props C11
@ret r
@spec
    ensures is_first(all_groups(*self), |g: Group| g.uuid == uuid, r),
@call find crate::types::group::it_find(Ghost(|g: Group| g.uuid == uuid)
@closure
|g: &&Group| -> (b: bool) ensures b == ((**g).uuid == uuid)
@fn entry_contains_string
@attr #[verifier::loop_isolation(false)]
@props C11
@ret r
@spec
    ensures r == entry_matches(*entry, name@),
@start
        broadcast use group_keys;
        broadcast use crate::vx::ax_key_order;
@loop 0 it !values
        invariant
            deref(it.seq()) == crate::vx::values_of(entry.strings),
            it.seq().len() == crate::vx::key_order(entry.strings).len(),
            forall|i: int| 0 <= i < it.index@ ==> !plain_has(entry.strings@[#[trigger] crate::vx::key_order(entry.strings)[i]], name@),
@loopstart 0
            proof {
                crate::vx::ax_key_order(entry.strings);
                let k = crate::vx::key_order(entry.strings)[it.index@];
                assert(deref(it.seq())[it.index@] == crate::vx::values_of(entry.strings)[it.index@]);
                assert(*value == entry.strings@[k]);
                assert(crate::vx::key_order(entry.strings).contains(k));
                assert(entry.strings@.contains_key(k));
            }
@tail
    proof {
        let o = crate::vx::key_order(entry.strings);
        assert forall|k: crate::types::string_key::StringKey| #[trigger] entry.strings@.contains_key(k) implies !plain_has(entry.strings@[k], name@) by {
            assert(o.contains(k));
            let i = choose|i: int| 0 <= i < o.len() && o[i] == k;
            assert(!plain_has(entry.strings@[o[i]], name@));
        }
    }
@fn Database::get_entry
@props C11
@ret r
@spec
    ensures is_first_entry(all_entries(all_groups(*self)), uuid, r),
@start
        let ghost all = all_entries(all_groups(*self));
        let ghost mut done: Seq<Entry> = seq![];
        proof { assert(done + all =~= all); }
@loop 0 vx_it !next
        invariant
            all == all_entries(all_groups(*self)), done + all_entries(bfs(ahead(vx_it))) == all,
            forall|j: int| 0 <= j < done.len() ==> (#[trigger] all[j]).uuid != uuid,
        ensures
            forall|j: int| 0 <= j < all.len() ==> (#[trigger] all[j]).uuid != uuid,
        decreases qsize(ahead(vx_it))
@loopstart 0
            let ghost rest = all_entries(bfs(ahead(vx_it)));
            proof {
                assert((seq![*group] + bfs(ahead(vx_it))).skip(1) =~= bfs(ahead(vx_it)));
                assert((seq![*group] + bfs(ahead(vx_it)))[0] == *group);
                assert(all_entries(bfs(ahead(vx_it_before))) == group.entries@ + rest);
                assert(all =~= done + group.entries@ + rest);
            }
@loopend 0
            proof { done = done + group.entries@; }
@loop 1 it
        invariant
            all == all_entries(all_groups(*self)), all == done + group.entries@ + rest, deref(it.seq()) == group.entries@,
            forall|j: int| 0 <= j < done.len() + it.index@ ==> (#[trigger] all[j]).uuid != uuid,
@loopstart 1
                proof {
                    assert(deref(it.seq())[it.index@] == group.entries@[it.index@]);
                    assert(all[done.len() + it.index@] == *entry);
                }
@erase Database::find_entries_mut entries
@erase Database::find_groups_mut
@erase Database::get_entry_mut entries
@erase Database::get_group_mut
@fn Database::find_entries_mut
@props C11
@ret r
@spec
    ensures deref(r@) == found(all_groups(*self), lower(text.vinto())),
@start
        broadcast use crate::vx::ax_text_of;
        let ghost low = lower(text.vinto());
@loop 0 vx_it !next
        invariant
            text@ == low, deref(list@) + found(bfs(ahead_mut(vx_it)), low) == found(all_groups(*self), low),
        ensures
            deref(list@) == found(all_groups(*self), low),
        decreases qsize(ahead_mut(vx_it))
@loopstart 0
            let ghost before = deref(list@);
@loopend 0
            proof {
                assert(group.entries@.take(group.entries@.len() as int) =~= group.entries@);
                assert((seq![*group] + bfs(ahead_mut(vx_it))).skip(1) =~= bfs(ahead_mut(vx_it)));
                assert((seq![*group] + bfs(ahead_mut(vx_it)))[0] == *group);
                assert(found(bfs(ahead_mut(vx_it_before)), low) == matching_entries(group.entries@, low) + found(bfs(ahead_mut(vx_it)), low));
                assert(deref(list@) + found(bfs(ahead_mut(vx_it)), low) =~= before + found(bfs(ahead_mut(vx_it_before)), low));
            }
@loop 1 it
        invariant
            text@ == low, deref(it.seq()) == group.entries@,
            deref(list@) == before + matching_entries(group.entries@.take(it.index@), low),
@loopstart 1
                let ghost lv = list@;
@loopend 1
                proof {
                    lemma_filter_step(group.entries@, it.index@, low);
                    assert(deref(it.seq())[it.index@] == group.entries@[it.index@]);
                    if entry_matches(*entry, low) { assert(deref(list@) =~= deref(lv).push(*entry)); }
                    assert(deref(list@) =~= before + matching_entries(group.entries@.take(it.index@ + 1), low));
                }
@fn Database::find_groups_mut
@props C11
@ret r
@spec
    ensures deref(r@) == all_groups(*self).filter(|g: Group| has(lower(g.name@), lower(name.vinto()))),
@start
        broadcast use crate::vx::ax_text_of;
        let ghost low = lower(name.vinto());
@call filter crate::types::group::it_filter_mut(Ghost(|g: Group| has(lower(g.name@), low))
@closure
|g: &&Group| -> (b: bool) ensures b == has(lower((**g).name@), low)
@fn Database::get_entry_mut
@props C11
@ret r
@spec
    ensures is_first_entry(all_entries(all_groups(*self)), uuid, r),
@start
        let ghost all = all_entries(all_groups(*self));
        let ghost mut done: Seq<Entry> = seq![];
        proof { assert(done + all =~= all); }
@loop 0 vx_it !next
        invariant
            all == all_entries(all_groups(*self)), done + all_entries(bfs(ahead_mut(vx_it))) == all,
            forall|j: int| 0 <= j < done.len() ==> (#[trigger] all[j]).uuid != uuid,
        ensures
            forall|j: int| 0 <= j < all.len() ==> (#[trigger] all[j]).uuid != uuid,
        decreases qsize(ahead_mut(vx_it))
@loopstart 0
            let ghost rest = all_entries(bfs(ahead_mut(vx_it)));
            proof {
                assert((seq![*group] + bfs(ahead_mut(vx_it))).skip(1) =~= bfs(ahead_mut(vx_it)));
                assert((seq![*group] + bfs(ahead_mut(vx_it)))[0] == *group);
                assert(all_entries(bfs(ahead_mut(vx_it_before))) == group.entries@ + rest);
                assert(all =~= done + group.entries@ + rest);
            }
@loopend 0
            proof { done = done + group.entries@; }
@loop 1 it
        invariant
            all == all_entries(all_groups(*self)), all == done + group.entries@ + rest, deref(it.seq()) == group.entries@,
            forall|j: int| 0 <= j < done.len() + it.index@ ==> (#[trigger] all[j]).uuid != uuid,
@loopstart 1
                proof {
                    assert(deref(it.seq())[it.index@] == group.entries@[it.index@]);
                    assert(all[done.len() + it.index@] == *entry);
                }
@fn Database::get_group_mut
@props C11
@ret r
@spec
    ensures is_first(all_groups(*self), |g: Group| g.uuid == uuid, r),
@call find crate::types::group::it_find_mut(Ghost(|g: Group| g.uuid == uuid)
@closure
|g: &&Group| -> (b: bool) ensures b == ((**g).uuid == uuid)
@fn Database::open
@props C02 C03 C04 C06 C07 C09
@ret r
@spec
    requires old(reader).rest().len() < 40 * 0xffff_ffff,
    ensures
        r matches Ok(db) ==> opens(old(reader).rest(), pad32(key.0@), db) && db.composite_key.0@ == key.0@, //@C02 @C06 @C18
        r is Ok ==> old(reader).fault() is None, //@C04
        r matches Err(e) ==> broke(old(reader), e) || refuses(old(reader).rest(), pad32(key.0@), e), //@C04 @C06
@start
        broadcast use lemma_array_eq;
        proof {
            let s = reader.rest();
            assert(common::DB_SIGNATURE@ =~= signature().take(4));
            assert(common::KDB2_SIGNATURE@ =~= signature().skip(4));
            assert(common::KDB1_SIGNATURE@[0] != common::KDB2_SIGNATURE@[0]);
            if s.len() >= 8 {
                assert(s.skip(4).take(4) =~= s.subrange(4, 8));
                assert(s.skip(4).skip(4) =~= s.skip(8));
                assert(s.take(4) + s.subrange(4, 8) =~= s.take(8));
                assert(Seq::<u8>::empty() + s.take(4) =~= s.take(4));
                assert(s.take(8) + s.skip(8) =~= s);
                assert(signature().take(4) + signature().skip(4) =~= signature());
            }
        }
@fn Database::open_kdb2
@props C02 C06
@ret r
@eq bytes
@spec
    requires
        old(reader).logging(), old(reader).log_data() == signature(),
        old(reader).rest().len() < 40 * 0xffff_ffff,
    ensures
        r matches Ok(db) ==> db.composite_key.0@ == key.0@ && opens(signature() + old(reader).rest(), pad32(key.0@), db), //@C02 @C06 @C18
        r is Ok ==> old(reader).fault() is None, //@C04
        r matches Err(e) ==> broke(old(reader), e) || refuses(signature() + old(reader).rest(), pad32(key.0@), e), //@C04 @C06
@start
        proof {
            let s = old(reader).rest();
            let log = old(reader).log_data();
            crate::format::kdb2_reader::lemma_header_len(s.skip(4), Map::empty());
            assert((log + s).skip(8) =~= s);
            assert((log + s).take(8) =~= log);
            assert((log + s).take(4) =~= log.take(4));
            assert((log + s).subrange(4, 8) =~= log.skip(4));
            if let Ok(n) = inner(s, pad32(key.0@)) { assert((log + s).take(8 + n.size) =~= log + s.take(n.size)); }
        }
@fn Database::save
@props C05 C06 C07 C08 C09 C17
@ret r
@spec
    ensures
        r is Ok ==> self.db_type is Kdb2 && exists|x: Secrets, xml: Seq<u8>| #[trigger] file(*self, x, xml) == since(old(writer).out(), (*final(writer)).out())
            && crate::format::kdb2_xml_writer::stands_for(xml, *self, sha256(head(*self, x)), sha256(x.stream_key)) && sized(x), //@C01 @C05 @C06 @C07 @C08 @C09
        r is Ok ==> exists|x: Secrets, xml: Seq<u8>| #[trigger] file(*self, x, xml) == since(old(writer).out(), (*final(writer)).out()) && fresh(x), //@C17
        r is Ok ==> old(writer).out().is_prefix_of((*final(writer)).out()), //@C05
        r is Ok ==> (self.comment matches Some(c) ==> c.0@.len() <= 0xffff), //@C06
        self.db_type is Kdb1 ==> r is Err,
@bind
        proof { assert(has_resolved(writer)); assert(has_resolved(writer.inner)); }
