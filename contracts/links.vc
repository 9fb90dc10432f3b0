# C13: what a document says is linked as it is nested
@module format
@top
pub mod links { // format/links.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs};
use crate::vx::uuid::nil_uuid;
use crate::format::xml::Ks;
use crate::types::{Entry, Group, EntryUuid, GroupUuid};
use crate::types::database::{Database, opens, reading};
use crate::format::kdb2_xml_reader::{VEntry, VGroup, VData, group_from, group_step, root_from, root_step, file_from, file_step, meta_from, meta_step, doc_from, document, adopted, fresh_group, fresh_data, vgroup, vsubs, ventries, vgroups, ventry, group_views, lemma_all_subs};
verus! {
/// Every entry and group below g names the group it lies in.
pub open spec fn linked(g: VGroup) -> bool decreases g {
    &&& forall|i: int| 0 <= i < g.entries.len() ==> (#[trigger] g.entries[i]).within == g.id
    &&& forall|i: int| 0 <= i < g.groups.len() ==> (#[trigger] g.groups[i]).within == g.id && linked(g.groups[i])
}
pub open spec fn all_linked(s: Seq<VGroup>) -> bool { forall|i: int| 0 <= i < s.len() ==> linked(#[trigger] s[i]) }
proof fn lemma_moved(g: VGroup, w: Seq<u8>) ensures linked(VGroup { within: w, ..g }) == linked(g) {}
proof fn lemma_adopted_linked(g: VGroup) requires all_linked(g.groups) ensures linked(adopted(g)) {
    let a = adopted(g);
    assert forall|i: int| 0 <= i < a.groups.len() implies (#[trigger] a.groups[i]).within == a.id && linked(a.groups[i]) by { lemma_moved(g.groups[i], g.id); }
}
proof fn lemma_group(ev: Seq<Ev>, st: VGroup, ks: Ks, pos: int)
    requires all_linked(st.groups)
    ensures group_from(ev, st, ks, pos) matches Some((g, e, p)) ==> linked(g) && g.within == st.within
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => {
                if n == "Group"@ { lemma_group(ev.skip(1), fresh_group(nil_uuid()@), ks, pos); }
                match group_step(st, n, a, ev.skip(1), ks, pos) {
                    Some((t, e, p)) => if e.len() < ev.len() {
                        assert(all_linked(t.groups) && t.within == st.within);
                        lemma_group(e, t, ks, p);
                    },
                    None => {}
                }
            }
            Ev::End(n) => if n == "Group"@ { lemma_adopted_linked(st); } else { lemma_group(ev.skip(1), st, ks, pos); },
            Ev::EndDoc => {}
            _ => lemma_group(ev.skip(1), st, ks, pos),
        }
    }
}
pub open spec fn good(r: Option<VGroup>) -> bool { r matches Some(g) ==> linked(g) && g.within == nil_uuid()@ }
proof fn lemma_root(ev: Seq<Ev>, st: Option<VGroup>, ks: Ks, pos: int)
    requires good(st)
    ensures root_from(ev, st, ks, pos) matches Some((r, e, p)) ==> good(r)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => {
                if n == "Group"@ { lemma_group(ev.skip(1), fresh_group(nil_uuid()@), ks, pos); }
                match root_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_root(e, t, ks, p); }, None => {} }
            }
            Ev::EndDoc => {}
            Ev::End(n) => if n != "Root"@ { lemma_root(ev.skip(1), st, ks, pos); },
            _ => lemma_root(ev.skip(1), st, ks, pos),
        }
    }
}
proof fn lemma_meta(ev: Seq<Ev>, st: VData)
    ensures meta_from(ev, st) matches Some((t, e)) ==> t.root == st.root
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match meta_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { assert(t.root == st.root); lemma_meta(e, t); }, None => {} },
            Ev::EndDoc => {}
            Ev::End(n) => if n != "Meta"@ { lemma_meta(ev.skip(1), st); },
            _ => lemma_meta(ev.skip(1), st),
        }
    }
}
proof fn lemma_file(ev: Seq<Ev>, st: VData, ks: Ks, pos: int)
    requires good(st.root)
    ensures file_from(ev, st, ks, pos) matches Some((t, e, p)) ==> good(t.root)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => {
                if n == "Meta"@ { lemma_meta(ev.skip(1), st); }
                if n == "Root"@ { lemma_root(ev.skip(1), st.root, ks, pos); }
                match file_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { assert(good(t.root)) by { reveal_strlit("Meta"); reveal_strlit("Root"); } lemma_file(e, t, ks, p); }, None => {} }
            }
            Ev::EndDoc => {}
            Ev::End(n) => if n != "KeePassFile"@ { lemma_file(ev.skip(1), st, ks, pos); },
            _ => lemma_file(ev.skip(1), st, ks, pos),
        }
    }
}
proof fn lemma_doc(ev: Seq<Ev>, st: VData, ks: Ks, pos: int)
    requires good(st.root)
    ensures doc_from(ev, st, ks, pos) matches Some(t) ==> good(t.root)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => if n == "KeePassFile"@ {
                lemma_file(ev.skip(1), st, ks, pos);
                match file_from(ev.skip(1), st, ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_doc(e, t, ks, p); }, None => {} }
            },
            Ev::EndDoc => {}
            _ => lemma_doc(ev.skip(1), st, ks, pos),
        }
    }
}
/// The same of a database's groups.
pub open spec fn parents_hold(g: Group) -> bool decreases g, g.groups@.len() + 1 {
    &&& forall|i: int| 0 <= i < g.entries@.len() ==> (#[trigger] g.entries@[i]).parent == g.uuid
    &&& forall|i: int| 0 <= i < g.groups@.len() ==> (#[trigger] g.groups@[i]).parent == g.uuid
    &&& parents_below(g, g.groups@.len())
}
pub open spec fn parents_below(g: Group, n: nat) -> bool decreases g, n {
    n == 0 || n > g.groups@.len() || (parents_below(g, (n - 1) as nat) && parents_hold(g.groups@[n - 1]))
}
proof fn lemma_parents(g: Group) requires linked(vgroup(g)) ensures parents_hold(g) decreases g, g.groups@.len() + 1 {
    broadcast use crate::vx::uuid::ax_uuid_ext;
    lemma_all_subs(g);
    assert forall|i: int| 0 <= i < g.entries@.len() implies (#[trigger] g.entries@[i]).parent == g.uuid by {
        assert(vgroup(g).entries[i].within == vgroup(g).id); assert(vgroup(g).entries[i] == ventry(g.entries@[i]));
        assert(g.entries@[i].parent.0@ == g.uuid.0@);
    }
    assert forall|i: int| 0 <= i < g.groups@.len() implies (#[trigger] g.groups@[i]).parent == g.uuid by {
        assert(vgroup(g).groups[i].within == vgroup(g).id); assert(vgroup(g).groups[i] == vgroup(g.groups@[i]));
        assert(g.groups@[i].parent.0@ == g.uuid.0@);
    }
    lemma_parents_below(g, g.groups@.len());
}
proof fn lemma_parents_below(g: Group, n: nat) requires n <= g.groups@.len(), linked(vgroup(g)) ensures parents_below(g, n) decreases g, n {
    lemma_all_subs(g);
    if n > 0 {
        lemma_parents_below(g, (n - 1) as nat);
        assert(vgroup(g).groups[n - 1] == vgroup(g.groups@[n - 1]));
        lemma_parents(g.groups@[n - 1]);
    }
}
/// C13: in every database opened every active entry and every group below the root names the group
/// that holds it, at every depth, and the root group's parent is nil.
pub proof fn opened_databases_are_linked(s: Seq<u8>, key: Seq<u8>, db: Database)
    requires opens(s, key, db)
    ensures parents_hold(db.root_group), db.root_group.parent == GroupUuid(nil_uuid())
{
    broadcast use crate::vx::uuid::ax_uuid_ext;
    let (n, v) = reading(s, key).unwrap();
    lemma_doc(crate::vx::xml::events(n.xml, true, true), fresh_data(), crate::crypto::salsa20::keystream(crate::vx::sha256(n.fields[8])), 0);
    if v.root is Some { lemma_parents(db.root_group); assert(db.root_group.parent.0@ == nil_uuid()@); }
}
} // verus!
} // links
