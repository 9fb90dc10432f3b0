# groups: C10, C12, C16, C13
@module types::group
@top
use crate::types::times::Bare;
use crate::vx::chrono::the_time;
// ---- the tree ----
/// The number of groups in the tree under g, g included.
pub open spec fn gsize(g: Group) -> nat decreases g, g.groups@.len() + 1 { 1 + gsize_upto(g, g.groups@.len()) }
pub open spec fn gsize_upto(g: Group, n: nat) -> nat decreases g, n {
    if n == 0 || n > g.groups@.len() { 0 } else { gsize_upto(g, (n - 1) as nat) + gsize(g.groups@[n - 1]) }
}
pub open spec fn qsize(q: Seq<Group>) -> nat decreases q.len() { if q.len() == 0 { 0 } else { qsize(q.drop_last()) + gsize(q.last()) } }
pub proof fn lemma_qsize_append(a: Seq<Group>, b: Seq<Group>) ensures qsize(a + b) == qsize(a) + qsize(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_qsize_append(a, b.drop_last()); }
}
pub proof fn lemma_qsize_kids(g: Group, n: nat) requires n <= g.groups@.len() ensures qsize(g.groups@.take(n as int)) == gsize_upto(g, n) decreases n {
    if n > 0 {
        lemma_qsize_kids(g, (n - 1) as nat);
        let q = g.groups@.take(n as int);
        assert(q.drop_last() =~= g.groups@.take(n - 1)); assert(q.last() == g.groups@[n - 1]);
    }
}
/// Taking a group off the queue and putting its children on makes what is left smaller by one.
pub proof fn lemma_qsize_step(q: Seq<Group>) requires q.len() > 0 ensures qsize(step(q)) + 1 == qsize(q) {
    lemma_qsize_append(q.skip(1), q[0].groups@);
    lemma_qsize_append(q.take(1), q.skip(1));
    assert(q.take(1) + q.skip(1) =~= q);
    lemma_qsize_kids(q[0], q[0].groups@.len());
    assert(q[0].groups@.take(q[0].groups@.len() as int) =~= q[0].groups@);
    assert(q.take(1).drop_last() =~= Seq::<Group>::empty()); assert(q.take(1).last() == q[0]);
    assert(qsize(q.take(1)) == gsize(q[0])) by { reveal_with_fuel(qsize, 2); }
}
pub open spec fn step(q: Seq<Group>) -> Seq<Group> { q.skip(1) + q[0].groups@ }
/// What a traversal that still has q before it yields.
pub open spec fn bfs(q: Seq<Group>) -> Seq<Group> decreases qsize(q) via bfs_decreases {
    if q.len() == 0 { seq![] } else { seq![q[0]] + bfs(step(q)) }
}
#[via_fn] proof fn bfs_decreases(q: Seq<Group>) { if q.len() > 0 { lemma_qsize_step(q); } }
/// The children of all groups of a level, in order: the next level.
pub open spec fn kids(q: Seq<Group>) -> Seq<Group> decreases q.len() { if q.len() == 0 { seq![] } else { q[0].groups@ + kids(q.skip(1)) } }
pub open spec fn level(g: Group, n: nat) -> Seq<Group> decreases n { if n == 0 { seq![g] } else { kids(level(g, (n - 1) as nat)) } }
pub open spec fn levels(g: Group, n: nat) -> Seq<Group> decreases n { if n == 0 { seq![] } else { levels(g, (n - 1) as nat) + level(g, (n - 1) as nat) } }
proof fn lemma_bfs_level(q: Seq<Group>, t: Seq<Group>) ensures bfs(q + t) == q + bfs(t + kids(q)) decreases q.len() {
    if q.len() == 0 { assert(q + t =~= t); assert(t + kids(q) =~= t); assert(q + bfs(t) =~= bfs(t)); }
    else {
        let u = q.skip(1);
        assert(step(q + t) =~= u + (t + q[0].groups@)) by { assert((q + t).skip(1) =~= u + t); assert((q + t)[0] == q[0]); }
        lemma_bfs_level(u, t + q[0].groups@);
        assert((t + q[0].groups@) + kids(u) =~= t + kids(q));
        assert(bfs(q + t) =~= seq![q[0]] + (u + bfs(t + kids(q))));
        assert(seq![q[0]] + u =~= q);
        assert(seq![q[0]] + (u + bfs(t + kids(q))) =~= q + bfs(t + kids(q)));
    }
}
/// C10: the traversal is the levels of the tree one after the other, down to any depth.
pub proof fn traversal_is_level_by_level(g: Group, n: nat)
    ensures bfs(seq![g]) == levels(g, n) + bfs(level(g, n))
    decreases n
{
    if n == 0 { assert(levels(g, 0) + bfs(seq![g]) =~= bfs(seq![g])); }
    else {
        traversal_is_level_by_level(g, (n - 1) as nat);
        let l = level(g, (n - 1) as nat);
        lemma_bfs_level(l, seq![]);
        assert(l + Seq::<Group>::empty() =~= l);
        assert(Seq::<Group>::empty() + kids(l) =~= kids(l));
        assert(levels(g, (n - 1) as nat) + (l + bfs(kids(l))) =~= levels(g, n) + bfs(level(g, n)));
    }
}
/// C10: it yields as many groups as the tree has, so each once, and ends.
pub proof fn traversal_yields_every_group(q: Seq<Group>) ensures bfs(q).len() == qsize(q) decreases qsize(q) {
    if q.len() > 0 { lemma_qsize_step(q); traversal_yields_every_group(step(q)); }
}
proof fn lemma_level_size(q: Seq<Group>) ensures qsize(q) == q.len() + qsize(kids(q)) decreases q.len() {
    if q.len() > 0 {
        lemma_level_size(q.skip(1));
        lemma_qsize_append(q[0].groups@, kids(q.skip(1)));
        lemma_qsize_step(q);
        lemma_qsize_append(q.skip(1), q[0].groups@);
    }
}
/// C10: below the last level there is nothing, so the levels are the whole traversal.
pub proof fn traversal_ends_with_the_last_level(g: Group) ensures bfs(seq![g]) == levels(g, gsize(g)) {
    lemma_levels_shrink(g, gsize(g));
    assert(qsize(seq![g]) == gsize(g)) by { reveal_with_fuel(qsize, 2); assert(seq![g].drop_last() =~= seq![]); }
    traversal_is_level_by_level(g, gsize(g));
    assert(level(g, gsize(g)).len() == 0) by {
        if level(g, gsize(g)).len() > 0 { lemma_nonempty(level(g, gsize(g))); }
    }
    assert(bfs(level(g, gsize(g))) =~= seq![]);
    assert(levels(g, gsize(g)) + Seq::<Group>::empty() =~= levels(g, gsize(g)));
}
proof fn lemma_nonempty(q: Seq<Group>) requires q.len() > 0 ensures qsize(q) > 0 { lemma_qsize_step(q); }
proof fn lemma_levels_shrink(g: Group, n: nat) ensures qsize(level(g, n)) + n <= qsize(seq![g]) || qsize(level(g, n)) == 0 decreases n {
    if n > 0 {
        lemma_levels_shrink(g, (n - 1) as nat);
        let l = level(g, (n - 1) as nat);
        lemma_level_size(l);
        if qsize(level(g, n)) > 0 { if l.len() == 0 { assert(qsize(kids(l)) == 0); } }
    }
}
// ---- the iterator ----
pub open spec fn ahead(it: Iter) -> Seq<Group> {
    it.todo@.map_values(|g: &Group| *g) + (match it.curr { Some(g) => g.groups@, None => seq![] })
}
pub open spec fn is_default_group(g: Group) -> bool {
    &&& g.custom_icon_uuid is None && g.def_auto_type_sequence@.len() == 0 && g.enable_auto_type is None && g.enable_searching is None
    &&& g.entries@.len() == 0 && !g.expires && g.groups@.len() == 0 && g.icon is Folder && g.is_expanded
    &&& g.last_top_visible_entry == EntryUuid(crate::vx::uuid::nil_uuid()) && g.notes@.len() == 0 && g.usage_count == 0
    &&& g.parent == GroupUuid(crate::vx::uuid::nil_uuid())
    &&& g.creation_time == the_time() && g.expiry_time == g.creation_time && g.last_accessed == g.creation_time && g.last_modified == g.creation_time && g.location_changed == g.creation_time
}
// what std's Iterator::find and filter().collect() do with this iterator (verified, not assumed)
pub open spec fn decides<'a, F: Fn(&&'a Group) -> bool>(f: F, p: spec_fn(Group) -> bool) -> bool {
    &&& forall|x: &&'a Group| #[trigger] f.requires((x,))
    &&& forall|x: &&'a Group, b: bool| #[trigger] f.ensures((x,), b) ==> b == p(**x)
}
pub open spec fn is_first(s: Seq<Group>, p: spec_fn(Group) -> bool, r: Option<&Group>) -> bool {
    match r {
        Some(x) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == *x && p(*x) && forall|j: int| 0 <= j < i ==> !p(#[trigger] s[j]),
        None => forall|j: int| 0 <= j < s.len() ==> !p(#[trigger] s[j]),
    }
}
proof fn lemma_nth(q: Seq<Group>, all: Seq<Group>, n: int)
    requires bfs(q) == all.skip(n), q.len() > 0, 0 <= n <= all.len()
    ensures n < all.len(), all[n] == q[0], bfs(step(q)) == all.skip(n + 1), all.take(n + 1) == all.take(n).push(q[0])
{
    assert(bfs(q) == seq![q[0]] + bfs(step(q)));
    assert(all.skip(n).len() > 0); assert(all.skip(n)[0] == q[0]);
    assert(all.take(n + 1) =~= all.take(n).push(q[0]));
    assert(bfs(q).skip(1) =~= bfs(step(q))); assert(all.skip(n).skip(1) =~= all.skip(n + 1));
}
pub fn it_find<'a, F: Fn(&&'a Group) -> bool>(p: Ghost<spec_fn(Group) -> bool>, from: Iter<'a>, f: F) -> (r: Option<&'a Group>)
    requires decides(f, p@)
    ensures is_first(bfs(ahead(from)), p@, r)
{
    let mut it = from;
    let ghost all = bfs(ahead(it));
    let ghost mut n: int = 0;
    loop
        invariant all == bfs(ahead(from)), decides(f, p@), 0 <= n <= all.len(), bfs(ahead(it)) == all.skip(n), forall|j: int| 0 <= j < n ==> !p@(#[trigger] all[j]),
        decreases qsize(ahead(it))
    {
        let ghost q = ahead(it);
        match it.next() {
            Some(g) => {
                proof { lemma_nth(q, all, n); }
                if f(&g) { proof { assert(p@(*g)); assert(0 <= n < all.len()); } return Some(g); }
                proof { n = n + 1; }
            }
            None => { proof { assert(bfs(q).len() == 0); assert(n == all.len()) by { if n < all.len() { assert(all.skip(n).len() > 0); } } } return None; }
        }
    }
}
pub fn it_filter<'a, F: Fn(&&'a Group) -> bool>(p: Ghost<spec_fn(Group) -> bool>, from: Iter<'a>, f: F) -> (r: Vec<&'a Group>)
    requires decides(f, p@)
    ensures crate::vx::deref(r@) == bfs(ahead(from)).filter(p@)
{
    let mut it = from;
    let mut v: Vec<&'a Group> = Vec::new();
    let ghost all = bfs(ahead(it));
    let ghost mut n: int = 0;
    loop
        invariant all == bfs(ahead(from)), decides(f, p@), 0 <= n <= all.len(), bfs(ahead(it)) == all.skip(n), crate::vx::deref(v@) == all.take(n).filter(p@),
        ensures crate::vx::deref(v@) == all.filter(p@),
        decreases qsize(ahead(it))
    {
        let ghost q = ahead(it);
        match it.next() {
            Some(g) => {
                proof { lemma_nth(q, all, n); }
                let ghost old_v = v@;
                proof { reveal(Seq::filter); assert(all.take(n + 1).drop_last() =~= all.take(n)); }
                if f(&g) { v.push(g); proof { assert(crate::vx::deref(v@) =~= crate::vx::deref(old_v).push(*g)); } }
                proof { n = n + 1; }
            }
            None => { proof { assert(bfs(q).len() == 0); assert(n == all.len()); assert(all.take(n) =~= all); } break; }
        }
    }
    v
}
pub open spec fn ahead_mut(it: IterMut) -> Seq<Group> {
    it.todo@.map_values(|g: &Group| *g) + (match it.curr { Some(g) => g.groups@, None => seq![] })
}
pub fn it_find_mut<'a, F: Fn(&&'a Group) -> bool>(p: Ghost<spec_fn(Group) -> bool>, from: IterMut<'a>, f: F) -> (r: Option<&'a Group>)
    requires decides(f, p@)
    ensures is_first(bfs(ahead_mut(from)), p@, r)
{
    let mut it = from;
    let ghost all = bfs(ahead_mut(it));
    let ghost mut n: int = 0;
    loop
        invariant all == bfs(ahead_mut(from)), decides(f, p@), 0 <= n <= all.len(), bfs(ahead_mut(it)) == all.skip(n), forall|j: int| 0 <= j < n ==> !p@(#[trigger] all[j]),
        decreases qsize(ahead_mut(it))
    {
        let ghost q = ahead_mut(it);
        match it.next() {
            Some(g) => {
                proof { lemma_nth(q, all, n); }
                if f(&g) { proof { assert(p@(*g)); assert(0 <= n < all.len()); } return Some(g); }
                proof { n = n + 1; }
            }
            None => { proof { assert(bfs(q).len() == 0); assert(n == all.len()) by { if n < all.len() { assert(all.skip(n).len() > 0); } } } return None; }
        }
    }
}
pub fn it_filter_mut<'a, F: Fn(&&'a Group) -> bool>(p: Ghost<spec_fn(Group) -> bool>, from: IterMut<'a>, f: F) -> (r: Vec<&'a Group>)
    requires decides(f, p@)
    ensures crate::vx::deref(r@) == bfs(ahead_mut(from)).filter(p@)
{
    let mut it = from;
    let mut v: Vec<&'a Group> = Vec::new();
    let ghost all = bfs(ahead_mut(it));
    let ghost mut n: int = 0;
    loop
        invariant all == bfs(ahead_mut(from)), decides(f, p@), 0 <= n <= all.len(), bfs(ahead_mut(it)) == all.skip(n), crate::vx::deref(v@) == all.take(n).filter(p@),
        ensures crate::vx::deref(v@) == all.filter(p@),
        decreases qsize(ahead_mut(it))
    {
        let ghost q = ahead_mut(it);
        match it.next() {
            Some(g) => {
                proof { lemma_nth(q, all, n); }
                let ghost old_v = v@;
                proof { reveal(Seq::filter); assert(all.take(n + 1).drop_last() =~= all.take(n)); }
                if f(&g) { v.push(g); proof { assert(crate::vx::deref(v@) =~= crate::vx::deref(old_v).push(*g)); } }
                proof { n = n + 1; }
            }
            None => { proof { assert(bfs(q).len() == 0); assert(n == all.len()); assert(all.take(n) =~= all); } break; }
        }
    }
    v
}
@erase IterMut
@erase IterMut::new
@erase IterMut::next groups
@erase Group::iter_mut self
@fn Group::new
@props C13 C18
@ret r
@spec
    ensures is_default_group(r), r.name@ == name.vinto(),
@start
        broadcast use crate::vx::ax_text_of;
@fn Default for Group::default
@props C13 C18
@ret r
@spec
    ensures is_default_group(r), r.name@.len() == 0, r.uuid == GroupUuid(crate::vx::uuid::nil_uuid()),
@fn Group::add_entry
@props C12
@spec
    ensures
        final(self).entries@ == old(self).entries@.push(entry),
        *final(self) == (Group { entries: final(self).entries, ..*old(self) }),
@fn Group::add_group
@props C12
@spec
    ensures
        final(self).groups@ == old(self).groups@.push(group),
        *final(self) == (Group { groups: final(self).groups, ..*old(self) }),
@fn Group::remove_entry
@props C12
@ret r
@spec
    ensures
        *final(self) == (Group { entries: final(self).entries, ..*old(self) }),
        match r {
            Some(e) => exists|i: int| 0 <= i < old(self).entries@.len() && e == #[trigger] old(self).entries@[i] && e.uuid == entry_uuid
                && (forall|j: int| 0 <= j < i ==> (#[trigger] old(self).entries@[j]).uuid != entry_uuid)
                && final(self).entries@ == old(self).entries@.remove(i),
            None => final(self).entries@ == old(self).entries@ && forall|j: int| 0 <= j < old(self).entries@.len() ==> (#[trigger] old(self).entries@[j]).uuid != entry_uuid,
        },
@closure
|x: &Entry| -> (b: bool) ensures b == (x.uuid == entry_uuid)
@fn Group::remove_group
@props C12
@ret r
@spec
    ensures
        *final(self) == (Group { groups: final(self).groups, ..*old(self) }),
        match r {
            Some(e) => exists|i: int| 0 <= i < old(self).groups@.len() && e == #[trigger] old(self).groups@[i] && e.uuid == group_uuid
                && (forall|j: int| 0 <= j < i ==> (#[trigger] old(self).groups@[j]).uuid != group_uuid)
                && final(self).groups@ == old(self).groups@.remove(i),
            None => final(self).groups@ == old(self).groups@ && forall|j: int| 0 <= j < old(self).groups@.len() ==> (#[trigger] old(self).groups@[j]).uuid != group_uuid,
        },
@closure
|x: &Group| -> (b: bool) ensures b == (x.uuid == group_uuid)
@fn Group::iter
@props C10 C11
@ret r
@spec
    ensures ahead(r) == seq![*self],
@fn Group::iter_mut
@props C10 C11
@ret r
@spec
    ensures ahead_mut(r) == seq![*self],
@fn Iter::new
@props C10 C11
@ret r
@spec
    ensures ahead(r) == seq![*group],
@fn Iter::next
@attr #[verifier::loop_isolation(false)]
@props C10 C11
@ret r
@spec
    ensures
        r is None <==> ahead(*old(self)).len() == 0,
        r is None ==> ahead(*final(self)).len() == 0,
        r matches Some(g) ==> *g == ahead(*old(self))[0] && ahead(*final(self)) == step(ahead(*old(self))),
        r matches Some(g) ==> bfs(ahead(*old(self))) == seq![*g] + bfs(ahead(*final(self))) && qsize(ahead(*final(self))) + 1 == qsize(ahead(*old(self))),
@loop 0 it
        invariant
            self.todo@ == old(self).todo@ + it.seq().take(it.index@),
@tail
        proof {
            let q = ahead(*old(self));
            if q.len() > 0 { lemma_qsize_step(q); assert(ahead(*self) =~= step(q)); assert(bfs(q) == seq![q[0]] + bfs(step(q))); }
        }
@fn IterMut::new
@props C10 C11
@ret r
@spec
    ensures ahead_mut(r) == seq![*group],
@fn IterMut::next
@attr #[verifier::loop_isolation(false)]
@props C10 C11
@ret r
@spec
    ensures
        r is None <==> ahead_mut(*old(self)).len() == 0,
        r is None ==> ahead_mut(*final(self)).len() == 0,
        r matches Some(g) ==> *g == ahead_mut(*old(self))[0] && ahead_mut(*final(self)) == step(ahead_mut(*old(self))),
        r matches Some(g) ==> bfs(ahead_mut(*old(self))) == seq![*g] + bfs(ahead_mut(*final(self))) && qsize(ahead_mut(*final(self))) + 1 == qsize(ahead_mut(*old(self))),
@loop 0 it
        invariant
            self.todo@ == old(self).todo@ + it.seq().take(it.index@),
@tail
        proof {
            let q = ahead_mut(*old(self));
            if q.len() > 0 { lemma_qsize_step(q); assert(ahead_mut(*self) =~= step(q)); assert(bfs(q) == seq![q[0]] + bfs(step(q))); }
        }
@impl Times for Group
    open spec fn t_creation_time(&self) -> DateTime<Utc> { self.creation_time }
    open spec fn t_expires(&self) -> bool { self.expires }
    open spec fn t_expiry_time(&self) -> DateTime<Utc> { self.expiry_time }
    open spec fn t_last_accessed(&self) -> DateTime<Utc> { self.last_accessed }
    open spec fn t_last_modified(&self) -> DateTime<Utc> { self.last_modified }
    open spec fn t_location_changed(&self) -> DateTime<Utc> { self.location_changed }
    open spec fn t_usage_count(&self) -> i32 { self.usage_count }
    open spec fn t_rest(&self) -> Bare { Bare::G(Group { creation_time: the_time(), expires: false, expiry_time: the_time(), last_accessed: the_time(), last_modified: the_time(), location_changed: the_time(), usage_count: 0, ..*self }) }
@fn Times for Group::creation_time
@props C16
@fn Times for Group::expires
@props C16
@fn Times for Group::expiry_time
@props C16
@fn Times for Group::last_accessed
@props C16
@fn Times for Group::last_modified
@props C16
@fn Times for Group::location_changed
@props C16
@fn Times for Group::usage_count
@props C16
@fn Times for Group::set_creation_time
@props C16
@spec
    ensures *final(self) == (Group { creation_time: val, ..*old(self) }),
@fn Times for Group::set_expires
@props C16
@spec
    ensures *final(self) == (Group { expires: val, ..*old(self) }),
@fn Times for Group::set_expiry_time
@props C16
@spec
    ensures *final(self) == (Group { expiry_time: val, ..*old(self) }),
@fn Times for Group::set_last_accessed
@props C16
@spec
    ensures *final(self) == (Group { last_accessed: val, ..*old(self) }),
@fn Times for Group::set_last_modified
@props C16
@spec
    ensures *final(self) == (Group { last_modified: val, ..*old(self) }),
@fn Times for Group::set_location_changed
@props C16
@spec
    ensures *final(self) == (Group { location_changed: val, ..*old(self) }),
@fn Times for Group::set_usage_count
@props C16
@spec
    ensures *final(self) == (Group { usage_count: val, ..*old(self) }),
