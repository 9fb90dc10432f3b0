# the order of elements and elements nobody knows: C18
@module format
@top
pub mod order { // format/order.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;

verus! {

/// Nothing in these events is for the section that ends with end.
pub open spec fn idle(e: Seq<Ev>, end: Seq<char>) -> bool { forall|i: int| 0 <= i < e.len() ==> dull(#[trigger] e[i], end) }
pub open spec fn dull(e: Ev, end: Seq<char>) -> bool { match e { Ev::Start(_, _) => false, Ev::EndDoc => false, Ev::End(m) => m != end, _ => true } }
pub open spec fn name(x: Seq<Ev>) -> Seq<char> { match x[0] { Ev::Start(n, _) => n, _ => seq![] } }
pub open spec fn attrs(x: Seq<Ev>) -> Attrs { match x[0] { Ev::Start(_, a) => a, _ => seq![] } }
pub open spec fn with<S>(g: Got2<S>, r: Seq<Ev>) -> Got2<S> { match g { Some((s, e, p)) => Some((s, e + r, p)), None => None } }
/// x is one element, and perhaps white space after it: what is made of it does not depend on what follows, and no event of it is left for the section.
#[verifier::opaque]
pub open spec fn whole<S>(step: Step<S>, end: Seq<char>, x: Seq<Ev>) -> bool {
    &&& x.len() > 0 && x[0] is Start
    &&& forall|st: S, pos: int, r: Seq<Ev>| #![trigger step(st, name(x), attrs(x), x.skip(1) + r, pos)]
        step(st, name(x), attrs(x), x.skip(1) + r, pos) == with(step(st, name(x), attrs(x), x.skip(1), pos), r)
    &&& forall|st: S, pos: int| #![trigger step(st, name(x), attrs(x), x.skip(1), pos)] step(st, name(x), attrs(x), x.skip(1), pos) matches Some((s, e, p)) ==> idle(e, end) && e.len() < x.len()
}
pub open spec fn all_whole<S>(step: Step<S>, end: Seq<char>, xs: Seq<Seq<Ev>>) -> bool { forall|i: int| 0 <= i < xs.len() ==> whole(step, end, #[trigger] xs[i]) }
/// What an element makes of the section's state and the keystream position.
pub open spec fn effect<S>(step: Step<S>, x: Seq<Ev>, st: S, pos: int) -> Option<(S, int)> { match step(st, name(x), attrs(x), x.skip(1), pos) { Some((s, e, p)) => Some((s, p)), None => None } }
pub open spec fn fold<S>(step: Step<S>, xs: Seq<Seq<Ev>>, st: S, pos: int) -> Option<(S, int)> decreases xs.len() {
    if xs.len() == 0 { Some((st, pos)) } else { match effect(step, xs[0], st, pos) { Some((s, p)) => fold(step, xs.skip(1), s, p), None => None } }
}
pub open spec fn cat(xs: Seq<Seq<Ev>>) -> Seq<Ev> decreases xs.len() { if xs.len() == 0 { seq![] } else { xs[0] + cat(xs.skip(1)) } }
pub proof fn lemma_idle<S>(step: Step<S>, end: Seq<char>, e: Seq<Ev>, r: Seq<Ev>, st: S, pos: int)
    requires idle(e, end) ensures run(step, end, e + r, st, pos) == run(step, end, r, st, pos) decreases e.len()
{
    if e.len() == 0 { assert(e + r =~= r); } else {
        assert(dull(e[0], end));
        assert(idle(e.skip(1), end)) by { assert forall|i: int| 0 <= i < e.skip(1).len() implies dull(#[trigger] e.skip(1)[i], end) by { assert(e.skip(1)[i] == e[i + 1]); } }
        lemma_idle(step, end, e.skip(1), r, st, pos);
        assert((e + r).skip(1) =~= e.skip(1) + r); assert((e + r)[0] == e[0]);
    }
}
/// A section of whole elements is read one after the other.
pub proof fn lemma_fold<S>(step: Step<S>, end: Seq<char>, xs: Seq<Seq<Ev>>, r: Seq<Ev>, st: S, pos: int)
    requires all_whole(step, end, xs)
    ensures run(step, end, cat(xs) + r, st, pos) == (match fold(step, xs, st, pos) { Some((s, p)) => run(step, end, r, s, p), None => None })
    decreases xs.len()
{
    if xs.len() == 0 { assert(cat(xs) + r =~= r); } else {
        let x = xs[0]; let t = cat(xs.skip(1)) + r; let w = cat(xs) + r;
        assert(whole(step, end, x)); reveal(whole);
        assert(w =~= x + t); assert(w.skip(1) =~= x.skip(1) + t); assert(w[0] == x[0]);
        let g = step(st, name(x), attrs(x), x.skip(1), pos);
        assert(step(st, name(x), attrs(x), x.skip(1) + t, pos) == with(g, t));
        if let Some((s, e, p)) = g {
            assert((e + t).len() < w.len());
            lemma_idle(step, end, e, t, s, p);
            lemma_fold(step, end, xs.skip(1), r, s, p);
        }
    }
}
pub type Inv<S> = spec_fn(S) -> bool;
/// The part of a section an element belongs to: elements of different parts may change places; none for an element nobody knows.
pub type Part = spec_fn(Seq<char>) -> Option<Seq<char>>;
pub open spec fn then<S>(step: Step<S>, st: S, pos: int, n: Seq<char>, a: Attrs, ev: Seq<Ev>, m: Seq<char>, b: Attrs, fv: Seq<Ev>) -> Option<(S, Seq<Ev>, Seq<Ev>, int)> {
    match step(st, n, a, ev, pos) { Some((s, e, p)) => match step(s, m, b, fv, p) { Some((t, f, q)) => Some((t, e, f, q)), None => None }, None => None }
}
pub open spec fn turned<S>(g: Option<(S, Seq<Ev>, Seq<Ev>, int)>) -> Option<(S, Seq<Ev>, Seq<Ev>, int)> { match g { Some((t, e, f, q)) => Some((t, f, e, q)), None => None } }
#[verifier::opaque]
pub open spec fn commute<S>(step: Step<S>, inv: Inv<S>, n: Seq<char>, m: Seq<char>) -> bool {
    forall|st: S, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) ==> then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev))
}
#[verifier::opaque]
pub open spec fn ignored<S>(step: Step<S>, inv: Inv<S>, n: Seq<char>) -> bool {
    forall|st: S, pos: int, a: Attrs, ev: Seq<Ev>| #![trigger step(st, n, a, ev, pos)] inv(st) ==> step(st, n, a, ev, pos) == Some((st, ev, pos))
}
#[verifier::opaque]
pub open spec fn kept_by<S>(step: Step<S>, inv: Inv<S>) -> bool {
    forall|st: S, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, n, a, ev, pos)] inv(st) ==> (step(st, n, a, ev, pos) matches Some((s, e, p)) ==> inv(s))
}
/// The parts of a section are independent of each other.
pub open spec fn lawful<S>(step: Step<S>, inv: Inv<S>, part: Part) -> bool {
    &&& kept_by(step, inv)
    &&& forall|n: Seq<char>| #![trigger part(n)] part(n) is None ==> ignored(step, inv, n)
    &&& forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) ==> commute(step, inv, n, m)
}
proof fn lemma_turn<S>(step: Step<S>, inv: Inv<S>, x: Seq<Ev>, y: Seq<Ev>, t: Seq<Seq<Ev>>, st: S, pos: int)
    requires commute(step, inv, name(x), name(y)), inv(st)
    ensures fold(step, seq![x] + (seq![y] + t), st, pos) == fold(step, seq![y] + (seq![x] + t), st, pos)
{
    reveal(commute);
    let g = then(step, st, pos, name(x), attrs(x), x.skip(1), name(y), attrs(y), y.skip(1));
    assert(g == turned(then(step, st, pos, name(y), attrs(y), y.skip(1), name(x), attrs(x), x.skip(1))));
    let u = seq![x] + (seq![y] + t); let w = seq![y] + (seq![x] + t);
    assert(u.skip(1) =~= seq![y] + t); assert((seq![y] + t).skip(1) =~= t);
    assert(w.skip(1) =~= seq![x] + t); assert((seq![x] + t).skip(1) =~= t);
    assert(u[0] == x && w[0] == y && (seq![y] + t)[0] == y && (seq![x] + t)[0] == x);
    reveal_with_fuel(fold, 3);
}
proof fn lemma_effect<S>(step: Step<S>, inv: Inv<S>, x: Seq<Ev>, st: S, pos: int)
    requires kept_by(step, inv), inv(st) ensures effect(step, x, st, pos) matches Some((s, p)) ==> inv(s)
{ reveal(kept_by); }
/// An element moves before those it is independent of.
proof fn lemma_move<S>(step: Step<S>, inv: Inv<S>, xs: Seq<Seq<Ev>>, i: int, st: S, pos: int)
    requires 0 <= i < xs.len(), kept_by(step, inv), inv(st), forall|j: int| 0 <= j < i ==> commute(step, inv, name(#[trigger] xs[j]), name(xs[i]))
    ensures fold(step, xs, st, pos) == fold(step, seq![xs[i]] + xs.remove(i), st, pos)
    decreases i
{
    let x = xs[i];
    if i == 0 { assert(seq![x] + xs.remove(0) =~= xs); } else {
        let y = xs[0]; let t = xs.skip(1); let u = t.remove(i - 1);
        assert(t[i - 1] == x); assert(commute(step, inv, name(y), name(x)));
        assert(seq![y] + (seq![x] + u) =~= seq![y] + (seq![x] + u));
        lemma_effect(step, inv, y, st, pos);
        if let Some((s, p)) = effect(step, y, st, pos) {
            assert forall|j: int| 0 <= j < i - 1 implies commute(step, inv, name(#[trigger] t[j]), name(t[i - 1])) by { assert(t[j] == xs[j + 1]); }
            lemma_move(step, inv, t, i - 1, s, p);
        }
        let w = seq![y] + (seq![x] + u);
        assert(w.skip(1) =~= seq![x] + u); assert(w[0] == y);
        lemma_turn(step, inv, y, x, u, st, pos);
        assert(seq![x] + xs.remove(i) =~= seq![x] + (seq![y] + u));
    }
}
/// The elements of one part, in order.
pub open spec fn pick(xs: Seq<Seq<Ev>>, part: Part, v: Seq<char>) -> Seq<Seq<Ev>> decreases xs.len() {
    if xs.len() == 0 { seq![] } else { (if part(name(xs[0])) == Some(v) { seq![xs[0]] } else { seq![] }) + pick(xs.skip(1), part, v) }
}
/// Every part has the same elements in the same order.
pub open spec fn same_parts(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, part: Part) -> bool { forall|v: Seq<char>| #[trigger] pick(xs, part, v) == pick(ys, part, v) }
proof fn lemma_first(ys: Seq<Seq<Ev>>, part: Part, v: Seq<char>) -> (i: int)
    requires pick(ys, part, v).len() > 0
    ensures
        0 <= i < ys.len(), ys[i] == pick(ys, part, v)[0], part(name(ys[i])) == Some(v), forall|j: int| 0 <= j < i ==> part(name(#[trigger] ys[j])) != Some(v),
        pick(ys.remove(i), part, v) == pick(ys, part, v).skip(1), forall|w: Seq<char>| w != v ==> #[trigger] pick(ys.remove(i), part, w) == pick(ys, part, w),
    decreases ys.len()
{
    let t = ys.skip(1);
    if part(name(ys[0])) == Some(v) {
        assert(ys.remove(0) =~= t);
        assert((seq![ys[0]] + pick(t, part, v)).skip(1) =~= pick(t, part, v));
        assert forall|w: Seq<char>| w != v implies #[trigger] pick(ys.remove(0), part, w) == pick(ys, part, w) by { assert(Seq::<Seq<Ev>>::empty() + pick(t, part, w) =~= pick(t, part, w)); }
        0
    } else {
        assert(Seq::<Seq<Ev>>::empty() + pick(t, part, v) =~= pick(t, part, v));
        let k = lemma_first(t, part, v); let i = k + 1;
        assert(ys.remove(i).skip(1) =~= t.remove(k)); assert(ys.remove(i)[0] == ys[0]);
        assert forall|j: int| 0 <= j < i implies part(name(#[trigger] ys[j])) != Some(v) by { if j > 0 { assert(t[j - 1] == ys[j]); } }
        assert(Seq::<Seq<Ev>>::empty() + pick(t.remove(k), part, v) =~= pick(t.remove(k), part, v));
        assert forall|w: Seq<char>| w != v implies #[trigger] pick(ys.remove(i), part, w) == pick(ys, part, w) by { assert(pick(t.remove(k), part, w) == pick(t, part, w)); }
        i
    }
}
/// C18: the elements of a section may stand in any order that keeps the order inside each part, and elements nobody knows count for nothing.
pub proof fn lemma_order<S>(step: Step<S>, inv: Inv<S>, part: Part, xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, st: S, pos: int)
    requires lawful(step, inv, part), same_parts(xs, ys, part), inv(st)
    ensures fold(step, xs, st, pos) == fold(step, ys, st, pos)
    decreases xs.len() + ys.len()
{
    if xs.len() == 0 {
        if ys.len() > 0 {
            let y = ys[0];
            match part(name(y)) {
                Some(v) => { assert(pick(xs, part, v) == pick(ys, part, v)); assert((seq![y] + pick(ys.skip(1), part, v)).len() > 0); assert(false); }
                None => { lemma_unknown(step, inv, part, ys, st, pos); assert forall|v: Seq<char>| #[trigger] pick(xs, part, v) == pick(ys.skip(1), part, v) by { assert(pick(xs, part, v) == pick(ys, part, v)); } lemma_order(step, inv, part, xs, ys.skip(1), st, pos); }
            }
        }
    } else {
        let x = xs[0]; let t = xs.skip(1);
        match part(name(x)) {
            None => { lemma_unknown(step, inv, part, xs, st, pos); assert forall|v: Seq<char>| #[trigger] pick(t, part, v) == pick(ys, part, v) by { assert(pick(xs, part, v) == pick(ys, part, v)); } lemma_order(step, inv, part, t, ys, st, pos); }
            Some(v) => {
                let px = pick(xs, part, v); assert(px =~= seq![x] + pick(t, part, v)); assert(px == pick(ys, part, v));
                let i = lemma_first(ys, part, v); let u = ys.remove(i);
                assert(px[0] == x); assert(px.skip(1) =~= pick(t, part, v));
                assert forall|j: int| 0 <= j < i implies commute(step, inv, name(#[trigger] ys[j]), name(ys[i])) by { assert(part(name(ys[j])) != part(name(ys[i]))); }
                lemma_move(step, inv, ys, i, st, pos);
                let w = seq![x] + u; assert(w.skip(1) =~= u); assert(w[0] == x);
                lemma_effect(step, inv, x, st, pos);
                if let Some((s, p)) = effect(step, x, st, pos) {
                    assert forall|w: Seq<char>| #[trigger] pick(t, part, w) == pick(u, part, w) by {
                        if w != v { assert(pick(xs, part, w) == pick(ys, part, w)); assert(Seq::<Seq<Ev>>::empty() + pick(t, part, w) =~= pick(t, part, w)); }
                    }
                    lemma_order(step, inv, part, t, u, s, p);
                }
            }
        }
    }
}
proof fn lemma_unknown<S>(step: Step<S>, inv: Inv<S>, part: Part, xs: Seq<Seq<Ev>>, st: S, pos: int)
    requires lawful(step, inv, part), xs.len() > 0, part(name(xs[0])) is None, inv(st)
    ensures fold(step, xs, st, pos) == fold(step, xs.skip(1), st, pos), forall|v: Seq<char>| #[trigger] pick(xs, part, v) == pick(xs.skip(1), part, v)
{
    assert(ignored(step, inv, name(xs[0]))); reveal(ignored);
    assert forall|v: Seq<char>| #[trigger] pick(xs, part, v) == pick(xs.skip(1), part, v) by { assert(Seq::<Seq<Ev>>::empty() + pick(xs.skip(1), part, v) =~= pick(xs.skip(1), part, v)); }
}
/// Two elements the section makes the same of, in whatever state.
#[verifier::opaque]
pub open spec fn alike<S>(step: Step<S>, x: Seq<Ev>, y: Seq<Ev>) -> bool { forall|st: S, pos: int| #[trigger] effect(step, x, st, pos) == effect(step, y, st, pos) }
pub proof fn lemma_alike<S>(step: Step<S>, xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, st: S, pos: int)
    requires xs.len() == ys.len(), forall|i: int| 0 <= i < xs.len() ==> alike(step, #[trigger] xs[i], ys[i])
    ensures fold(step, xs, st, pos) == fold(step, ys, st, pos)
    decreases xs.len()
{
    if xs.len() > 0 {
        assert(alike(step, xs[0], ys[0])); reveal(alike); assert(effect(step, xs[0], st, pos) == effect(step, ys[0], st, pos));
        if let Some((s, p)) = effect(step, xs[0], st, pos) {
            assert forall|i: int| 0 <= i < xs.skip(1).len() implies alike(step, #[trigger] xs.skip(1)[i], ys.skip(1)[i]) by { assert(alike(step, xs[i + 1], ys[i + 1])); }
            lemma_alike(step, xs.skip(1), ys.skip(1), s, p);
        }
    }
}
/// An element nobody knows that holds text or nothing is whole.
pub proof fn lemma_unknown_whole<S>(step: Step<S>, end: Seq<char>, n: Seq<char>, a: Attrs, c: Seq<Ev>)
    requires ignored(step, |s: S| true, n), idle(c, end)
    ensures whole(step, end, seq![Ev::Start(n, a)] + c)
{
    reveal(ignored); reveal(whole); let x = seq![Ev::Start(n, a)] + c; assert(x.skip(1) =~= c);
}

} // verus!
} // order
pub mod order_parts { // format/order_parts.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;

verus! {

pub open spec fn times_part() -> Part { |n: Seq<char>| if n == "CreationTime"@ || n == "ExpiryTime"@ || n == "Expires"@ || n == "LastAccessTime"@ || n == "LastModificationTime"@ || n == "LocationChanged"@ || n == "UsageCount"@ { Some(n) } else { None } }
pub proof fn lawful_times()
    ensures lawful(times_r(), |s: VTimes| true, times_part())
{
    let step = times_r(); let inv = |s: VTimes| true; let part = times_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: VTimes, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn item_part() -> Part { |n: Seq<char>| if n == "Key"@ || n == "Value"@ { Some(n) } else { None } }
pub proof fn lawful_item()
    ensures lawful(item_r(), |s: Two<Seq<char>, Seq<char>>| true, item_part())
{
    let step = item_r(); let inv = |s: Two<Seq<char>, Seq<char>>| true; let part = item_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Two<Seq<char>, Seq<char>>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn picture_part() -> Part { |n: Seq<char>| if n == "Data"@ || n == "UUID"@ { Some(n) } else { None } }
pub proof fn lawful_picture()
    ensures lawful(picture_r(), |s: Two<Seq<u8>, Seq<u8>>| true, picture_part())
{
    let step = picture_r(); let inv = |s: Two<Seq<u8>, Seq<u8>>| true; let part = picture_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Two<Seq<u8>, Seq<u8>>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn assoc_part() -> Part { |n: Seq<char>| if n == "KeystrokeSequence"@ || n == "Window"@ { Some(n) } else { None } }
pub proof fn lawful_assoc()
    ensures lawful(assoc_r(), |s: Two<Seq<char>, Seq<char>>| true, assoc_part())
{
    let step = assoc_r(); let inv = |s: Two<Seq<char>, Seq<char>>| true; let part = assoc_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Two<Seq<char>, Seq<char>>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn protection_part() -> Part { |n: Seq<char>| if n == "ProtectNotes"@ || n == "ProtectPassword"@ || n == "ProtectTitle"@ || n == "ProtectURL"@ || n == "ProtectUserName"@ { Some(n) } else { None } }
pub proof fn lawful_protection()
    ensures lawful(protection_r(), |s: VProtect| true, protection_part())
{
    let step = protection_r(); let inv = |s: VProtect| true; let part = protection_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: VProtect, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn auto_part() -> Part { |n: Seq<char>| if n == "Association"@ || n == "DataTransferObfuscation"@ || n == "DefaultSequence"@ || n == "Enabled"@ { Some(n) } else { None } }
pub proof fn lawful_auto()
    ensures lawful(auto_r(), |s: VEntry| true, auto_part())
{
    let step = auto_r(); let inv = |s: VEntry| true; let part = auto_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: VEntry, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn bin_part() -> Part { |n: Seq<char>|
    if n == "Value"@ { Some(seq![]) } else if n == "Key"@ { Some(n) } else { None } }
pub proof fn lawful_bin(ks: Ks)
    ensures lawful(bin_r(ks), |s: Two<BinaryKey, VBin>| true, bin_part())
{
    let step = bin_r(ks); let inv = |s: Two<BinaryKey, VBin>| true; let part = bin_part();
    reveal_strlit("Key"); assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Two<BinaryKey, VBin>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn str_part() -> Part { |n: Seq<char>|
    if n == "Value"@ { Some(seq![]) } else if n == "Key"@ { Some(n) } else { None } }
pub proof fn lawful_str(ks: Ks)
    ensures lawful(str_r(ks), |s: Two<StringKey, VStr>| true, str_part())
{
    let step = str_r(ks); let inv = |s: Two<StringKey, VStr>| true; let part = str_part();
    reveal_strlit("Key"); assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Two<StringKey, VStr>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn pool_part() -> Part { |n: Seq<char>| if n == "Binary"@ { Some(n) } else { None } }
pub proof fn lawful_pool()
    ensures lawful(pool_r(), |s: Map<BinaryId, Seq<u8>>| true, pool_part())
{
    let step = pool_r(); let inv = |s: Map<BinaryId, Seq<u8>>| true; let part = pool_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Map<BinaryId, Seq<u8>>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn items_part() -> Part { |n: Seq<char>| if n == "Item"@ { Some(n) } else { None } }
pub proof fn lawful_items()
    ensures lawful(items_r(), |s: Map<String, Seq<char>>| true, items_part())
{
    let step = items_r(); let inv = |s: Map<String, Seq<char>>| true; let part = items_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Map<String, Seq<char>>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn pictures_part() -> Part { |n: Seq<char>| if n == "Icon"@ { Some(n) } else { None } }
pub proof fn lawful_pictures()
    ensures lawful(pictures_r(), |s: Map<CustomIconUuid, Seq<u8>>| true, pictures_part())
{
    let step = pictures_r(); let inv = |s: Map<CustomIconUuid, Seq<u8>>| true; let part = pictures_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Map<CustomIconUuid, Seq<u8>>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn past_part() -> Part { |n: Seq<char>|
    if n == "Entry"@ { Some(seq![]) } else if false { Some(n) } else { None } }
pub proof fn lawful_past(ks: Ks, up: Seq<u8>)
    ensures lawful(past_r(ks, up), |s: Seq<VEntry>| true, past_part())
{
    let step = past_r(ks, up); let inv = |s: Seq<VEntry>| true; let part = past_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Seq<VEntry>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}

pub open spec fn root_part() -> Part { |n: Seq<char>|
    if n == "Group"@ { Some(seq![]) } else if false { Some(n) } else { None } }
pub proof fn lawful_root(ks: Ks)
    ensures lawful(root_r(ks), |s: Option<VGroup>| true, root_part())
{
    let step = root_r(ks); let inv = |s: Option<VGroup>| true; let part = root_part();
    assert(kept_by(step, inv)) by { reveal(kept_by);  }
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { reveal(ignored); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        reveal(commute);
        assert forall|st: Option<VGroup>, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by {  }
    }
}
} // verus!
} // order_parts
pub mod order_group { // format/order_group.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;

verus! {

pub proof fn lemma_both_ways<S>(step: Step<S>, inv: Inv<S>, n: Seq<char>, m: Seq<char>) requires commute(step, inv, n, m) ensures commute(step, inv, m, n) {
    reveal(commute);
    assert forall|st: S, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, m, a, ev, n, b, fv)] inv(st) implies then(step, st, pos, m, a, ev, n, b, fv) == turned(then(step, st, pos, n, b, fv, m, a, ev)) by {
        assert(then(step, st, pos, n, b, fv, m, a, ev) == turned(then(step, st, pos, m, a, ev, n, b, fv)));
    }
}
pub proof fn lemma_none_commutes<S>(step: Step<S>, inv: Inv<S>, n: Seq<char>, m: Seq<char>) requires ignored(step, inv, n), kept_by(step, inv) ensures commute(step, inv, n, m) {
    reveal(commute); reveal(ignored); reveal(kept_by);
    assert forall|st: S, pos: int, a: Attrs, ev: Seq<Ev>, b: Attrs, fv: Seq<Ev>| #![trigger then(step, st, pos, n, a, ev, m, b, fv)] inv(st) implies then(step, st, pos, n, a, ev, m, b, fv) == turned(then(step, st, pos, m, b, fv, n, a, ev)) by { }
}


pub open spec fn group_part() -> Part { |n: Seq<char>|
    if n == "Entry"@ || n == "Group"@ { Some(seq![]) } else if n == "CustomIconUUID"@ || n == "DefaultAutoTypeSequence"@ || n == "EnableAutoType"@ || n == "EnableSearching"@ || n == "IconID"@ || n == "IsExpanded"@ || n == "LastTopVisibleEntry"@ || n == "Name"@ || n == "Notes"@ || n == "Times"@ || n == "UUID"@ { Some(n) } else { None } }
pub open spec fn group_inv(ks: Ks) -> Inv<VGroup> { |s: VGroup| true }
pub proof fn group_is_CustomIconUUID(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "CustomIconUUID"@, a, ev, pos) == { match uuid_opt(ev) { Some((v, e)) => Some((VGroup { picture: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_DefaultAutoTypeSequence(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "DefaultAutoTypeSequence"@, a, ev, pos) == { match string(ev) { Some((v, e)) => Some((VGroup { sequence: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_EnableAutoType(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "EnableAutoType"@, a, ev, pos) == { match bool_opt(ev) { Some((v, e)) => Some((VGroup { auto_type: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_EnableSearching(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "EnableSearching"@, a, ev, pos) == { match bool_opt(ev) { Some((v, e)) => Some((VGroup { searching: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_IconID(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "IconID"@, a, ev, pos) == { match icon(ev) { Some((v, e)) => Some((VGroup { symbol: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_IsExpanded(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "IsExpanded"@, a, ev, pos) == { match boolean(ev) { Some((v, e)) => Some((VGroup { expanded: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_LastTopVisibleEntry(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "LastTopVisibleEntry"@, a, ev, pos) == { match uuid(ev) { Some((v, e)) => Some((VGroup { top: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_Name(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "Name"@, a, ev, pos) == { match string(ev) { Some((v, e)) => Some((VGroup { title: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_Notes(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "Notes"@, a, ev, pos) == { match string(ev) { Some((v, e)) => Some((VGroup { notes: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_Times(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "Times"@, a, ev, pos) == { match times_from(ev, st.times) { Some((t, e)) => Some((VGroup { times: t, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_UUID(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "UUID"@, a, ev, pos) == { match uuid(ev) { Some((v, e)) => Some((VGroup { id: v, ..st }, e, pos)), None => None } }
{ group_names(); }
pub proof fn group_is_Entry(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "Entry"@, a, ev, pos) == { match entry_from(ev, fresh_entry(), ks, true, nil_uuid()@, pos) { Some((x, e, p)) => Some((VGroup { entries: st.entries.push(x), ..st }, e, p)), None => None } }
{ group_names(); }
pub proof fn group_is_Group(ks: Ks)
    ensures forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| group_inv(ks)(st) ==> #[trigger] group_r(ks)(st, "Group"@, a, ev, pos) == { match group_from(ev, fresh_group(nil_uuid()@), ks, pos) { Some((x, e, p)) => Some((VGroup { groups: st.groups.push(x), ..st }, e, p)), None => None } }
{ group_names(); }
proof fn group_CustomIconUUID(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, m)
{
    hide(group_step);
    if m == "DefaultAutoTypeSequence"@ { group_is_CustomIconUUID(ks); group_is_DefaultAutoTypeSequence(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "DefaultAutoTypeSequence"@)) by { reveal(commute); } } else if m == "EnableAutoType"@ { group_is_CustomIconUUID(ks); group_is_EnableAutoType(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "EnableAutoType"@)) by { reveal(commute); } } else if m == "EnableSearching"@ { group_is_CustomIconUUID(ks); group_is_EnableSearching(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "EnableSearching"@)) by { reveal(commute); } } else if m == "IconID"@ { group_is_CustomIconUUID(ks); group_is_IconID(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "IconID"@)) by { reveal(commute); } } else if m == "IsExpanded"@ { group_is_CustomIconUUID(ks); group_is_IsExpanded(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "IsExpanded"@)) by { reveal(commute); } } else if m == "LastTopVisibleEntry"@ { group_is_CustomIconUUID(ks); group_is_LastTopVisibleEntry(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "LastTopVisibleEntry"@)) by { reveal(commute); } } else if m == "Name"@ { group_is_CustomIconUUID(ks); group_is_Name(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "Name"@)) by { reveal(commute); } } else if m == "Notes"@ { group_is_CustomIconUUID(ks); group_is_Notes(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "Notes"@)) by { reveal(commute); } } else if m == "Times"@ { group_is_CustomIconUUID(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_CustomIconUUID(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_CustomIconUUID(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_CustomIconUUID(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "CustomIconUUID"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_DefaultAutoTypeSequence(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, m)
{
    hide(group_step);
    if m == "EnableAutoType"@ { group_is_DefaultAutoTypeSequence(ks); group_is_EnableAutoType(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "EnableAutoType"@)) by { reveal(commute); } } else if m == "EnableSearching"@ { group_is_DefaultAutoTypeSequence(ks); group_is_EnableSearching(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "EnableSearching"@)) by { reveal(commute); } } else if m == "IconID"@ { group_is_DefaultAutoTypeSequence(ks); group_is_IconID(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "IconID"@)) by { reveal(commute); } } else if m == "IsExpanded"@ { group_is_DefaultAutoTypeSequence(ks); group_is_IsExpanded(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "IsExpanded"@)) by { reveal(commute); } } else if m == "LastTopVisibleEntry"@ { group_is_DefaultAutoTypeSequence(ks); group_is_LastTopVisibleEntry(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "LastTopVisibleEntry"@)) by { reveal(commute); } } else if m == "Name"@ { group_is_DefaultAutoTypeSequence(ks); group_is_Name(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "Name"@)) by { reveal(commute); } } else if m == "Notes"@ { group_is_DefaultAutoTypeSequence(ks); group_is_Notes(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "Notes"@)) by { reveal(commute); } } else if m == "Times"@ { group_is_DefaultAutoTypeSequence(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_DefaultAutoTypeSequence(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_DefaultAutoTypeSequence(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_DefaultAutoTypeSequence(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "DefaultAutoTypeSequence"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_EnableAutoType(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "EnableAutoType"@, m)
{
    hide(group_step);
    if m == "EnableSearching"@ { group_is_EnableAutoType(ks); group_is_EnableSearching(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "EnableSearching"@)) by { reveal(commute); } } else if m == "IconID"@ { group_is_EnableAutoType(ks); group_is_IconID(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "IconID"@)) by { reveal(commute); } } else if m == "IsExpanded"@ { group_is_EnableAutoType(ks); group_is_IsExpanded(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "IsExpanded"@)) by { reveal(commute); } } else if m == "LastTopVisibleEntry"@ { group_is_EnableAutoType(ks); group_is_LastTopVisibleEntry(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "LastTopVisibleEntry"@)) by { reveal(commute); } } else if m == "Name"@ { group_is_EnableAutoType(ks); group_is_Name(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "Name"@)) by { reveal(commute); } } else if m == "Notes"@ { group_is_EnableAutoType(ks); group_is_Notes(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "Notes"@)) by { reveal(commute); } } else if m == "Times"@ { group_is_EnableAutoType(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_EnableAutoType(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_EnableAutoType(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_EnableAutoType(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableAutoType"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_EnableSearching(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@ && m != "EnableSearching"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "EnableSearching"@, m)
{
    hide(group_step);
    if m == "IconID"@ { group_is_EnableSearching(ks); group_is_IconID(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "IconID"@)) by { reveal(commute); } } else if m == "IsExpanded"@ { group_is_EnableSearching(ks); group_is_IsExpanded(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "IsExpanded"@)) by { reveal(commute); } } else if m == "LastTopVisibleEntry"@ { group_is_EnableSearching(ks); group_is_LastTopVisibleEntry(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "LastTopVisibleEntry"@)) by { reveal(commute); } } else if m == "Name"@ { group_is_EnableSearching(ks); group_is_Name(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "Name"@)) by { reveal(commute); } } else if m == "Notes"@ { group_is_EnableSearching(ks); group_is_Notes(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "Notes"@)) by { reveal(commute); } } else if m == "Times"@ { group_is_EnableSearching(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_EnableSearching(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_EnableSearching(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_EnableSearching(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "EnableSearching"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_IconID(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@ && m != "EnableSearching"@ && m != "IconID"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "IconID"@, m)
{
    hide(group_step);
    if m == "IsExpanded"@ { group_is_IconID(ks); group_is_IsExpanded(ks);  assert(commute(group_r(ks), group_inv(ks), "IconID"@, "IsExpanded"@)) by { reveal(commute); } } else if m == "LastTopVisibleEntry"@ { group_is_IconID(ks); group_is_LastTopVisibleEntry(ks);  assert(commute(group_r(ks), group_inv(ks), "IconID"@, "LastTopVisibleEntry"@)) by { reveal(commute); } } else if m == "Name"@ { group_is_IconID(ks); group_is_Name(ks);  assert(commute(group_r(ks), group_inv(ks), "IconID"@, "Name"@)) by { reveal(commute); } } else if m == "Notes"@ { group_is_IconID(ks); group_is_Notes(ks);  assert(commute(group_r(ks), group_inv(ks), "IconID"@, "Notes"@)) by { reveal(commute); } } else if m == "Times"@ { group_is_IconID(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "IconID"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_IconID(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "IconID"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_IconID(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "IconID"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_IconID(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "IconID"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_IsExpanded(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@ && m != "EnableSearching"@ && m != "IconID"@ && m != "IsExpanded"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "IsExpanded"@, m)
{
    hide(group_step);
    if m == "LastTopVisibleEntry"@ { group_is_IsExpanded(ks); group_is_LastTopVisibleEntry(ks);  assert(commute(group_r(ks), group_inv(ks), "IsExpanded"@, "LastTopVisibleEntry"@)) by { reveal(commute); } } else if m == "Name"@ { group_is_IsExpanded(ks); group_is_Name(ks);  assert(commute(group_r(ks), group_inv(ks), "IsExpanded"@, "Name"@)) by { reveal(commute); } } else if m == "Notes"@ { group_is_IsExpanded(ks); group_is_Notes(ks);  assert(commute(group_r(ks), group_inv(ks), "IsExpanded"@, "Notes"@)) by { reveal(commute); } } else if m == "Times"@ { group_is_IsExpanded(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "IsExpanded"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_IsExpanded(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "IsExpanded"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_IsExpanded(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "IsExpanded"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_IsExpanded(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "IsExpanded"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_LastTopVisibleEntry(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@ && m != "EnableSearching"@ && m != "IconID"@ && m != "IsExpanded"@ && m != "LastTopVisibleEntry"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "LastTopVisibleEntry"@, m)
{
    hide(group_step);
    if m == "Name"@ { group_is_LastTopVisibleEntry(ks); group_is_Name(ks);  assert(commute(group_r(ks), group_inv(ks), "LastTopVisibleEntry"@, "Name"@)) by { reveal(commute); } } else if m == "Notes"@ { group_is_LastTopVisibleEntry(ks); group_is_Notes(ks);  assert(commute(group_r(ks), group_inv(ks), "LastTopVisibleEntry"@, "Notes"@)) by { reveal(commute); } } else if m == "Times"@ { group_is_LastTopVisibleEntry(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "LastTopVisibleEntry"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_LastTopVisibleEntry(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "LastTopVisibleEntry"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_LastTopVisibleEntry(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "LastTopVisibleEntry"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_LastTopVisibleEntry(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "LastTopVisibleEntry"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_Name(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@ && m != "EnableSearching"@ && m != "IconID"@ && m != "IsExpanded"@ && m != "LastTopVisibleEntry"@ && m != "Name"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "Name"@, m)
{
    hide(group_step);
    if m == "Notes"@ { group_is_Name(ks); group_is_Notes(ks);  assert(commute(group_r(ks), group_inv(ks), "Name"@, "Notes"@)) by { reveal(commute); } } else if m == "Times"@ { group_is_Name(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "Name"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_Name(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "Name"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_Name(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "Name"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_Name(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "Name"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_Notes(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@ && m != "EnableSearching"@ && m != "IconID"@ && m != "IsExpanded"@ && m != "LastTopVisibleEntry"@ && m != "Name"@ && m != "Notes"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "Notes"@, m)
{
    hide(group_step);
    if m == "Times"@ { group_is_Notes(ks); group_is_Times(ks);  assert(commute(group_r(ks), group_inv(ks), "Notes"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { group_is_Notes(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "Notes"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_Notes(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "Notes"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_Notes(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "Notes"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_Times(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@ && m != "EnableSearching"@ && m != "IconID"@ && m != "IsExpanded"@ && m != "LastTopVisibleEntry"@ && m != "Name"@ && m != "Notes"@ && m != "Times"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "Times"@, m)
{
    hide(group_step);
    if m == "UUID"@ { group_is_Times(ks); group_is_UUID(ks);  assert(commute(group_r(ks), group_inv(ks), "Times"@, "UUID"@)) by { reveal(commute); } } else if m == "Entry"@ { group_is_Times(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "Times"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_Times(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "Times"@, "Group"@)) by { reveal(commute); } } else { }
}
proof fn group_UUID(m: Seq<char>, ks: Ks)
    requires m != "CustomIconUUID"@ && m != "DefaultAutoTypeSequence"@ && m != "EnableAutoType"@ && m != "EnableSearching"@ && m != "IconID"@ && m != "IsExpanded"@ && m != "LastTopVisibleEntry"@ && m != "Name"@ && m != "Notes"@ && m != "Times"@ && m != "UUID"@, group_part()(m) is Some ensures commute(group_r(ks), group_inv(ks), "UUID"@, m)
{
    hide(group_step);
    if m == "Entry"@ { group_is_UUID(ks); group_is_Entry(ks);  assert(commute(group_r(ks), group_inv(ks), "UUID"@, "Entry"@)) by { reveal(commute); } } else if m == "Group"@ { group_is_UUID(ks); group_is_Group(ks);  assert(commute(group_r(ks), group_inv(ks), "UUID"@, "Group"@)) by { reveal(commute); } } else { }
}
pub proof fn group_ignores(n: Seq<char>, ks: Ks)
    requires group_part()(n) is None ensures ignored(group_r(ks), group_inv(ks), n)
{ reveal_strlit("CustomIconUUID"); reveal_strlit("DefaultAutoTypeSequence"); reveal_strlit("EnableAutoType"); reveal_strlit("EnableSearching"); reveal_strlit("IconID"); reveal_strlit("IsExpanded"); reveal_strlit("LastTopVisibleEntry"); reveal_strlit("Name"); reveal_strlit("Notes"); reveal_strlit("Times"); reveal_strlit("UUID"); reveal(ignored); }
proof fn group_one(n: Seq<char>, m: Seq<char>, ks: Ks)
    requires group_part()(n) != group_part()(m), group_part()(n) is None || n == "CustomIconUUID"@ || n == "DefaultAutoTypeSequence"@ || n == "EnableAutoType"@ || n == "EnableSearching"@ || n == "IconID"@ || n == "IsExpanded"@ || n == "LastTopVisibleEntry"@ || n == "Name"@ || n == "Notes"@ || n == "Times"@ || n == "UUID"@ ensures commute(group_r(ks), group_inv(ks), n, m)
{
    hide(group_step); group_keeps(ks);
    if group_part()(n) is None { group_ignores(n, ks); lemma_none_commutes(group_r(ks), group_inv(ks), n, m); }
    else if group_part()(m) is None { group_ignores(m, ks); lemma_none_commutes(group_r(ks), group_inv(ks), m, n); lemma_both_ways(group_r(ks), group_inv(ks), m, n); }
    else { if n == "CustomIconUUID"@ { group_CustomIconUUID(m, ks); } else if m == "CustomIconUUID"@ { group_CustomIconUUID(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "DefaultAutoTypeSequence"@ { group_DefaultAutoTypeSequence(m, ks); } else if m == "DefaultAutoTypeSequence"@ { group_DefaultAutoTypeSequence(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "EnableAutoType"@ { group_EnableAutoType(m, ks); } else if m == "EnableAutoType"@ { group_EnableAutoType(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "EnableSearching"@ { group_EnableSearching(m, ks); } else if m == "EnableSearching"@ { group_EnableSearching(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "IconID"@ { group_IconID(m, ks); } else if m == "IconID"@ { group_IconID(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "IsExpanded"@ { group_IsExpanded(m, ks); } else if m == "IsExpanded"@ { group_IsExpanded(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "LastTopVisibleEntry"@ { group_LastTopVisibleEntry(m, ks); } else if m == "LastTopVisibleEntry"@ { group_LastTopVisibleEntry(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "Name"@ { group_Name(m, ks); } else if m == "Name"@ { group_Name(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "Notes"@ { group_Notes(m, ks); } else if m == "Notes"@ { group_Notes(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "Times"@ { group_Times(m, ks); } else if m == "Times"@ { group_Times(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else if n == "UUID"@ { group_UUID(m, ks); } else if m == "UUID"@ { group_UUID(n, ks); lemma_both_ways(group_r(ks), group_inv(ks), m, n); } else { } }
}
proof fn group_keeps(ks: Ks)
    ensures kept_by(group_r(ks), group_inv(ks))
{ reveal(kept_by);  }
pub proof fn lawful_group(ks: Ks)
    ensures lawful(group_r(ks), group_inv(ks), group_part())
{
    hide(group_step);
    let step = group_r(ks); let inv = group_inv(ks); let part = group_part();
    group_keeps(ks);
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { group_ignores(n, ks); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        if n == "Entry"@ || n == "Group"@ { group_one(m, n, ks); lemma_both_ways(step, inv, m, n); } else { group_one(n, m, ks); }
    }
}
} // verus!
} // order_group
pub mod order_entry { // format/order_entry.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;
use crate::format::order_group::{lemma_both_ways, lemma_none_commutes};

verus! {

pub open spec fn auto_put(g: VEntry, b: VEntry) -> VEntry { VEntry { assocs: g.assocs, sequence: g.sequence, enabled: g.enabled, obf: g.obf, ..b } }
pub open spec fn auto_same(a: VEntry, b: VEntry) -> bool { a.assocs == b.assocs && a.sequence == b.sequence && a.enabled == b.enabled && a.obf == b.obf }
/// Reading auto-type settings touches nothing else of an entry, and looks at nothing else.
proof fn lemma_auto_frame(ev: Seq<Ev>, s: VEntry, t: VEntry)
    requires auto_same(s, t)
    ensures auto_from(ev, t) == (match auto_from(ev, s) { Some((g, e)) => Some((auto_put(g, t), e)), None => None }), auto_from(ev, s) matches Some((g, e)) ==> g == auto_put(g, s)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match auto_step(s, n, a, ev.skip(1)) { Some((g, e)) => { let h = auto_step(t, n, a, ev.skip(1)).unwrap().0; if e.len() < ev.len() { lemma_auto_frame(e, g, h); lemma_auto_frame(e, g, g); } }, None => {} },
            _ => lemma_auto_frame(ev.skip(1), s, t),
        }
    }
}
proof fn lemma_auto_frames()
    ensures forall|ev: Seq<Ev>, s: VEntry, t: VEntry| #![trigger auto_from(ev, s), auto_from(ev, t)] auto_same(s, t) ==> auto_from(ev, t) == (match auto_from(ev, s) { Some((g, e)) => Some((auto_put(g, t), e)), None => None }) && (auto_from(ev, s) matches Some((g, e)) ==> g == auto_put(g, s))
{
    assert forall|ev: Seq<Ev>, s: VEntry, t: VEntry| #![trigger auto_from(ev, s), auto_from(ev, t)] auto_same(s, t) implies auto_from(ev, t) == (match auto_from(ev, s) { Some((g, e)) => Some((auto_put(g, t), e)), None => None }) && (auto_from(ev, s) matches Some((g, e)) ==> g == auto_put(g, s)) by { lemma_auto_frame(ev, s, t); }
}


pub open spec fn entry_part() -> Part { |n: Seq<char>|
    if n == "Binary"@ || n == "History"@ || n == "String"@ { Some(seq![]) } else if n == "AutoType"@ || n == "BackgroundColor"@ || n == "CustomIconUUID"@ || n == "ForegroundColor"@ || n == "IconID"@ || n == "OverrideURL"@ || n == "Tags"@ || n == "Times"@ || n == "UUID"@ { Some(n) } else { None } }
pub open spec fn entry_inv(ks: Ks, active: bool, up: Seq<u8>) -> Inv<VEntry> { |s: VEntry| s.within == up }
pub proof fn entry_is_AutoType(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "AutoType"@, a, ev, pos) == { match auto_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_BackgroundColor(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "BackgroundColor"@, a, ev, pos) == { match color_opt(ev) { Some((v, e)) => Some((VEntry { background: v, ..st }, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_CustomIconUUID(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "CustomIconUUID"@, a, ev, pos) == { match uuid_opt(ev) { Some((v, e)) => Some((VEntry { picture: v, ..st }, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_ForegroundColor(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "ForegroundColor"@, a, ev, pos) == { match color_opt(ev) { Some((v, e)) => Some((VEntry { foreground: v, ..st }, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_IconID(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "IconID"@, a, ev, pos) == { match icon(ev) { Some((v, e)) => Some((VEntry { symbol: v, ..st }, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_OverrideURL(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "OverrideURL"@, a, ev, pos) == { match string(ev) { Some((v, e)) => Some((VEntry { url: v, ..st }, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_Tags(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "Tags"@, a, ev, pos) == { match string(ev) { Some((v, e)) => Some((VEntry { tags: v, ..st }, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_Times(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "Times"@, a, ev, pos) == { match times_from(ev, st.times) { Some((t, e)) => Some((VEntry { times: t, ..st }, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_UUID(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "UUID"@, a, ev, pos) == { match uuid(ev) { Some((v, e)) => Some((VEntry { id: v, ..st }, e, pos)), None => None } }
{ entry_names(); }
pub proof fn entry_is_Binary(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "Binary"@, a, ev, pos) == { match bin_from(ev, none(), ks, pos) { Some((t, e, p)) => match both(t) { Some((k, v)) => Some((VEntry { binaries: st.binaries.insert(k, v), ..st }, e, p)), None => None }, None => None } }
{ entry_names(); }
pub proof fn entry_is_History(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "History"@, a, ev, pos) == { if active { match past_from(ev, seq![], ks, up, pos) { Some((l, e, p)) => Some((VEntry { history: st.history + l, ..st }, e, p)), None => None } } else { Some((st, ev, pos)) } }
{ entry_names(); }
pub proof fn entry_is_String(ks: Ks, active: bool, up: Seq<u8>)
    ensures forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| entry_inv(ks, active, up)(st) ==> #[trigger] entry_r(ks, active, up)(st, "String"@, a, ev, pos) == { match str_from(ev, none(), ks, pos) { Some((t, e, p)) => match both(t) { Some((k, v)) => Some((VEntry { strings: st.strings.insert(k, v), ..st }, e, p)), None => None }, None => None } }
{ entry_names(); }
proof fn entry_AutoType(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, m)
{
    hide(entry_step);
    if m == "BackgroundColor"@ { entry_is_AutoType(ks, active, up); entry_is_BackgroundColor(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "BackgroundColor"@)) by { reveal(commute); } } else if m == "CustomIconUUID"@ { entry_is_AutoType(ks, active, up); entry_is_CustomIconUUID(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "CustomIconUUID"@)) by { reveal(commute); } } else if m == "ForegroundColor"@ { entry_is_AutoType(ks, active, up); entry_is_ForegroundColor(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "ForegroundColor"@)) by { reveal(commute); } } else if m == "IconID"@ { entry_is_AutoType(ks, active, up); entry_is_IconID(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "IconID"@)) by { reveal(commute); } } else if m == "OverrideURL"@ { entry_is_AutoType(ks, active, up); entry_is_OverrideURL(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "OverrideURL"@)) by { reveal(commute); } } else if m == "Tags"@ { entry_is_AutoType(ks, active, up); entry_is_Tags(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "Tags"@)) by { reveal(commute); } } else if m == "Times"@ { entry_is_AutoType(ks, active, up); entry_is_Times(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { entry_is_AutoType(ks, active, up); entry_is_UUID(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "UUID"@)) by { reveal(commute); } } else if m == "Binary"@ { entry_is_AutoType(ks, active, up); entry_is_Binary(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_AutoType(ks, active, up); entry_is_History(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_AutoType(ks, active, up); entry_is_String(ks, active, up); lemma_auto_frames(); assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "AutoType"@, "String"@)) by { reveal(commute); } } else { }
}
proof fn entry_BackgroundColor(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@ && m != "BackgroundColor"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, m)
{
    hide(entry_step);
    if m == "CustomIconUUID"@ { entry_is_BackgroundColor(ks, active, up); entry_is_CustomIconUUID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "CustomIconUUID"@)) by { reveal(commute); } } else if m == "ForegroundColor"@ { entry_is_BackgroundColor(ks, active, up); entry_is_ForegroundColor(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "ForegroundColor"@)) by { reveal(commute); } } else if m == "IconID"@ { entry_is_BackgroundColor(ks, active, up); entry_is_IconID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "IconID"@)) by { reveal(commute); } } else if m == "OverrideURL"@ { entry_is_BackgroundColor(ks, active, up); entry_is_OverrideURL(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "OverrideURL"@)) by { reveal(commute); } } else if m == "Tags"@ { entry_is_BackgroundColor(ks, active, up); entry_is_Tags(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "Tags"@)) by { reveal(commute); } } else if m == "Times"@ { entry_is_BackgroundColor(ks, active, up); entry_is_Times(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { entry_is_BackgroundColor(ks, active, up); entry_is_UUID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "UUID"@)) by { reveal(commute); } } else if m == "Binary"@ { entry_is_BackgroundColor(ks, active, up); entry_is_Binary(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_BackgroundColor(ks, active, up); entry_is_History(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_BackgroundColor(ks, active, up); entry_is_String(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "BackgroundColor"@, "String"@)) by { reveal(commute); } } else { }
}
proof fn entry_CustomIconUUID(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@ && m != "BackgroundColor"@ && m != "CustomIconUUID"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, m)
{
    hide(entry_step);
    if m == "ForegroundColor"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_ForegroundColor(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "ForegroundColor"@)) by { reveal(commute); } } else if m == "IconID"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_IconID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "IconID"@)) by { reveal(commute); } } else if m == "OverrideURL"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_OverrideURL(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "OverrideURL"@)) by { reveal(commute); } } else if m == "Tags"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_Tags(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "Tags"@)) by { reveal(commute); } } else if m == "Times"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_Times(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_UUID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "UUID"@)) by { reveal(commute); } } else if m == "Binary"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_Binary(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_History(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_CustomIconUUID(ks, active, up); entry_is_String(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "CustomIconUUID"@, "String"@)) by { reveal(commute); } } else { }
}
proof fn entry_ForegroundColor(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@ && m != "BackgroundColor"@ && m != "CustomIconUUID"@ && m != "ForegroundColor"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, m)
{
    hide(entry_step);
    if m == "IconID"@ { entry_is_ForegroundColor(ks, active, up); entry_is_IconID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, "IconID"@)) by { reveal(commute); } } else if m == "OverrideURL"@ { entry_is_ForegroundColor(ks, active, up); entry_is_OverrideURL(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, "OverrideURL"@)) by { reveal(commute); } } else if m == "Tags"@ { entry_is_ForegroundColor(ks, active, up); entry_is_Tags(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, "Tags"@)) by { reveal(commute); } } else if m == "Times"@ { entry_is_ForegroundColor(ks, active, up); entry_is_Times(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { entry_is_ForegroundColor(ks, active, up); entry_is_UUID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, "UUID"@)) by { reveal(commute); } } else if m == "Binary"@ { entry_is_ForegroundColor(ks, active, up); entry_is_Binary(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_ForegroundColor(ks, active, up); entry_is_History(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_ForegroundColor(ks, active, up); entry_is_String(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "ForegroundColor"@, "String"@)) by { reveal(commute); } } else { }
}
proof fn entry_IconID(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@ && m != "BackgroundColor"@ && m != "CustomIconUUID"@ && m != "ForegroundColor"@ && m != "IconID"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "IconID"@, m)
{
    hide(entry_step);
    if m == "OverrideURL"@ { entry_is_IconID(ks, active, up); entry_is_OverrideURL(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "IconID"@, "OverrideURL"@)) by { reveal(commute); } } else if m == "Tags"@ { entry_is_IconID(ks, active, up); entry_is_Tags(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "IconID"@, "Tags"@)) by { reveal(commute); } } else if m == "Times"@ { entry_is_IconID(ks, active, up); entry_is_Times(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "IconID"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { entry_is_IconID(ks, active, up); entry_is_UUID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "IconID"@, "UUID"@)) by { reveal(commute); } } else if m == "Binary"@ { entry_is_IconID(ks, active, up); entry_is_Binary(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "IconID"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_IconID(ks, active, up); entry_is_History(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "IconID"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_IconID(ks, active, up); entry_is_String(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "IconID"@, "String"@)) by { reveal(commute); } } else { }
}
proof fn entry_OverrideURL(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@ && m != "BackgroundColor"@ && m != "CustomIconUUID"@ && m != "ForegroundColor"@ && m != "IconID"@ && m != "OverrideURL"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "OverrideURL"@, m)
{
    hide(entry_step);
    if m == "Tags"@ { entry_is_OverrideURL(ks, active, up); entry_is_Tags(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "OverrideURL"@, "Tags"@)) by { reveal(commute); } } else if m == "Times"@ { entry_is_OverrideURL(ks, active, up); entry_is_Times(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "OverrideURL"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { entry_is_OverrideURL(ks, active, up); entry_is_UUID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "OverrideURL"@, "UUID"@)) by { reveal(commute); } } else if m == "Binary"@ { entry_is_OverrideURL(ks, active, up); entry_is_Binary(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "OverrideURL"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_OverrideURL(ks, active, up); entry_is_History(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "OverrideURL"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_OverrideURL(ks, active, up); entry_is_String(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "OverrideURL"@, "String"@)) by { reveal(commute); } } else { }
}
proof fn entry_Tags(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@ && m != "BackgroundColor"@ && m != "CustomIconUUID"@ && m != "ForegroundColor"@ && m != "IconID"@ && m != "OverrideURL"@ && m != "Tags"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Tags"@, m)
{
    hide(entry_step);
    if m == "Times"@ { entry_is_Tags(ks, active, up); entry_is_Times(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Tags"@, "Times"@)) by { reveal(commute); } } else if m == "UUID"@ { entry_is_Tags(ks, active, up); entry_is_UUID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Tags"@, "UUID"@)) by { reveal(commute); } } else if m == "Binary"@ { entry_is_Tags(ks, active, up); entry_is_Binary(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Tags"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_Tags(ks, active, up); entry_is_History(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Tags"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_Tags(ks, active, up); entry_is_String(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Tags"@, "String"@)) by { reveal(commute); } } else { }
}
proof fn entry_Times(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@ && m != "BackgroundColor"@ && m != "CustomIconUUID"@ && m != "ForegroundColor"@ && m != "IconID"@ && m != "OverrideURL"@ && m != "Tags"@ && m != "Times"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Times"@, m)
{
    hide(entry_step);
    if m == "UUID"@ { entry_is_Times(ks, active, up); entry_is_UUID(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Times"@, "UUID"@)) by { reveal(commute); } } else if m == "Binary"@ { entry_is_Times(ks, active, up); entry_is_Binary(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Times"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_Times(ks, active, up); entry_is_History(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Times"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_Times(ks, active, up); entry_is_String(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "Times"@, "String"@)) by { reveal(commute); } } else { }
}
proof fn entry_UUID(m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires m != "AutoType"@ && m != "BackgroundColor"@ && m != "CustomIconUUID"@ && m != "ForegroundColor"@ && m != "IconID"@ && m != "OverrideURL"@ && m != "Tags"@ && m != "Times"@ && m != "UUID"@, entry_part()(m) is Some ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), "UUID"@, m)
{
    hide(entry_step);
    if m == "Binary"@ { entry_is_UUID(ks, active, up); entry_is_Binary(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "UUID"@, "Binary"@)) by { reveal(commute); } } else if m == "History"@ { entry_is_UUID(ks, active, up); entry_is_History(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "UUID"@, "History"@)) by { reveal(commute); } } else if m == "String"@ { entry_is_UUID(ks, active, up); entry_is_String(ks, active, up);  assert(commute(entry_r(ks, active, up), entry_inv(ks, active, up), "UUID"@, "String"@)) by { reveal(commute); } } else { }
}
pub proof fn entry_ignores(n: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires entry_part()(n) is None ensures ignored(entry_r(ks, active, up), entry_inv(ks, active, up), n)
{ reveal_strlit("AutoType"); reveal_strlit("BackgroundColor"); reveal_strlit("CustomIconUUID"); reveal_strlit("ForegroundColor"); reveal_strlit("IconID"); reveal_strlit("OverrideURL"); reveal_strlit("Tags"); reveal_strlit("Times"); reveal_strlit("UUID"); reveal(ignored); }
proof fn entry_one(n: Seq<char>, m: Seq<char>, ks: Ks, active: bool, up: Seq<u8>)
    requires entry_part()(n) != entry_part()(m), entry_part()(n) is None || n == "AutoType"@ || n == "BackgroundColor"@ || n == "CustomIconUUID"@ || n == "ForegroundColor"@ || n == "IconID"@ || n == "OverrideURL"@ || n == "Tags"@ || n == "Times"@ || n == "UUID"@ ensures commute(entry_r(ks, active, up), entry_inv(ks, active, up), n, m)
{
    hide(entry_step); entry_keeps(ks, active, up);
    if entry_part()(n) is None { entry_ignores(n, ks, active, up); lemma_none_commutes(entry_r(ks, active, up), entry_inv(ks, active, up), n, m); }
    else if entry_part()(m) is None { entry_ignores(m, ks, active, up); lemma_none_commutes(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); }
    else { if n == "AutoType"@ { entry_AutoType(m, ks, active, up); } else if m == "AutoType"@ { entry_AutoType(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else if n == "BackgroundColor"@ { entry_BackgroundColor(m, ks, active, up); } else if m == "BackgroundColor"@ { entry_BackgroundColor(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else if n == "CustomIconUUID"@ { entry_CustomIconUUID(m, ks, active, up); } else if m == "CustomIconUUID"@ { entry_CustomIconUUID(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else if n == "ForegroundColor"@ { entry_ForegroundColor(m, ks, active, up); } else if m == "ForegroundColor"@ { entry_ForegroundColor(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else if n == "IconID"@ { entry_IconID(m, ks, active, up); } else if m == "IconID"@ { entry_IconID(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else if n == "OverrideURL"@ { entry_OverrideURL(m, ks, active, up); } else if m == "OverrideURL"@ { entry_OverrideURL(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else if n == "Tags"@ { entry_Tags(m, ks, active, up); } else if m == "Tags"@ { entry_Tags(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else if n == "Times"@ { entry_Times(m, ks, active, up); } else if m == "Times"@ { entry_Times(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else if n == "UUID"@ { entry_UUID(m, ks, active, up); } else if m == "UUID"@ { entry_UUID(n, ks, active, up); lemma_both_ways(entry_r(ks, active, up), entry_inv(ks, active, up), m, n); } else { } }
}
proof fn entry_keeps(ks: Ks, active: bool, up: Seq<u8>)
    ensures kept_by(entry_r(ks, active, up), entry_inv(ks, active, up))
{ reveal(kept_by); lemma_auto_frames(); }
pub proof fn lawful_entry(ks: Ks, active: bool, up: Seq<u8>)
    ensures lawful(entry_r(ks, active, up), entry_inv(ks, active, up), entry_part())
{
    hide(entry_step);
    let step = entry_r(ks, active, up); let inv = entry_inv(ks, active, up); let part = entry_part();
    entry_keeps(ks, active, up);
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { entry_ignores(n, ks, active, up); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        if n == "Binary"@ || n == "History"@ || n == "String"@ { entry_one(m, n, ks, active, up); lemma_both_ways(step, inv, m, n); } else { entry_one(n, m, ks, active, up); }
    }
}
} // verus!
} // order_entry
pub mod order_meta { // format/order_meta.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;
use crate::format::order_group::{lemma_both_ways, lemma_none_commutes};

verus! {


pub open spec fn meta_part() -> Part { |n: Seq<char>| if n == "Binaries"@ || n == "Color"@ || n == "CustomData"@ || n == "CustomIcons"@ || n == "DatabaseDescription"@ || n == "DatabaseDescriptionChanged"@ || n == "DatabaseName"@ || n == "DatabaseNameChanged"@ || n == "DefaultUserName"@ || n == "DefaultUserNameChanged"@ || n == "EntryTemplatesGroup"@ || n == "EntryTemplatesGroupChanged"@ || n == "Generator"@ || n == "HeaderHash"@ || n == "HistoryMaxItems"@ || n == "HistoryMaxSize"@ || n == "LastSelectedGroup"@ || n == "LastTopVisibleGroup"@ || n == "MaintenanceHistoryDays"@ || n == "MasterKeyChangeForce"@ || n == "MasterKeyChangeRec"@ || n == "MasterKeyChanged"@ || n == "MemoryProtection"@ || n == "RecycleBinChanged"@ || n == "RecycleBinEnabled"@ || n == "RecycleBinUUID"@ { Some(n) } else { None } }
pub open spec fn meta_inv() -> Inv<VData> { |s: VData| true }
pub proof fn meta_is_Binaries()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "Binaries"@, a, ev, pos) == { (match { match pool_from(ev, Map::empty()) { Some((v, e)) => Some((VData { tables: VTables { binaries: v, ..st.tables }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_Color()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "Color"@, a, ev, pos) == { (match { match color_opt(ev) { Some((v, e)) => Some((VData { limits: VLimits { color: v, ..st.limits }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_CustomData()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "CustomData"@, a, ev, pos) == { (match { match items_from(ev, Map::empty()) { Some((v, e)) => Some((VData { tables: VTables { custom_data: v, ..st.tables }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_CustomIcons()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "CustomIcons"@, a, ev, pos) == { (match { match pictures_from(ev, Map::empty()) { Some((v, e)) => Some((VData { tables: VTables { custom_icons: v, ..st.tables }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_DatabaseDescription()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "DatabaseDescription"@, a, ev, pos) == { (match { match string(ev) { Some((v, e)) => Some((VData { names: VNames { description: v, ..st.names }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_DatabaseDescriptionChanged()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "DatabaseDescriptionChanged"@, a, ev, pos) == { (match { match datetime(ev) { Some((v, e)) => Some((VData { names: VNames { description_changed: v, ..st.names }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_DatabaseName()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "DatabaseName"@, a, ev, pos) == { (match { match string(ev) { Some((v, e)) => Some((VData { names: VNames { name: v, ..st.names }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_DatabaseNameChanged()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "DatabaseNameChanged"@, a, ev, pos) == { (match { match datetime(ev) { Some((v, e)) => Some((VData { names: VNames { name_changed: v, ..st.names }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_DefaultUserName()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "DefaultUserName"@, a, ev, pos) == { (match { match string(ev) { Some((v, e)) => Some((VData { names: VNames { def_username: v, ..st.names }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_DefaultUserNameChanged()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "DefaultUserNameChanged"@, a, ev, pos) == { (match { match datetime(ev) { Some((v, e)) => Some((VData { names: VNames { def_username_changed: v, ..st.names }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_EntryTemplatesGroup()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "EntryTemplatesGroup"@, a, ev, pos) == { (match { match uuid(ev) { Some((v, e)) => Some((VData { places: VPlaces { entry_templates_group_uuid: v, ..st.places }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_EntryTemplatesGroupChanged()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "EntryTemplatesGroupChanged"@, a, ev, pos) == { (match { match datetime(ev) { Some((v, e)) => Some((VData { places: VPlaces { entry_templates_group_changed: v, ..st.places }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_Generator()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "Generator"@, a, ev, pos) == { (match { match string(ev) { Some((v, e)) => Some((VData { names: VNames { generator: v, ..st.names }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_HeaderHash()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "HeaderHash"@, a, ev, pos) == { (match { match bin(ev) { Some((v, e)) => Some((VData { tables: VTables { header_hash: Some(v), ..st.tables }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_HistoryMaxItems()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "HistoryMaxItems"@, a, ev, pos) == { (match { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { history_max_items: v, ..st.limits }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_HistoryMaxSize()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "HistoryMaxSize"@, a, ev, pos) == { (match { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { history_max_size: v, ..st.limits }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_LastSelectedGroup()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "LastSelectedGroup"@, a, ev, pos) == { (match { match uuid(ev) { Some((v, e)) => Some((VData { places: VPlaces { last_selected_group: v, ..st.places }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_LastTopVisibleGroup()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "LastTopVisibleGroup"@, a, ev, pos) == { (match { match uuid(ev) { Some((v, e)) => Some((VData { places: VPlaces { last_top_visible_group: v, ..st.places }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_MaintenanceHistoryDays()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "MaintenanceHistoryDays"@, a, ev, pos) == { (match { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { maintenance_history_days: v, ..st.limits }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_MasterKeyChangeForce()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "MasterKeyChangeForce"@, a, ev, pos) == { (match { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { master_key_change_force: v, ..st.limits }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_MasterKeyChangeRec()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "MasterKeyChangeRec"@, a, ev, pos) == { (match { match int32(ev) { Some((v, e)) => Some((VData { limits: VLimits { master_key_change_rec: v, ..st.limits }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_MasterKeyChanged()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "MasterKeyChanged"@, a, ev, pos) == { (match { match datetime(ev) { Some((v, e)) => Some((VData { limits: VLimits { master_key_changed: v, ..st.limits }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_MemoryProtection()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "MemoryProtection"@, a, ev, pos) == { (match { match protection_from(ev, st.protect) { Some((t, e)) => Some((VData { protect: t, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_RecycleBinChanged()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "RecycleBinChanged"@, a, ev, pos) == { (match { match datetime(ev) { Some((v, e)) => Some((VData { places: VPlaces { recycle_bin_changed: v, ..st.places }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_RecycleBinEnabled()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "RecycleBinEnabled"@, a, ev, pos) == { (match { match boolean(ev) { Some((v, e)) => Some((VData { places: VPlaces { recycle_bin_enabled: v, ..st.places }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
pub proof fn meta_is_RecycleBinUUID()
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| meta_inv()(st) ==> #[trigger] meta_r()(st, "RecycleBinUUID"@, a, ev, pos) == { (match { match uuid(ev) { Some((v, e)) => Some((VData { places: VPlaces { recycle_bin_uuid: v, ..st.places }, ..st }, e)), None => None } } { Some((t, e)) => Some((t, e, pos)), None => None }) }
{ meta_names(); }
proof fn meta_Binaries(m: Seq<char>)
    requires m != "Binaries"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "Binaries"@, m)
{
    hide(meta_step);
    if m == "Color"@ { meta_is_Binaries(); meta_is_Color();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "Color"@)) by { reveal(commute); } } else if m == "CustomData"@ { meta_is_Binaries(); meta_is_CustomData();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "CustomData"@)) by { reveal(commute); } } else if m == "CustomIcons"@ { meta_is_Binaries(); meta_is_CustomIcons();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "CustomIcons"@)) by { reveal(commute); } } else if m == "DatabaseDescription"@ { meta_is_Binaries(); meta_is_DatabaseDescription();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "DatabaseDescription"@)) by { reveal(commute); } } else if m == "DatabaseDescriptionChanged"@ { meta_is_Binaries(); meta_is_DatabaseDescriptionChanged();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "DatabaseDescriptionChanged"@)) by { reveal(commute); } } else if m == "DatabaseName"@ { meta_is_Binaries(); meta_is_DatabaseName();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "DatabaseName"@)) by { reveal(commute); } } else if m == "DatabaseNameChanged"@ { meta_is_Binaries(); meta_is_DatabaseNameChanged();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "DatabaseNameChanged"@)) by { reveal(commute); } } else if m == "DefaultUserName"@ { meta_is_Binaries(); meta_is_DefaultUserName();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "DefaultUserName"@)) by { reveal(commute); } } else if m == "DefaultUserNameChanged"@ { meta_is_Binaries(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_Binaries(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_Binaries(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_Binaries(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_Binaries(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_Binaries(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_Binaries(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_Binaries(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_Binaries(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_Binaries(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_Binaries(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_Binaries(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_Binaries(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_Binaries(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_Binaries(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_Binaries(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_Binaries(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "Binaries"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_Color(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "Color"@, m)
{
    hide(meta_step);
    if m == "CustomData"@ { meta_is_Color(); meta_is_CustomData();  assert(commute(meta_r(), meta_inv(), "Color"@, "CustomData"@)) by { reveal(commute); } } else if m == "CustomIcons"@ { meta_is_Color(); meta_is_CustomIcons();  assert(commute(meta_r(), meta_inv(), "Color"@, "CustomIcons"@)) by { reveal(commute); } } else if m == "DatabaseDescription"@ { meta_is_Color(); meta_is_DatabaseDescription();  assert(commute(meta_r(), meta_inv(), "Color"@, "DatabaseDescription"@)) by { reveal(commute); } } else if m == "DatabaseDescriptionChanged"@ { meta_is_Color(); meta_is_DatabaseDescriptionChanged();  assert(commute(meta_r(), meta_inv(), "Color"@, "DatabaseDescriptionChanged"@)) by { reveal(commute); } } else if m == "DatabaseName"@ { meta_is_Color(); meta_is_DatabaseName();  assert(commute(meta_r(), meta_inv(), "Color"@, "DatabaseName"@)) by { reveal(commute); } } else if m == "DatabaseNameChanged"@ { meta_is_Color(); meta_is_DatabaseNameChanged();  assert(commute(meta_r(), meta_inv(), "Color"@, "DatabaseNameChanged"@)) by { reveal(commute); } } else if m == "DefaultUserName"@ { meta_is_Color(); meta_is_DefaultUserName();  assert(commute(meta_r(), meta_inv(), "Color"@, "DefaultUserName"@)) by { reveal(commute); } } else if m == "DefaultUserNameChanged"@ { meta_is_Color(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "Color"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_Color(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "Color"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_Color(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "Color"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_Color(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "Color"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_Color(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "Color"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_Color(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "Color"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_Color(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "Color"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_Color(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "Color"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_Color(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "Color"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_Color(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "Color"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_Color(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "Color"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_Color(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "Color"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_Color(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "Color"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_Color(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "Color"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_Color(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "Color"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_Color(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "Color"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_Color(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "Color"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_CustomData(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "CustomData"@, m)
{
    hide(meta_step);
    if m == "CustomIcons"@ { meta_is_CustomData(); meta_is_CustomIcons();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "CustomIcons"@)) by { reveal(commute); } } else if m == "DatabaseDescription"@ { meta_is_CustomData(); meta_is_DatabaseDescription();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "DatabaseDescription"@)) by { reveal(commute); } } else if m == "DatabaseDescriptionChanged"@ { meta_is_CustomData(); meta_is_DatabaseDescriptionChanged();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "DatabaseDescriptionChanged"@)) by { reveal(commute); } } else if m == "DatabaseName"@ { meta_is_CustomData(); meta_is_DatabaseName();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "DatabaseName"@)) by { reveal(commute); } } else if m == "DatabaseNameChanged"@ { meta_is_CustomData(); meta_is_DatabaseNameChanged();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "DatabaseNameChanged"@)) by { reveal(commute); } } else if m == "DefaultUserName"@ { meta_is_CustomData(); meta_is_DefaultUserName();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "DefaultUserName"@)) by { reveal(commute); } } else if m == "DefaultUserNameChanged"@ { meta_is_CustomData(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_CustomData(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_CustomData(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_CustomData(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_CustomData(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_CustomData(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_CustomData(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_CustomData(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_CustomData(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_CustomData(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_CustomData(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_CustomData(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_CustomData(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_CustomData(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_CustomData(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_CustomData(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_CustomData(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "CustomData"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_CustomIcons(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "CustomIcons"@, m)
{
    hide(meta_step);
    if m == "DatabaseDescription"@ { meta_is_CustomIcons(); meta_is_DatabaseDescription();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "DatabaseDescription"@)) by { reveal(commute); } } else if m == "DatabaseDescriptionChanged"@ { meta_is_CustomIcons(); meta_is_DatabaseDescriptionChanged();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "DatabaseDescriptionChanged"@)) by { reveal(commute); } } else if m == "DatabaseName"@ { meta_is_CustomIcons(); meta_is_DatabaseName();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "DatabaseName"@)) by { reveal(commute); } } else if m == "DatabaseNameChanged"@ { meta_is_CustomIcons(); meta_is_DatabaseNameChanged();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "DatabaseNameChanged"@)) by { reveal(commute); } } else if m == "DefaultUserName"@ { meta_is_CustomIcons(); meta_is_DefaultUserName();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "DefaultUserName"@)) by { reveal(commute); } } else if m == "DefaultUserNameChanged"@ { meta_is_CustomIcons(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_CustomIcons(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_CustomIcons(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_CustomIcons(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_CustomIcons(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_CustomIcons(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_CustomIcons(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_CustomIcons(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_CustomIcons(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_CustomIcons(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_CustomIcons(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_CustomIcons(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_CustomIcons(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_CustomIcons(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_CustomIcons(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_CustomIcons(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_CustomIcons(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "CustomIcons"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_DatabaseDescription(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "DatabaseDescription"@, m)
{
    hide(meta_step);
    if m == "DatabaseDescriptionChanged"@ { meta_is_DatabaseDescription(); meta_is_DatabaseDescriptionChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "DatabaseDescriptionChanged"@)) by { reveal(commute); } } else if m == "DatabaseName"@ { meta_is_DatabaseDescription(); meta_is_DatabaseName();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "DatabaseName"@)) by { reveal(commute); } } else if m == "DatabaseNameChanged"@ { meta_is_DatabaseDescription(); meta_is_DatabaseNameChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "DatabaseNameChanged"@)) by { reveal(commute); } } else if m == "DefaultUserName"@ { meta_is_DatabaseDescription(); meta_is_DefaultUserName();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "DefaultUserName"@)) by { reveal(commute); } } else if m == "DefaultUserNameChanged"@ { meta_is_DatabaseDescription(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_DatabaseDescription(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_DatabaseDescription(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_DatabaseDescription(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_DatabaseDescription(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_DatabaseDescription(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_DatabaseDescription(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_DatabaseDescription(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_DatabaseDescription(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_DatabaseDescription(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_DatabaseDescription(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_DatabaseDescription(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_DatabaseDescription(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_DatabaseDescription(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_DatabaseDescription(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_DatabaseDescription(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_DatabaseDescription(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "DatabaseDescription"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_DatabaseDescriptionChanged(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, m)
{
    hide(meta_step);
    if m == "DatabaseName"@ { meta_is_DatabaseDescriptionChanged(); meta_is_DatabaseName();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "DatabaseName"@)) by { reveal(commute); } } else if m == "DatabaseNameChanged"@ { meta_is_DatabaseDescriptionChanged(); meta_is_DatabaseNameChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "DatabaseNameChanged"@)) by { reveal(commute); } } else if m == "DefaultUserName"@ { meta_is_DatabaseDescriptionChanged(); meta_is_DefaultUserName();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "DefaultUserName"@)) by { reveal(commute); } } else if m == "DefaultUserNameChanged"@ { meta_is_DatabaseDescriptionChanged(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_DatabaseDescriptionChanged(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_DatabaseDescriptionChanged(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_DatabaseDescriptionChanged(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_DatabaseDescriptionChanged(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_DatabaseDescriptionChanged(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_DatabaseDescriptionChanged(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_DatabaseDescriptionChanged(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_DatabaseDescriptionChanged(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_DatabaseDescriptionChanged(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_DatabaseDescriptionChanged(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_DatabaseDescriptionChanged(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_DatabaseDescriptionChanged(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_DatabaseDescriptionChanged(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_DatabaseDescriptionChanged(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_DatabaseDescriptionChanged(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_DatabaseDescriptionChanged(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "DatabaseDescriptionChanged"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_DatabaseName(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "DatabaseName"@, m)
{
    hide(meta_step);
    if m == "DatabaseNameChanged"@ { meta_is_DatabaseName(); meta_is_DatabaseNameChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "DatabaseNameChanged"@)) by { reveal(commute); } } else if m == "DefaultUserName"@ { meta_is_DatabaseName(); meta_is_DefaultUserName();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "DefaultUserName"@)) by { reveal(commute); } } else if m == "DefaultUserNameChanged"@ { meta_is_DatabaseName(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_DatabaseName(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_DatabaseName(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_DatabaseName(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_DatabaseName(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_DatabaseName(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_DatabaseName(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_DatabaseName(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_DatabaseName(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_DatabaseName(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_DatabaseName(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_DatabaseName(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_DatabaseName(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_DatabaseName(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_DatabaseName(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_DatabaseName(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_DatabaseName(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "DatabaseName"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_DatabaseNameChanged(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, m)
{
    hide(meta_step);
    if m == "DefaultUserName"@ { meta_is_DatabaseNameChanged(); meta_is_DefaultUserName();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "DefaultUserName"@)) by { reveal(commute); } } else if m == "DefaultUserNameChanged"@ { meta_is_DatabaseNameChanged(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_DatabaseNameChanged(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_DatabaseNameChanged(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_DatabaseNameChanged(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_DatabaseNameChanged(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_DatabaseNameChanged(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_DatabaseNameChanged(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_DatabaseNameChanged(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_DatabaseNameChanged(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_DatabaseNameChanged(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_DatabaseNameChanged(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_DatabaseNameChanged(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_DatabaseNameChanged(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_DatabaseNameChanged(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_DatabaseNameChanged(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_DatabaseNameChanged(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_DatabaseNameChanged(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "DatabaseNameChanged"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_DefaultUserName(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "DefaultUserName"@, m)
{
    hide(meta_step);
    if m == "DefaultUserNameChanged"@ { meta_is_DefaultUserName(); meta_is_DefaultUserNameChanged();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "DefaultUserNameChanged"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroup"@ { meta_is_DefaultUserName(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_DefaultUserName(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_DefaultUserName(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_DefaultUserName(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_DefaultUserName(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_DefaultUserName(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_DefaultUserName(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_DefaultUserName(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_DefaultUserName(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_DefaultUserName(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_DefaultUserName(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_DefaultUserName(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_DefaultUserName(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_DefaultUserName(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_DefaultUserName(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_DefaultUserName(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "DefaultUserName"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_DefaultUserNameChanged(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, m)
{
    hide(meta_step);
    if m == "EntryTemplatesGroup"@ { meta_is_DefaultUserNameChanged(); meta_is_EntryTemplatesGroup();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "EntryTemplatesGroup"@)) by { reveal(commute); } } else if m == "EntryTemplatesGroupChanged"@ { meta_is_DefaultUserNameChanged(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_DefaultUserNameChanged(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_DefaultUserNameChanged(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_DefaultUserNameChanged(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_DefaultUserNameChanged(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_DefaultUserNameChanged(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_DefaultUserNameChanged(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_DefaultUserNameChanged(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_DefaultUserNameChanged(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_DefaultUserNameChanged(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_DefaultUserNameChanged(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_DefaultUserNameChanged(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_DefaultUserNameChanged(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_DefaultUserNameChanged(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_DefaultUserNameChanged(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "DefaultUserNameChanged"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_EntryTemplatesGroup(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, m)
{
    hide(meta_step);
    if m == "EntryTemplatesGroupChanged"@ { meta_is_EntryTemplatesGroup(); meta_is_EntryTemplatesGroupChanged();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "EntryTemplatesGroupChanged"@)) by { reveal(commute); } } else if m == "Generator"@ { meta_is_EntryTemplatesGroup(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_EntryTemplatesGroup(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_EntryTemplatesGroup(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_EntryTemplatesGroup(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_EntryTemplatesGroup(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_EntryTemplatesGroup(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_EntryTemplatesGroup(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_EntryTemplatesGroup(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_EntryTemplatesGroup(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_EntryTemplatesGroup(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_EntryTemplatesGroup(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_EntryTemplatesGroup(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_EntryTemplatesGroup(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_EntryTemplatesGroup(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroup"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_EntryTemplatesGroupChanged(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, m)
{
    hide(meta_step);
    if m == "Generator"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_Generator();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "Generator"@)) by { reveal(commute); } } else if m == "HeaderHash"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_EntryTemplatesGroupChanged(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "EntryTemplatesGroupChanged"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_Generator(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "Generator"@, m)
{
    hide(meta_step);
    if m == "HeaderHash"@ { meta_is_Generator(); meta_is_HeaderHash();  assert(commute(meta_r(), meta_inv(), "Generator"@, "HeaderHash"@)) by { reveal(commute); } } else if m == "HistoryMaxItems"@ { meta_is_Generator(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "Generator"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_Generator(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "Generator"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_Generator(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "Generator"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_Generator(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "Generator"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_Generator(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "Generator"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_Generator(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "Generator"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_Generator(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "Generator"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_Generator(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "Generator"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_Generator(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "Generator"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_Generator(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "Generator"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_Generator(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "Generator"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_Generator(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "Generator"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_HeaderHash(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "HeaderHash"@, m)
{
    hide(meta_step);
    if m == "HistoryMaxItems"@ { meta_is_HeaderHash(); meta_is_HistoryMaxItems();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "HistoryMaxItems"@)) by { reveal(commute); } } else if m == "HistoryMaxSize"@ { meta_is_HeaderHash(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_HeaderHash(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_HeaderHash(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_HeaderHash(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_HeaderHash(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_HeaderHash(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_HeaderHash(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_HeaderHash(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_HeaderHash(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_HeaderHash(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_HeaderHash(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "HeaderHash"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_HistoryMaxItems(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "HistoryMaxItems"@, m)
{
    hide(meta_step);
    if m == "HistoryMaxSize"@ { meta_is_HistoryMaxItems(); meta_is_HistoryMaxSize();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "HistoryMaxSize"@)) by { reveal(commute); } } else if m == "LastSelectedGroup"@ { meta_is_HistoryMaxItems(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_HistoryMaxItems(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_HistoryMaxItems(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_HistoryMaxItems(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_HistoryMaxItems(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_HistoryMaxItems(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_HistoryMaxItems(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_HistoryMaxItems(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_HistoryMaxItems(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_HistoryMaxItems(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "HistoryMaxItems"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_HistoryMaxSize(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "HistoryMaxSize"@, m)
{
    hide(meta_step);
    if m == "LastSelectedGroup"@ { meta_is_HistoryMaxSize(); meta_is_LastSelectedGroup();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "LastSelectedGroup"@)) by { reveal(commute); } } else if m == "LastTopVisibleGroup"@ { meta_is_HistoryMaxSize(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_HistoryMaxSize(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_HistoryMaxSize(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_HistoryMaxSize(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_HistoryMaxSize(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_HistoryMaxSize(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_HistoryMaxSize(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_HistoryMaxSize(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_HistoryMaxSize(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "HistoryMaxSize"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_LastSelectedGroup(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "LastSelectedGroup"@, m)
{
    hide(meta_step);
    if m == "LastTopVisibleGroup"@ { meta_is_LastSelectedGroup(); meta_is_LastTopVisibleGroup();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "LastTopVisibleGroup"@)) by { reveal(commute); } } else if m == "MaintenanceHistoryDays"@ { meta_is_LastSelectedGroup(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_LastSelectedGroup(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_LastSelectedGroup(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_LastSelectedGroup(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_LastSelectedGroup(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_LastSelectedGroup(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_LastSelectedGroup(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_LastSelectedGroup(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "LastSelectedGroup"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_LastTopVisibleGroup(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, m)
{
    hide(meta_step);
    if m == "MaintenanceHistoryDays"@ { meta_is_LastTopVisibleGroup(); meta_is_MaintenanceHistoryDays();  assert(commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, "MaintenanceHistoryDays"@)) by { reveal(commute); } } else if m == "MasterKeyChangeForce"@ { meta_is_LastTopVisibleGroup(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_LastTopVisibleGroup(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_LastTopVisibleGroup(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_LastTopVisibleGroup(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_LastTopVisibleGroup(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_LastTopVisibleGroup(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_LastTopVisibleGroup(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "LastTopVisibleGroup"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_MaintenanceHistoryDays(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@ && m != "MaintenanceHistoryDays"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "MaintenanceHistoryDays"@, m)
{
    hide(meta_step);
    if m == "MasterKeyChangeForce"@ { meta_is_MaintenanceHistoryDays(); meta_is_MasterKeyChangeForce();  assert(commute(meta_r(), meta_inv(), "MaintenanceHistoryDays"@, "MasterKeyChangeForce"@)) by { reveal(commute); } } else if m == "MasterKeyChangeRec"@ { meta_is_MaintenanceHistoryDays(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "MaintenanceHistoryDays"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_MaintenanceHistoryDays(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "MaintenanceHistoryDays"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_MaintenanceHistoryDays(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "MaintenanceHistoryDays"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_MaintenanceHistoryDays(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "MaintenanceHistoryDays"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_MaintenanceHistoryDays(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "MaintenanceHistoryDays"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_MaintenanceHistoryDays(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "MaintenanceHistoryDays"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_MasterKeyChangeForce(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@ && m != "MaintenanceHistoryDays"@ && m != "MasterKeyChangeForce"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "MasterKeyChangeForce"@, m)
{
    hide(meta_step);
    if m == "MasterKeyChangeRec"@ { meta_is_MasterKeyChangeForce(); meta_is_MasterKeyChangeRec();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeForce"@, "MasterKeyChangeRec"@)) by { reveal(commute); } } else if m == "MasterKeyChanged"@ { meta_is_MasterKeyChangeForce(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeForce"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_MasterKeyChangeForce(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeForce"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_MasterKeyChangeForce(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeForce"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_MasterKeyChangeForce(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeForce"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_MasterKeyChangeForce(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeForce"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_MasterKeyChangeRec(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@ && m != "MaintenanceHistoryDays"@ && m != "MasterKeyChangeForce"@ && m != "MasterKeyChangeRec"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "MasterKeyChangeRec"@, m)
{
    hide(meta_step);
    if m == "MasterKeyChanged"@ { meta_is_MasterKeyChangeRec(); meta_is_MasterKeyChanged();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeRec"@, "MasterKeyChanged"@)) by { reveal(commute); } } else if m == "MemoryProtection"@ { meta_is_MasterKeyChangeRec(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeRec"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_MasterKeyChangeRec(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeRec"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_MasterKeyChangeRec(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeRec"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_MasterKeyChangeRec(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "MasterKeyChangeRec"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_MasterKeyChanged(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@ && m != "MaintenanceHistoryDays"@ && m != "MasterKeyChangeForce"@ && m != "MasterKeyChangeRec"@ && m != "MasterKeyChanged"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "MasterKeyChanged"@, m)
{
    hide(meta_step);
    if m == "MemoryProtection"@ { meta_is_MasterKeyChanged(); meta_is_MemoryProtection();  assert(commute(meta_r(), meta_inv(), "MasterKeyChanged"@, "MemoryProtection"@)) by { reveal(commute); } } else if m == "RecycleBinChanged"@ { meta_is_MasterKeyChanged(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "MasterKeyChanged"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_MasterKeyChanged(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "MasterKeyChanged"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_MasterKeyChanged(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "MasterKeyChanged"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_MemoryProtection(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@ && m != "MaintenanceHistoryDays"@ && m != "MasterKeyChangeForce"@ && m != "MasterKeyChangeRec"@ && m != "MasterKeyChanged"@ && m != "MemoryProtection"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "MemoryProtection"@, m)
{
    hide(meta_step);
    if m == "RecycleBinChanged"@ { meta_is_MemoryProtection(); meta_is_RecycleBinChanged();  assert(commute(meta_r(), meta_inv(), "MemoryProtection"@, "RecycleBinChanged"@)) by { reveal(commute); } } else if m == "RecycleBinEnabled"@ { meta_is_MemoryProtection(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "MemoryProtection"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_MemoryProtection(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "MemoryProtection"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_RecycleBinChanged(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@ && m != "MaintenanceHistoryDays"@ && m != "MasterKeyChangeForce"@ && m != "MasterKeyChangeRec"@ && m != "MasterKeyChanged"@ && m != "MemoryProtection"@ && m != "RecycleBinChanged"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "RecycleBinChanged"@, m)
{
    hide(meta_step);
    if m == "RecycleBinEnabled"@ { meta_is_RecycleBinChanged(); meta_is_RecycleBinEnabled();  assert(commute(meta_r(), meta_inv(), "RecycleBinChanged"@, "RecycleBinEnabled"@)) by { reveal(commute); } } else if m == "RecycleBinUUID"@ { meta_is_RecycleBinChanged(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "RecycleBinChanged"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_RecycleBinEnabled(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@ && m != "MaintenanceHistoryDays"@ && m != "MasterKeyChangeForce"@ && m != "MasterKeyChangeRec"@ && m != "MasterKeyChanged"@ && m != "MemoryProtection"@ && m != "RecycleBinChanged"@ && m != "RecycleBinEnabled"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "RecycleBinEnabled"@, m)
{
    hide(meta_step);
    if m == "RecycleBinUUID"@ { meta_is_RecycleBinEnabled(); meta_is_RecycleBinUUID();  assert(commute(meta_r(), meta_inv(), "RecycleBinEnabled"@, "RecycleBinUUID"@)) by { reveal(commute); } } else { }
}
proof fn meta_RecycleBinUUID(m: Seq<char>)
    requires m != "Binaries"@ && m != "Color"@ && m != "CustomData"@ && m != "CustomIcons"@ && m != "DatabaseDescription"@ && m != "DatabaseDescriptionChanged"@ && m != "DatabaseName"@ && m != "DatabaseNameChanged"@ && m != "DefaultUserName"@ && m != "DefaultUserNameChanged"@ && m != "EntryTemplatesGroup"@ && m != "EntryTemplatesGroupChanged"@ && m != "Generator"@ && m != "HeaderHash"@ && m != "HistoryMaxItems"@ && m != "HistoryMaxSize"@ && m != "LastSelectedGroup"@ && m != "LastTopVisibleGroup"@ && m != "MaintenanceHistoryDays"@ && m != "MasterKeyChangeForce"@ && m != "MasterKeyChangeRec"@ && m != "MasterKeyChanged"@ && m != "MemoryProtection"@ && m != "RecycleBinChanged"@ && m != "RecycleBinEnabled"@ && m != "RecycleBinUUID"@, meta_part()(m) is Some ensures commute(meta_r(), meta_inv(), "RecycleBinUUID"@, m)
{
    hide(meta_step);
     { }
}
pub proof fn meta_ignores(n: Seq<char>)
    requires meta_part()(n) is None ensures ignored(meta_r(), meta_inv(), n)
{  reveal(ignored); }
proof fn meta_one(n: Seq<char>, m: Seq<char>)
    requires meta_part()(n) != meta_part()(m), meta_part()(n) is None || n == "Binaries"@ || n == "Color"@ || n == "CustomData"@ || n == "CustomIcons"@ || n == "DatabaseDescription"@ || n == "DatabaseDescriptionChanged"@ || n == "DatabaseName"@ || n == "DatabaseNameChanged"@ || n == "DefaultUserName"@ || n == "DefaultUserNameChanged"@ || n == "EntryTemplatesGroup"@ || n == "EntryTemplatesGroupChanged"@ || n == "Generator"@ || n == "HeaderHash"@ || n == "HistoryMaxItems"@ || n == "HistoryMaxSize"@ || n == "LastSelectedGroup"@ || n == "LastTopVisibleGroup"@ || n == "MaintenanceHistoryDays"@ || n == "MasterKeyChangeForce"@ || n == "MasterKeyChangeRec"@ || n == "MasterKeyChanged"@ || n == "MemoryProtection"@ || n == "RecycleBinChanged"@ || n == "RecycleBinEnabled"@ || n == "RecycleBinUUID"@ ensures commute(meta_r(), meta_inv(), n, m)
{
    hide(meta_step); meta_keeps();
    if meta_part()(n) is None { meta_ignores(n); lemma_none_commutes(meta_r(), meta_inv(), n, m); }
    else if meta_part()(m) is None { meta_ignores(m); lemma_none_commutes(meta_r(), meta_inv(), m, n); lemma_both_ways(meta_r(), meta_inv(), m, n); }
    else { if n == "Binaries"@ { meta_Binaries(m); } else if m == "Binaries"@ { meta_Binaries(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "Color"@ { meta_Color(m); } else if m == "Color"@ { meta_Color(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "CustomData"@ { meta_CustomData(m); } else if m == "CustomData"@ { meta_CustomData(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "CustomIcons"@ { meta_CustomIcons(m); } else if m == "CustomIcons"@ { meta_CustomIcons(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "DatabaseDescription"@ { meta_DatabaseDescription(m); } else if m == "DatabaseDescription"@ { meta_DatabaseDescription(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "DatabaseDescriptionChanged"@ { meta_DatabaseDescriptionChanged(m); } else if m == "DatabaseDescriptionChanged"@ { meta_DatabaseDescriptionChanged(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "DatabaseName"@ { meta_DatabaseName(m); } else if m == "DatabaseName"@ { meta_DatabaseName(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "DatabaseNameChanged"@ { meta_DatabaseNameChanged(m); } else if m == "DatabaseNameChanged"@ { meta_DatabaseNameChanged(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "DefaultUserName"@ { meta_DefaultUserName(m); } else if m == "DefaultUserName"@ { meta_DefaultUserName(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "DefaultUserNameChanged"@ { meta_DefaultUserNameChanged(m); } else if m == "DefaultUserNameChanged"@ { meta_DefaultUserNameChanged(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "EntryTemplatesGroup"@ { meta_EntryTemplatesGroup(m); } else if m == "EntryTemplatesGroup"@ { meta_EntryTemplatesGroup(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "EntryTemplatesGroupChanged"@ { meta_EntryTemplatesGroupChanged(m); } else if m == "EntryTemplatesGroupChanged"@ { meta_EntryTemplatesGroupChanged(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "Generator"@ { meta_Generator(m); } else if m == "Generator"@ { meta_Generator(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "HeaderHash"@ { meta_HeaderHash(m); } else if m == "HeaderHash"@ { meta_HeaderHash(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "HistoryMaxItems"@ { meta_HistoryMaxItems(m); } else if m == "HistoryMaxItems"@ { meta_HistoryMaxItems(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "HistoryMaxSize"@ { meta_HistoryMaxSize(m); } else if m == "HistoryMaxSize"@ { meta_HistoryMaxSize(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "LastSelectedGroup"@ { meta_LastSelectedGroup(m); } else if m == "LastSelectedGroup"@ { meta_LastSelectedGroup(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "LastTopVisibleGroup"@ { meta_LastTopVisibleGroup(m); } else if m == "LastTopVisibleGroup"@ { meta_LastTopVisibleGroup(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "MaintenanceHistoryDays"@ { meta_MaintenanceHistoryDays(m); } else if m == "MaintenanceHistoryDays"@ { meta_MaintenanceHistoryDays(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "MasterKeyChangeForce"@ { meta_MasterKeyChangeForce(m); } else if m == "MasterKeyChangeForce"@ { meta_MasterKeyChangeForce(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "MasterKeyChangeRec"@ { meta_MasterKeyChangeRec(m); } else if m == "MasterKeyChangeRec"@ { meta_MasterKeyChangeRec(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "MasterKeyChanged"@ { meta_MasterKeyChanged(m); } else if m == "MasterKeyChanged"@ { meta_MasterKeyChanged(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "MemoryProtection"@ { meta_MemoryProtection(m); } else if m == "MemoryProtection"@ { meta_MemoryProtection(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "RecycleBinChanged"@ { meta_RecycleBinChanged(m); } else if m == "RecycleBinChanged"@ { meta_RecycleBinChanged(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "RecycleBinEnabled"@ { meta_RecycleBinEnabled(m); } else if m == "RecycleBinEnabled"@ { meta_RecycleBinEnabled(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else if n == "RecycleBinUUID"@ { meta_RecycleBinUUID(m); } else if m == "RecycleBinUUID"@ { meta_RecycleBinUUID(n); lemma_both_ways(meta_r(), meta_inv(), m, n); } else { } }
}
proof fn meta_keeps()
    ensures kept_by(meta_r(), meta_inv())
{ reveal(kept_by);  }
pub proof fn lawful_meta()
    ensures lawful(meta_r(), meta_inv(), meta_part())
{
    hide(meta_step);
    let step = meta_r(); let inv = meta_inv(); let part = meta_part();
    meta_keeps();
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { meta_ignores(n); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        if false { meta_one(m, n); lemma_both_ways(step, inv, m, n); } else { meta_one(n, m); }
    }
}
} // verus!
} // order_meta
pub mod order_file { // format/order_file.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;
use crate::format::order_group::{lemma_both_ways, lemma_none_commutes};
use crate::format::order_meta::*;

verus! {

/// Reading the meta data neither touches nor looks at the tree.
proof fn lemma_meta_frame(ev: Seq<Ev>, s: VData, t: VData)
    requires t == (VData { root: t.root, ..s })
    ensures meta_from(ev, t) == (match meta_from(ev, s) { Some((g, e)) => Some((VData { root: t.root, ..g }, e)), None => None }), meta_from(ev, s) matches Some((g, e)) ==> g.root == s.root
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => { lemma_meta_step(s, t, n, a, ev.skip(1)); match meta_step(s, n, a, ev.skip(1)) { Some((g, e)) => { let h = meta_step(t, n, a, ev.skip(1)).unwrap().0; if e.len() < ev.len() { lemma_meta_frame(e, g, h); } }, None => {} } },
            _ => lemma_meta_frame(ev.skip(1), s, t),
        }
    }
}
pub open spec fn framed(s: VData, t: VData, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> bool {
    meta_r()(t, n, a, ev, 0) == (match meta_r()(s, n, a, ev, 0) { Some((g, e, p)) => Some((VData { root: t.root, ..g }, e, p)), None => None }) && (meta_r()(s, n, a, ev, 0) matches Some((g, e, p)) ==> g.root == s.root && p == 0)
}
proof fn frame_none(s: VData, t: VData, n: Seq<char>, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }), meta_part()(n) is None ensures framed(s, t, n, a, ev) { hide(meta_step); meta_ignores(n); reveal(ignored); }
proof fn frame_Binaries(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "Binaries"@, a, ev) { hide(meta_step); meta_is_Binaries(); }
proof fn frame_Color(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "Color"@, a, ev) { hide(meta_step); meta_is_Color(); }
proof fn frame_CustomData(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "CustomData"@, a, ev) { hide(meta_step); meta_is_CustomData(); }
proof fn frame_CustomIcons(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "CustomIcons"@, a, ev) { hide(meta_step); meta_is_CustomIcons(); }
proof fn frame_DatabaseDescription(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "DatabaseDescription"@, a, ev) { hide(meta_step); meta_is_DatabaseDescription(); }
proof fn frame_DatabaseDescriptionChanged(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "DatabaseDescriptionChanged"@, a, ev) { hide(meta_step); meta_is_DatabaseDescriptionChanged(); }
proof fn frame_DatabaseName(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "DatabaseName"@, a, ev) { hide(meta_step); meta_is_DatabaseName(); }
proof fn frame_DatabaseNameChanged(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "DatabaseNameChanged"@, a, ev) { hide(meta_step); meta_is_DatabaseNameChanged(); }
proof fn frame_DefaultUserName(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "DefaultUserName"@, a, ev) { hide(meta_step); meta_is_DefaultUserName(); }
proof fn frame_DefaultUserNameChanged(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "DefaultUserNameChanged"@, a, ev) { hide(meta_step); meta_is_DefaultUserNameChanged(); }
proof fn frame_EntryTemplatesGroup(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "EntryTemplatesGroup"@, a, ev) { hide(meta_step); meta_is_EntryTemplatesGroup(); }
proof fn frame_EntryTemplatesGroupChanged(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "EntryTemplatesGroupChanged"@, a, ev) { hide(meta_step); meta_is_EntryTemplatesGroupChanged(); }
proof fn frame_Generator(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "Generator"@, a, ev) { hide(meta_step); meta_is_Generator(); }
proof fn frame_HeaderHash(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "HeaderHash"@, a, ev) { hide(meta_step); meta_is_HeaderHash(); }
proof fn frame_HistoryMaxItems(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "HistoryMaxItems"@, a, ev) { hide(meta_step); meta_is_HistoryMaxItems(); }
proof fn frame_HistoryMaxSize(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "HistoryMaxSize"@, a, ev) { hide(meta_step); meta_is_HistoryMaxSize(); }
proof fn frame_LastSelectedGroup(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "LastSelectedGroup"@, a, ev) { hide(meta_step); meta_is_LastSelectedGroup(); }
proof fn frame_LastTopVisibleGroup(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "LastTopVisibleGroup"@, a, ev) { hide(meta_step); meta_is_LastTopVisibleGroup(); }
proof fn frame_MaintenanceHistoryDays(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "MaintenanceHistoryDays"@, a, ev) { hide(meta_step); meta_is_MaintenanceHistoryDays(); }
proof fn frame_MasterKeyChangeForce(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "MasterKeyChangeForce"@, a, ev) { hide(meta_step); meta_is_MasterKeyChangeForce(); }
proof fn frame_MasterKeyChangeRec(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "MasterKeyChangeRec"@, a, ev) { hide(meta_step); meta_is_MasterKeyChangeRec(); }
proof fn frame_MasterKeyChanged(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "MasterKeyChanged"@, a, ev) { hide(meta_step); meta_is_MasterKeyChanged(); }
proof fn frame_MemoryProtection(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "MemoryProtection"@, a, ev) { hide(meta_step); meta_is_MemoryProtection(); }
proof fn frame_RecycleBinChanged(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "RecycleBinChanged"@, a, ev) { hide(meta_step); meta_is_RecycleBinChanged(); }
proof fn frame_RecycleBinEnabled(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "RecycleBinEnabled"@, a, ev) { hide(meta_step); meta_is_RecycleBinEnabled(); }
proof fn frame_RecycleBinUUID(s: VData, t: VData, a: Attrs, ev: Seq<Ev>) requires t == (VData { root: t.root, ..s }) ensures framed(s, t, "RecycleBinUUID"@, a, ev) { hide(meta_step); meta_is_RecycleBinUUID(); }
proof fn lemma_meta_step(s: VData, t: VData, n: Seq<char>, a: Attrs, ev: Seq<Ev>)
    requires t == (VData { root: t.root, ..s })
    ensures meta_step(t, n, a, ev) == (match meta_step(s, n, a, ev) { Some((g, e)) => Some((VData { root: t.root, ..g }, e)), None => None }), meta_step(s, n, a, ev) matches Some((g, e)) ==> g.root == s.root
{
    hide(meta_step);
    assert(framed(s, t, n, a, ev)) by {

        if meta_part()(n) is None { frame_none(s, t, n, a, ev); }
        if n == "Binaries"@ { frame_Binaries(s, t, a, ev); } if n == "Color"@ { frame_Color(s, t, a, ev); } if n == "CustomData"@ { frame_CustomData(s, t, a, ev); } if n == "CustomIcons"@ { frame_CustomIcons(s, t, a, ev); } if n == "DatabaseDescription"@ { frame_DatabaseDescription(s, t, a, ev); } if n == "DatabaseDescriptionChanged"@ { frame_DatabaseDescriptionChanged(s, t, a, ev); } if n == "DatabaseName"@ { frame_DatabaseName(s, t, a, ev); } if n == "DatabaseNameChanged"@ { frame_DatabaseNameChanged(s, t, a, ev); } if n == "DefaultUserName"@ { frame_DefaultUserName(s, t, a, ev); } if n == "DefaultUserNameChanged"@ { frame_DefaultUserNameChanged(s, t, a, ev); } if n == "EntryTemplatesGroup"@ { frame_EntryTemplatesGroup(s, t, a, ev); } if n == "EntryTemplatesGroupChanged"@ { frame_EntryTemplatesGroupChanged(s, t, a, ev); } if n == "Generator"@ { frame_Generator(s, t, a, ev); } if n == "HeaderHash"@ { frame_HeaderHash(s, t, a, ev); } if n == "HistoryMaxItems"@ { frame_HistoryMaxItems(s, t, a, ev); } if n == "HistoryMaxSize"@ { frame_HistoryMaxSize(s, t, a, ev); } if n == "LastSelectedGroup"@ { frame_LastSelectedGroup(s, t, a, ev); } if n == "LastTopVisibleGroup"@ { frame_LastTopVisibleGroup(s, t, a, ev); } if n == "MaintenanceHistoryDays"@ { frame_MaintenanceHistoryDays(s, t, a, ev); } if n == "MasterKeyChangeForce"@ { frame_MasterKeyChangeForce(s, t, a, ev); } if n == "MasterKeyChangeRec"@ { frame_MasterKeyChangeRec(s, t, a, ev); } if n == "MasterKeyChanged"@ { frame_MasterKeyChanged(s, t, a, ev); } if n == "MemoryProtection"@ { frame_MemoryProtection(s, t, a, ev); } if n == "RecycleBinChanged"@ { frame_RecycleBinChanged(s, t, a, ev); } if n == "RecycleBinEnabled"@ { frame_RecycleBinEnabled(s, t, a, ev); } if n == "RecycleBinUUID"@ { frame_RecycleBinUUID(s, t, a, ev); }
    }
}
proof fn lemma_meta_frames()
    ensures forall|ev: Seq<Ev>, s: VData, t: VData| #![trigger meta_from(ev, s), meta_from(ev, t)] t == (VData { root: t.root, ..s }) ==> meta_from(ev, t) == (match meta_from(ev, s) { Some((g, e)) => Some((VData { root: t.root, ..g }, e)), None => None }) && (meta_from(ev, s) matches Some((g, e)) ==> g.root == s.root)
{
    assert forall|ev: Seq<Ev>, s: VData, t: VData| #![trigger meta_from(ev, s), meta_from(ev, t)] t == (VData { root: t.root, ..s }) implies meta_from(ev, t) == (match meta_from(ev, s) { Some((g, e)) => Some((VData { root: t.root, ..g }, e)), None => None }) && (meta_from(ev, s) matches Some((g, e)) ==> g.root == s.root) by { lemma_meta_frame(ev, s, t); }
}


pub open spec fn file_part() -> Part { |n: Seq<char>|
    if n == "Root"@ { Some(seq![]) } else if n == "Meta"@ { Some(n) } else { None } }
pub open spec fn file_inv(ks: Ks) -> Inv<VData> { |s: VData| true }
pub proof fn file_is_Meta(ks: Ks)
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| file_inv(ks)(st) ==> #[trigger] file_r(ks)(st, "Meta"@, a, ev, pos) == { match meta_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None } }
{ file_names(); }
pub proof fn file_is_Root(ks: Ks)
    ensures forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| file_inv(ks)(st) ==> #[trigger] file_r(ks)(st, "Root"@, a, ev, pos) == { match root_from(ev, st.root, ks, pos) { Some((t, e, p)) => Some((VData { root: t, ..st }, e, p)), None => None } }
{ file_names(); }
proof fn file_Meta(m: Seq<char>, ks: Ks)
    requires m != "Meta"@, file_part()(m) is Some ensures commute(file_r(ks), file_inv(ks), "Meta"@, m)
{
    hide(file_step);
    if m == "Root"@ { file_is_Meta(ks); file_is_Root(ks); lemma_meta_frames(); assert(commute(file_r(ks), file_inv(ks), "Meta"@, "Root"@)) by { reveal(commute); } } else { }
}
pub proof fn file_ignores(n: Seq<char>, ks: Ks)
    requires file_part()(n) is None ensures ignored(file_r(ks), file_inv(ks), n)
{ reveal_strlit("Meta"); reveal(ignored); }
proof fn file_one(n: Seq<char>, m: Seq<char>, ks: Ks)
    requires file_part()(n) != file_part()(m), file_part()(n) is None || n == "Meta"@ ensures commute(file_r(ks), file_inv(ks), n, m)
{
    hide(file_step); file_keeps(ks);
    if file_part()(n) is None { file_ignores(n, ks); lemma_none_commutes(file_r(ks), file_inv(ks), n, m); }
    else if file_part()(m) is None { file_ignores(m, ks); lemma_none_commutes(file_r(ks), file_inv(ks), m, n); lemma_both_ways(file_r(ks), file_inv(ks), m, n); }
    else { if n == "Meta"@ { file_Meta(m, ks); } else if m == "Meta"@ { file_Meta(n, ks); lemma_both_ways(file_r(ks), file_inv(ks), m, n); } else { } }
}
proof fn file_keeps(ks: Ks)
    ensures kept_by(file_r(ks), file_inv(ks))
{ reveal(kept_by);  }
pub proof fn lawful_file(ks: Ks)
    ensures lawful(file_r(ks), file_inv(ks), file_part())
{
    hide(file_step);
    let step = file_r(ks); let inv = file_inv(ks); let part = file_part();
    file_keeps(ks);
    assert forall|n: Seq<char>| #![trigger part(n)] part(n) is None implies ignored(step, inv, n) by { file_ignores(n, ks); }
    assert forall|n: Seq<char>, m: Seq<char>| #![trigger part(n), part(m)] part(n) != part(m) implies commute(step, inv, n, m) by {
        if n == "Root"@ { file_one(m, n, ks); lemma_both_ways(step, inv, m, n); } else { file_one(n, m, ks); }
    }
}
} // verus!
} // order_file
pub mod order_deep { // format/order_deep.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;
use crate::format::xml::{binary_value, string_value};

verus! {

/// C18: a section read with its elements in any order that keeps the order inside each part, and with elements nobody knows added or left out, gives the same.
pub proof fn lemma_section<S>(step: Step<S>, end: Seq<char>, inv: Inv<S>, part: Part, xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: S, pos: int)
    requires lawful(step, inv, part), all_whole(step, end, xs), all_whole(step, end, ys), same_parts(xs, ys, part), inv(st)
    ensures run(step, end, cat(xs) + r, st, pos) == run(step, end, cat(ys) + r, st, pos)
{ lemma_fold(step, end, xs, r, st, pos); lemma_fold(step, end, ys, r, st, pos); lemma_order(step, inv, part, xs, ys, st, pos); }
/// What an element of text or nothing is shown as, with what may follow it up to the next element.
pub open spec fn leaf_events(n: Seq<char>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>) -> Seq<Ev> { seq![Ev::Start(n, a)] + (match s { Some(s) => seq![Ev::Text(s)], None => seq![] } + (seq![Ev::End(n)] + g)) }
pub open spec fn leafy(c: Seq<Ev>) -> bool { c.len() > 0 && (c[0] is Text || c[0] is End) }
/// A way of reading a value that looks at the element only.
pub type Get<V> = spec_fn(Attrs, Seq<Ev>, int) -> Got2<V>;
#[verifier::opaque]
pub open spec fn local<V>(get: Get<V>) -> bool {
    forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) ==> get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c)
}
#[verifier::opaque]
pub open spec fn valued<S, V>(step: Step<S>, n: Seq<char>, get: Get<V>, put: spec_fn(S, V) -> S) -> bool {
    forall|st: S, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, n, a, ev, pos)] step(st, n, a, ev, pos) == (match get(a, ev, pos) { Some((v, e, p)) => Some((put(st, v), e, p)), None => None })
}
pub proof fn lemma_leaf<S, V>(step: Step<S>, end: Seq<char>, n: Seq<char>, get: Get<V>, put: spec_fn(S, V) -> S, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires valued(step, n, get, put), local(get), idle(g, end), n != end
    ensures whole(step, end, leaf_events(n, a, s, g))
{
    reveal(whole); reveal(local); reveal(valued);
    let x = leaf_events(n, a, s, g); let b = seq![Ev::End(n)] + g; let c = match s { Some(s) => seq![Ev::Text(s)], None => seq![] } + b;
    assert(x.skip(1) =~= c); assert(leafy(c));
    assert forall|st: S, pos: int, r: Seq<Ev>| #![trigger step(st, n, a, x.skip(1) + r, pos)] step(st, n, a, x.skip(1) + r, pos) == with(step(st, n, a, x.skip(1), pos), r) by { assert(get(a, c + r, pos) == with(get(a, c, pos), r)); }
    assert(idle(c, end)) by { assert forall|i: int| 0 <= i < c.len() implies dull(#[trigger] c[i], end) by { if i >= c.len() - g.len() { assert(c[i] == g[i - (c.len() - g.len())]); } else { assert(c[i] == Ev::End(n) || c[i] is Text); } } }
    assert(idle(c.skip(1), end)) by { assert forall|i: int| 0 <= i < c.skip(1).len() implies dull(#[trigger] c.skip(1)[i], end) by { assert(c.skip(1)[i] == c[i + 1]); } }
    assert forall|st: S, pos: int| #![trigger step(st, n, a, x.skip(1), pos)] step(st, n, a, x.skip(1), pos) matches Some((z, e, p)) ==> idle(e, end) && e.len() < x.len() by { let nil = Seq::<Ev>::empty(); assert(get(a, c + nil, pos) == with(get(a, c, pos), nil)); }
}
pub proof fn lemma_text_local(c: Seq<Ev>, r: Seq<Ev>) requires leafy(c) ensures text(c + r) == (match text(c) { Some((v, e)) => Some((v, e + r)), None => None }), text(c) is Some, text(c).unwrap().1 == c.skip(1) { assert((c + r)[0] == c[0]); assert((c + r).skip(1) =~= c.skip(1) + r); }
pub open spec fn plain<V>(f: spec_fn(Seq<Ev>) -> Got<V>) -> Get<V> { |a: Attrs, ev: Seq<Ev>, pos: int| match f(ev) { Some((v, e)) => Some((v, e, pos)), None => None } }
pub open spec fn get_string() -> Get<Seq<char>> { plain(|ev: Seq<Ev>| string(ev)) }
pub proof fn local_string() ensures local(get_string()) {
    reveal(local); let get = get_string();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_bin() -> Get<Seq<u8>> { plain(|ev: Seq<Ev>| bin(ev)) }
pub proof fn local_bin() ensures local(get_bin()) {
    reveal(local); let get = get_bin();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_zipped() -> Get<Seq<u8>> { plain(|ev: Seq<Ev>| zipped(ev)) }
pub proof fn local_zipped() ensures local(get_zipped()) {
    reveal(local); let get = get_zipped();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_boolean() -> Get<bool> { plain(|ev: Seq<Ev>| boolean(ev)) }
pub proof fn local_boolean() ensures local(get_boolean()) {
    reveal(local); let get = get_boolean();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_bool_opt() -> Get<Option<bool>> { plain(|ev: Seq<Ev>| bool_opt(ev)) }
pub proof fn local_bool_opt() ensures local(get_bool_opt()) {
    reveal(local); let get = get_bool_opt();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_color_opt() -> Get<Option<Color>> { plain(|ev: Seq<Ev>| color_opt(ev)) }
pub proof fn local_color_opt() ensures local(get_color_opt()) {
    reveal(local); let get = get_color_opt();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_datetime() -> Get<DateTime<Utc>> { plain(|ev: Seq<Ev>| datetime(ev)) }
pub proof fn local_datetime() ensures local(get_datetime()) {
    reveal(local); let get = get_datetime();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_int32() -> Get<i32> { plain(|ev: Seq<Ev>| int32(ev)) }
pub proof fn local_int32() ensures local(get_int32()) {
    reveal(local); let get = get_int32();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_icon() -> Get<int> { plain(|ev: Seq<Ev>| icon(ev)) }
pub proof fn local_icon() ensures local(get_icon()) {
    reveal(local); let get = get_icon();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_obfuscation() -> Get<int> { plain(|ev: Seq<Ev>| obfuscation(ev)) }
pub proof fn local_obfuscation() ensures local(get_obfuscation()) {
    reveal(local); let get = get_obfuscation();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_uuid() -> Get<Seq<u8>> { plain(|ev: Seq<Ev>| uuid(ev)) }
pub proof fn local_uuid() ensures local(get_uuid()) {
    reveal(local); let get = get_uuid();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_uuid_opt() -> Get<Option<Seq<u8>>> { plain(|ev: Seq<Ev>| uuid_opt(ev)) }
pub proof fn local_uuid_opt() ensures local(get_uuid_opt()) {
    reveal(local); let get = get_uuid_opt();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_binary_value(ks: Ks) -> Get<VBin> { |a: Attrs, ev: Seq<Ev>, pos: int| binary_value(ev, a, ks, pos) }
pub proof fn local_binary_value(ks: Ks) ensures local(get_binary_value(ks)) {
    reveal(local); let get = get_binary_value(ks);
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub open spec fn get_string_value(ks: Ks) -> Get<VStr> { |a: Attrs, ev: Seq<Ev>, pos: int| string_value(ev, a, ks, pos) }
pub proof fn local_string_value(ks: Ks) ensures local(get_string_value(ks)) {
    reveal(local); let get = get_string_value(ks);
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
/// A section inside a section: read from a state of its own, and joined to what there was.
#[verifier::opaque]
pub open spec fn nests<S, T>(step: Step<S>, n: Seq<char>, inner: Step<T>, start: spec_fn(S) -> T, join: spec_fn(S, T) -> Option<S>) -> bool {
    forall|st: S, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, n, a, ev, pos)]
        step(st, n, a, ev, pos) == (match run(inner, n, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None })
}
/// The events of such a section: what may stand before its first element, its elements, and what may follow it up to the next element outside.
pub open spec fn node_events(n: Seq<char>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>) -> Seq<Ev> { seq![Ev::Start(n, a)] + (h + (cat(ys) + (seq![Ev::End(n)] + g))) }
pub proof fn lemma_inner<T>(inner: Step<T>, n: Seq<char>, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, r: Seq<Ev>, st: T, pos: int)
    requires all_whole(inner, n, ys), idle(h, n)
    ensures run(inner, n, (h + (cat(ys) + (seq![Ev::End(n)] + g))) + r, st, pos) == (match fold(inner, ys, st, pos) { Some((t, p)) => Some((t, g + r, p)), None => None })
{
    let z = (seq![Ev::End(n)] + g) + r; let w = cat(ys) + z;
    assert((h + (cat(ys) + (seq![Ev::End(n)] + g))) + r =~= h + w);
    lemma_idle(inner, n, h, w, st, pos);
    lemma_fold(inner, n, ys, z, st, pos);
    assert(z.skip(1) =~= g + r); assert(z[0] == Ev::End(n));
}
/// A section of whole elements is a whole element itself.
pub proof fn lemma_nested<S, T>(step: Step<S>, end: Seq<char>, n: Seq<char>, inner: Step<T>, start: spec_fn(S) -> T, join: spec_fn(S, T) -> Option<S>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>)
    requires nests(step, n, inner, start, join), all_whole(inner, n, ys), idle(h, n), idle(g, end)
    ensures
        whole(step, end, node_events(n, a, h, ys, g)),
        forall|st: S, pos: int| #[trigger] effect(step, node_events(n, a, h, ys, g), st, pos) == (match fold(inner, ys, start(st), pos) { Some((t, p)) => match join(st, t) { Some(s) => Some((s, p)), None => None }, None => None }),
{
    reveal(whole); reveal(nests);
    let x = node_events(n, a, h, ys, g); let c = h + (cat(ys) + (seq![Ev::End(n)] + g)); let nil = Seq::<Ev>::empty();
    assert(x.skip(1) =~= c); assert(c + nil =~= c); assert(g + nil =~= g);
    assert forall|st: S, pos: int, r: Seq<Ev>| #![trigger step(st, n, a, x.skip(1) + r, pos)] step(st, n, a, x.skip(1) + r, pos) == with(step(st, n, a, x.skip(1), pos), r) by { lemma_inner(inner, n, h, ys, g, r, start(st), pos); lemma_inner(inner, n, h, ys, g, nil, start(st), pos); }
    assert forall|st: S, pos: int| #![trigger step(st, n, a, x.skip(1), pos)] step(st, n, a, x.skip(1), pos) matches Some((z, e, p)) ==> idle(e, end) && e.len() < x.len() by { lemma_inner(inner, n, h, ys, g, nil, start(st), pos); }
    assert forall|st: S, pos: int| #[trigger] effect(step, x, st, pos) == (match fold(inner, ys, start(st), pos) { Some((t, p)) => match join(st, t) { Some(s) => Some((s, p)), None => None }, None => None }) by { lemma_inner(inner, n, h, ys, g, nil, start(st), pos); }
}
/// C18: ... at any depth: two sections that hold the same, in different orders, are alike to the section around them.
pub proof fn lemma_deeper<S, T>(step: Step<S>, end: Seq<char>, n: Seq<char>, inner: Step<T>, inv: Inv<T>, part: Part, start: spec_fn(S) -> T, join: spec_fn(S, T) -> Option<S>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires
        nests(step, n, inner, start, join), lawful(inner, inv, part), forall|st: S| inv(#[trigger] start(st)),
        all_whole(inner, n, ys), idle(h, n), idle(g, end), all_whole(inner, n, zs), idle(k, n), idle(f, end), same_parts(ys, zs, part),
    ensures alike(step, node_events(n, a, h, ys, g), node_events(n, b, k, zs, f))
{
    reveal(alike);
    lemma_nested(step, end, n, inner, start, join, a, h, ys, g); lemma_nested(step, end, n, inner, start, join, b, k, zs, f);
    let x = node_events(n, a, h, ys, g); let y = node_events(n, b, k, zs, f);
    assert forall|st: S, pos: int| #[trigger] effect(step, x, st, pos) == effect(step, y, st, pos) by { assert(inv(start(st))); lemma_order(inner, inv, part, ys, zs, start(st), pos); }
}

} // verus!
} // order_deep
pub mod order_sections { // format/order_sections.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;
use crate::format::order_deep::*;
use crate::format::order_parts::*;
use crate::format::order_group::*;
use crate::format::order_entry::*;
use crate::format::order_meta::*;
use crate::format::order_file::*;

verus! {
/// C18
pub proof fn times_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: VTimes)
    requires all_whole(times_r(), "Times"@, xs), all_whole(times_r(), "Times"@, ys), same_parts(xs, ys, times_part())
    ensures times_from(cat(xs) + r, st) == times_from(cat(ys) + r, st)
{ lawful_times(); lemma_section(times_r(), "Times"@, (|s: VTimes| true), times_part(), xs, ys, r, st, 0); lemma_times_run(cat(xs) + r, st, 0); lemma_times_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn item_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Two<Seq<char>, Seq<char>>)
    requires all_whole(item_r(), "Item"@, xs), all_whole(item_r(), "Item"@, ys), same_parts(xs, ys, item_part())
    ensures item_from(cat(xs) + r, st) == item_from(cat(ys) + r, st)
{ lawful_item(); lemma_section(item_r(), "Item"@, (|s: Two<Seq<char>, Seq<char>>| true), item_part(), xs, ys, r, st, 0); lemma_item_run(cat(xs) + r, st, 0); lemma_item_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn picture_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Two<Seq<u8>, Seq<u8>>)
    requires all_whole(picture_r(), "Icon"@, xs), all_whole(picture_r(), "Icon"@, ys), same_parts(xs, ys, picture_part())
    ensures picture_from(cat(xs) + r, st) == picture_from(cat(ys) + r, st)
{ lawful_picture(); lemma_section(picture_r(), "Icon"@, (|s: Two<Seq<u8>, Seq<u8>>| true), picture_part(), xs, ys, r, st, 0); lemma_picture_run(cat(xs) + r, st, 0); lemma_picture_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn assoc_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Two<Seq<char>, Seq<char>>)
    requires all_whole(assoc_r(), "Association"@, xs), all_whole(assoc_r(), "Association"@, ys), same_parts(xs, ys, assoc_part()), run(assoc_r(), "Association"@, cat(xs) + r, st, 0) is Some
    ensures assoc_from(cat(xs) + r, st) == assoc_from(cat(ys) + r, st)
{ lawful_assoc(); lemma_section(assoc_r(), "Association"@, |s: Two<Seq<char>, Seq<char>>| true, assoc_part(), xs, ys, r, st, 0); lemma_assoc_run(cat(xs) + r, st, 0); lemma_assoc_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn protection_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: VProtect)
    requires all_whole(protection_r(), "MemoryProtection"@, xs), all_whole(protection_r(), "MemoryProtection"@, ys), same_parts(xs, ys, protection_part())
    ensures protection_from(cat(xs) + r, st) == protection_from(cat(ys) + r, st)
{ lawful_protection(); lemma_section(protection_r(), "MemoryProtection"@, (|s: VProtect| true), protection_part(), xs, ys, r, st, 0); lemma_protection_run(cat(xs) + r, st, 0); lemma_protection_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn auto_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: VEntry)
    requires all_whole(auto_r(), "AutoType"@, xs), all_whole(auto_r(), "AutoType"@, ys), same_parts(xs, ys, auto_part())
    ensures auto_from(cat(xs) + r, st) == auto_from(cat(ys) + r, st)
{ lawful_auto(); lemma_section(auto_r(), "AutoType"@, (|s: VEntry| true), auto_part(), xs, ys, r, st, 0); lemma_auto_run(cat(xs) + r, st, 0); lemma_auto_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn bin_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Two<BinaryKey, VBin>, ks: Ks, pos: int)
    requires all_whole(bin_r(ks), "Binary"@, xs), all_whole(bin_r(ks), "Binary"@, ys), same_parts(xs, ys, bin_part())
    ensures bin_from(cat(xs) + r, st, ks, pos) == bin_from(cat(ys) + r, st, ks, pos)
{ lawful_bin(ks); lemma_section(bin_r(ks), "Binary"@, (|s: Two<BinaryKey, VBin>| true), bin_part(), xs, ys, r, st, pos); lemma_bin_run(cat(xs) + r, st, ks, pos); lemma_bin_run(cat(ys) + r, st, ks, pos); }
/// C18
pub proof fn str_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Two<StringKey, VStr>, ks: Ks, pos: int)
    requires all_whole(str_r(ks), "String"@, xs), all_whole(str_r(ks), "String"@, ys), same_parts(xs, ys, str_part())
    ensures str_from(cat(xs) + r, st, ks, pos) == str_from(cat(ys) + r, st, ks, pos)
{ lawful_str(ks); lemma_section(str_r(ks), "String"@, (|s: Two<StringKey, VStr>| true), str_part(), xs, ys, r, st, pos); lemma_str_run(cat(xs) + r, st, ks, pos); lemma_str_run(cat(ys) + r, st, ks, pos); }
/// C18
pub proof fn pool_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Map<BinaryId, Seq<u8>>)
    requires all_whole(pool_r(), "Binaries"@, xs), all_whole(pool_r(), "Binaries"@, ys), same_parts(xs, ys, pool_part())
    ensures pool_from(cat(xs) + r, st) == pool_from(cat(ys) + r, st)
{ lawful_pool(); lemma_section(pool_r(), "Binaries"@, (|s: Map<BinaryId, Seq<u8>>| true), pool_part(), xs, ys, r, st, 0); lemma_pool_run(cat(xs) + r, st, 0); lemma_pool_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn items_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Map<String, Seq<char>>)
    requires all_whole(items_r(), "CustomData"@, xs), all_whole(items_r(), "CustomData"@, ys), same_parts(xs, ys, items_part())
    ensures items_from(cat(xs) + r, st) == items_from(cat(ys) + r, st)
{ lawful_items(); lemma_section(items_r(), "CustomData"@, (|s: Map<String, Seq<char>>| true), items_part(), xs, ys, r, st, 0); lemma_items_run(cat(xs) + r, st, 0); lemma_items_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn pictures_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Map<CustomIconUuid, Seq<u8>>)
    requires all_whole(pictures_r(), "CustomIcons"@, xs), all_whole(pictures_r(), "CustomIcons"@, ys), same_parts(xs, ys, pictures_part())
    ensures pictures_from(cat(xs) + r, st) == pictures_from(cat(ys) + r, st)
{ lawful_pictures(); lemma_section(pictures_r(), "CustomIcons"@, (|s: Map<CustomIconUuid, Seq<u8>>| true), pictures_part(), xs, ys, r, st, 0); lemma_pictures_run(cat(xs) + r, st, 0); lemma_pictures_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn past_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Seq<VEntry>, ks: Ks, up: Seq<u8>, pos: int)
    requires all_whole(past_r(ks, up), "History"@, xs), all_whole(past_r(ks, up), "History"@, ys), same_parts(xs, ys, past_part())
    ensures past_from(cat(xs) + r, st, ks, up, pos) == past_from(cat(ys) + r, st, ks, up, pos)
{ lawful_past(ks, up); lemma_section(past_r(ks, up), "History"@, (|s: Seq<VEntry>| true), past_part(), xs, ys, r, st, pos); lemma_past_run(cat(xs) + r, st, ks, up, pos); lemma_past_run(cat(ys) + r, st, ks, up, pos); }
/// C18
pub proof fn root_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: Option<VGroup>, ks: Ks, pos: int)
    requires all_whole(root_r(ks), "Root"@, xs), all_whole(root_r(ks), "Root"@, ys), same_parts(xs, ys, root_part())
    ensures root_from(cat(xs) + r, st, ks, pos) == root_from(cat(ys) + r, st, ks, pos)
{ lawful_root(ks); lemma_section(root_r(ks), "Root"@, (|s: Option<VGroup>| true), root_part(), xs, ys, r, st, pos); lemma_root_run(cat(xs) + r, st, ks, pos); lemma_root_run(cat(ys) + r, st, ks, pos); }
/// C18
pub proof fn group_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: VGroup, ks: Ks, pos: int)
    requires all_whole(group_r(ks), "Group"@, xs), all_whole(group_r(ks), "Group"@, ys), same_parts(xs, ys, group_part())
    ensures group_from(cat(xs) + r, st, ks, pos) == group_from(cat(ys) + r, st, ks, pos)
{ lawful_group(ks); lemma_section(group_r(ks), "Group"@, group_inv(ks), group_part(), xs, ys, r, st, pos); lemma_group_run(cat(xs) + r, st, ks, pos); lemma_group_run(cat(ys) + r, st, ks, pos); }
/// C18
pub proof fn entry_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: VEntry, ks: Ks, active: bool, up: Seq<u8>, pos: int)
    requires st.within == up, all_whole(entry_r(ks, active, up), "Entry"@, xs), all_whole(entry_r(ks, active, up), "Entry"@, ys), same_parts(xs, ys, entry_part())
    ensures entry_from(cat(xs) + r, st, ks, active, up, pos) == entry_from(cat(ys) + r, st, ks, active, up, pos)
{ lawful_entry(ks, active, up); lemma_section(entry_r(ks, active, up), "Entry"@, entry_inv(ks, active, up), entry_part(), xs, ys, r, st, pos); lemma_entry_run(cat(xs) + r, st, ks, active, up, pos); lemma_entry_run(cat(ys) + r, st, ks, active, up, pos); }
/// C18
pub proof fn meta_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: VData)
    requires all_whole(meta_r(), "Meta"@, xs), all_whole(meta_r(), "Meta"@, ys), same_parts(xs, ys, meta_part())
    ensures meta_from(cat(xs) + r, st) == meta_from(cat(ys) + r, st)
{ lawful_meta(); lemma_section(meta_r(), "Meta"@, meta_inv(), meta_part(), xs, ys, r, st, 0); lemma_meta_run(cat(xs) + r, st, 0); lemma_meta_run(cat(ys) + r, st, 0); }
/// C18
pub proof fn file_in_any_order(xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: VData, ks: Ks, pos: int)
    requires all_whole(file_r(ks), "KeePassFile"@, xs), all_whole(file_r(ks), "KeePassFile"@, ys), same_parts(xs, ys, file_part())
    ensures file_from(cat(xs) + r, st, ks, pos) == file_from(cat(ys) + r, st, ks, pos)
{ lawful_file(ks); lemma_section(file_r(ks), "KeePassFile"@, file_inv(ks), file_part(), xs, ys, r, st, pos); lemma_file_run(cat(xs) + r, st, ks, pos); lemma_file_run(cat(ys) + r, st, ks, pos); }
} // verus!
} // order_sections
pub mod order_leaves { // format/order_leaves.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;
use crate::format::order_deep::*;
use crate::format::order_parts::*;
use crate::format::order_group::*;
use crate::format::order_entry::*;
use crate::format::order_meta::*;
use crate::format::order_file::*;
use crate::format::xml::{binary_value, string_value};
use crate::vx::string_of;

verus! {
pub proof fn times_leaf_CreationTime(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Times"@)
    ensures whole(times_r(), "Times"@, leaf_events("CreationTime"@, a, s, g))
{
    let put = |st: VTimes, v: DateTime<Utc>| VTimes { creation: v, ..st };
    assert(valued(times_r(), "CreationTime"@, get_datetime(), put)) by { reveal(valued); times_names(); }
    assert("CreationTime"@ != "Times"@) by { times_names(); }
    local_datetime(); lemma_leaf(times_r(), "Times"@, "CreationTime"@, get_datetime(), put, a, s, g);
}
pub proof fn times_leaf_ExpiryTime(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Times"@)
    ensures whole(times_r(), "Times"@, leaf_events("ExpiryTime"@, a, s, g))
{
    let put = |st: VTimes, v: DateTime<Utc>| VTimes { expiry: v, ..st };
    assert(valued(times_r(), "ExpiryTime"@, get_datetime(), put)) by { reveal(valued); times_names(); }
    assert("ExpiryTime"@ != "Times"@) by { times_names(); }
    local_datetime(); lemma_leaf(times_r(), "Times"@, "ExpiryTime"@, get_datetime(), put, a, s, g);
}
pub proof fn times_leaf_Expires(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Times"@)
    ensures whole(times_r(), "Times"@, leaf_events("Expires"@, a, s, g))
{
    let put = |st: VTimes, v: bool| VTimes { expires: v, ..st };
    assert(valued(times_r(), "Expires"@, get_boolean(), put)) by { reveal(valued); times_names(); }
    assert("Expires"@ != "Times"@) by { times_names(); }
    local_boolean(); lemma_leaf(times_r(), "Times"@, "Expires"@, get_boolean(), put, a, s, g);
}
pub proof fn times_leaf_LastAccessTime(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Times"@)
    ensures whole(times_r(), "Times"@, leaf_events("LastAccessTime"@, a, s, g))
{
    let put = |st: VTimes, v: DateTime<Utc>| VTimes { accessed: v, ..st };
    assert(valued(times_r(), "LastAccessTime"@, get_datetime(), put)) by { reveal(valued); times_names(); }
    assert("LastAccessTime"@ != "Times"@) by { times_names(); }
    local_datetime(); lemma_leaf(times_r(), "Times"@, "LastAccessTime"@, get_datetime(), put, a, s, g);
}
pub proof fn times_leaf_LastModificationTime(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Times"@)
    ensures whole(times_r(), "Times"@, leaf_events("LastModificationTime"@, a, s, g))
{
    let put = |st: VTimes, v: DateTime<Utc>| VTimes { modified: v, ..st };
    assert(valued(times_r(), "LastModificationTime"@, get_datetime(), put)) by { reveal(valued); times_names(); }
    assert("LastModificationTime"@ != "Times"@) by { times_names(); }
    local_datetime(); lemma_leaf(times_r(), "Times"@, "LastModificationTime"@, get_datetime(), put, a, s, g);
}
pub proof fn times_leaf_LocationChanged(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Times"@)
    ensures whole(times_r(), "Times"@, leaf_events("LocationChanged"@, a, s, g))
{
    let put = |st: VTimes, v: DateTime<Utc>| VTimes { moved: v, ..st };
    assert(valued(times_r(), "LocationChanged"@, get_datetime(), put)) by { reveal(valued); times_names(); }
    assert("LocationChanged"@ != "Times"@) by { times_names(); }
    local_datetime(); lemma_leaf(times_r(), "Times"@, "LocationChanged"@, get_datetime(), put, a, s, g);
}
pub proof fn times_leaf_UsageCount(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Times"@)
    ensures whole(times_r(), "Times"@, leaf_events("UsageCount"@, a, s, g))
{
    let put = |st: VTimes, v: i32| VTimes { count: v, ..st };
    assert(valued(times_r(), "UsageCount"@, get_int32(), put)) by { reveal(valued); times_names(); }
    assert("UsageCount"@ != "Times"@) by { times_names(); }
    local_int32(); lemma_leaf(times_r(), "Times"@, "UsageCount"@, get_int32(), put, a, s, g);
}
pub proof fn item_leaf_Key(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Item"@)
    ensures whole(item_r(), "Item"@, leaf_events("Key"@, a, s, g))
{
    let put = |st: Two<Seq<char>, Seq<char>>, v: Seq<char>| Two { a: Some(v), ..st };
    assert(valued(item_r(), "Key"@, get_string(), put)) by { reveal(valued); item_names(); }
    assert("Key"@ != "Item"@) by { item_names(); }
    local_string(); lemma_leaf(item_r(), "Item"@, "Key"@, get_string(), put, a, s, g);
}
pub proof fn item_leaf_Value(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Item"@)
    ensures whole(item_r(), "Item"@, leaf_events("Value"@, a, s, g))
{
    let put = |st: Two<Seq<char>, Seq<char>>, v: Seq<char>| Two { b: Some(v), ..st };
    assert(valued(item_r(), "Value"@, get_string(), put)) by { reveal(valued); item_names(); }
    assert("Value"@ != "Item"@) by { item_names(); }
    local_string(); lemma_leaf(item_r(), "Item"@, "Value"@, get_string(), put, a, s, g);
}
pub proof fn picture_leaf_Data(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Icon"@)
    ensures whole(picture_r(), "Icon"@, leaf_events("Data"@, a, s, g))
{
    let put = |st: Two<Seq<u8>, Seq<u8>>, v: Seq<u8>| Two { b: Some(v), ..st };
    assert(valued(picture_r(), "Data"@, get_bin(), put)) by { reveal(valued); picture_names(); }
    assert("Data"@ != "Icon"@) by { picture_names(); }
    local_bin(); lemma_leaf(picture_r(), "Icon"@, "Data"@, get_bin(), put, a, s, g);
}
pub proof fn picture_leaf_UUID(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Icon"@)
    ensures whole(picture_r(), "Icon"@, leaf_events("UUID"@, a, s, g))
{
    let put = |st: Two<Seq<u8>, Seq<u8>>, v: Option<Seq<u8>>| Two { a: v, ..st };
    assert(valued(picture_r(), "UUID"@, get_uuid_opt(), put)) by { reveal(valued); picture_names(); }
    assert("UUID"@ != "Icon"@) by { picture_names(); }
    local_uuid_opt(); lemma_leaf(picture_r(), "Icon"@, "UUID"@, get_uuid_opt(), put, a, s, g);
}
pub proof fn assoc_leaf_KeystrokeSequence(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Association"@)
    ensures whole(assoc_r(), "Association"@, leaf_events("KeystrokeSequence"@, a, s, g))
{
    let put = |st: Two<Seq<char>, Seq<char>>, v: Seq<char>| Two { a: Some(v), ..st };
    assert(valued(assoc_r(), "KeystrokeSequence"@, get_string(), put)) by { reveal(valued); assoc_names(); }
    assert("KeystrokeSequence"@ != "Association"@) by { assoc_names(); }
    local_string(); lemma_leaf(assoc_r(), "Association"@, "KeystrokeSequence"@, get_string(), put, a, s, g);
}
pub proof fn assoc_leaf_Window(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Association"@)
    ensures whole(assoc_r(), "Association"@, leaf_events("Window"@, a, s, g))
{
    let put = |st: Two<Seq<char>, Seq<char>>, v: Seq<char>| Two { b: Some(v), ..st };
    assert(valued(assoc_r(), "Window"@, get_string(), put)) by { reveal(valued); assoc_names(); }
    assert("Window"@ != "Association"@) by { assoc_names(); }
    local_string(); lemma_leaf(assoc_r(), "Association"@, "Window"@, get_string(), put, a, s, g);
}
pub proof fn protection_leaf_ProtectNotes(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "MemoryProtection"@)
    ensures whole(protection_r(), "MemoryProtection"@, leaf_events("ProtectNotes"@, a, s, g))
{
    let put = |st: VProtect, v: bool| VProtect { protect_notes: v, ..st };
    assert(valued(protection_r(), "ProtectNotes"@, get_boolean(), put)) by { reveal(valued); protection_names(); }
    assert("ProtectNotes"@ != "MemoryProtection"@) by { protection_names(); }
    local_boolean(); lemma_leaf(protection_r(), "MemoryProtection"@, "ProtectNotes"@, get_boolean(), put, a, s, g);
}
pub proof fn protection_leaf_ProtectPassword(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "MemoryProtection"@)
    ensures whole(protection_r(), "MemoryProtection"@, leaf_events("ProtectPassword"@, a, s, g))
{
    let put = |st: VProtect, v: bool| VProtect { protect_password: v, ..st };
    assert(valued(protection_r(), "ProtectPassword"@, get_boolean(), put)) by { reveal(valued); protection_names(); }
    assert("ProtectPassword"@ != "MemoryProtection"@) by { protection_names(); }
    local_boolean(); lemma_leaf(protection_r(), "MemoryProtection"@, "ProtectPassword"@, get_boolean(), put, a, s, g);
}
pub proof fn protection_leaf_ProtectTitle(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "MemoryProtection"@)
    ensures whole(protection_r(), "MemoryProtection"@, leaf_events("ProtectTitle"@, a, s, g))
{
    let put = |st: VProtect, v: bool| VProtect { protect_title: v, ..st };
    assert(valued(protection_r(), "ProtectTitle"@, get_boolean(), put)) by { reveal(valued); protection_names(); }
    assert("ProtectTitle"@ != "MemoryProtection"@) by { protection_names(); }
    local_boolean(); lemma_leaf(protection_r(), "MemoryProtection"@, "ProtectTitle"@, get_boolean(), put, a, s, g);
}
pub proof fn protection_leaf_ProtectURL(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "MemoryProtection"@)
    ensures whole(protection_r(), "MemoryProtection"@, leaf_events("ProtectURL"@, a, s, g))
{
    let put = |st: VProtect, v: bool| VProtect { protect_url: v, ..st };
    assert(valued(protection_r(), "ProtectURL"@, get_boolean(), put)) by { reveal(valued); protection_names(); }
    assert("ProtectURL"@ != "MemoryProtection"@) by { protection_names(); }
    local_boolean(); lemma_leaf(protection_r(), "MemoryProtection"@, "ProtectURL"@, get_boolean(), put, a, s, g);
}
pub proof fn protection_leaf_ProtectUserName(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "MemoryProtection"@)
    ensures whole(protection_r(), "MemoryProtection"@, leaf_events("ProtectUserName"@, a, s, g))
{
    let put = |st: VProtect, v: bool| VProtect { protect_username: v, ..st };
    assert(valued(protection_r(), "ProtectUserName"@, get_boolean(), put)) by { reveal(valued); protection_names(); }
    assert("ProtectUserName"@ != "MemoryProtection"@) by { protection_names(); }
    local_boolean(); lemma_leaf(protection_r(), "MemoryProtection"@, "ProtectUserName"@, get_boolean(), put, a, s, g);
}
pub proof fn auto_leaf_DataTransferObfuscation(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "AutoType"@)
    ensures whole(auto_r(), "AutoType"@, leaf_events("DataTransferObfuscation"@, a, s, g))
{
    let put = |st: VEntry, v: int| VEntry { obf: v, ..st };
    assert(valued(auto_r(), "DataTransferObfuscation"@, get_obfuscation(), put)) by { reveal(valued); auto_names(); }
    assert("DataTransferObfuscation"@ != "AutoType"@) by { auto_names(); }
    local_obfuscation(); lemma_leaf(auto_r(), "AutoType"@, "DataTransferObfuscation"@, get_obfuscation(), put, a, s, g);
}
pub proof fn auto_leaf_DefaultSequence(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "AutoType"@)
    ensures whole(auto_r(), "AutoType"@, leaf_events("DefaultSequence"@, a, s, g))
{
    let put = |st: VEntry, v: Seq<char>| VEntry { sequence: v, ..st };
    assert(valued(auto_r(), "DefaultSequence"@, get_string(), put)) by { reveal(valued); auto_names(); }
    assert("DefaultSequence"@ != "AutoType"@) by { auto_names(); }
    local_string(); lemma_leaf(auto_r(), "AutoType"@, "DefaultSequence"@, get_string(), put, a, s, g);
}
pub proof fn auto_leaf_Enabled(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "AutoType"@)
    ensures whole(auto_r(), "AutoType"@, leaf_events("Enabled"@, a, s, g))
{
    let put = |st: VEntry, v: bool| VEntry { enabled: v, ..st };
    assert(valued(auto_r(), "Enabled"@, get_boolean(), put)) by { reveal(valued); auto_names(); }
    assert("Enabled"@ != "AutoType"@) by { auto_names(); }
    local_boolean(); lemma_leaf(auto_r(), "AutoType"@, "Enabled"@, get_boolean(), put, a, s, g);
}
pub proof fn bin_leaf_Key(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Binary"@)
    ensures whole(bin_r(ks), "Binary"@, leaf_events("Key"@, a, s, g))
{
    let put = |st: Two<BinaryKey, VBin>, v: Seq<char>| Two { a: Some(BinaryKey(string_of(v))), ..st };
    assert(valued(bin_r(ks), "Key"@, get_string(), put)) by { reveal(valued); value_names(); }
    assert("Key"@ != "Binary"@) by { value_names(); }
    local_string(); lemma_leaf(bin_r(ks), "Binary"@, "Key"@, get_string(), put, a, s, g);
}
pub proof fn bin_leaf_Value(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Binary"@)
    ensures whole(bin_r(ks), "Binary"@, leaf_events("Value"@, a, s, g))
{
    let put = |st: Two<BinaryKey, VBin>, v: VBin| Two { b: Some(v), ..st };
    assert(valued(bin_r(ks), "Value"@, get_binary_value(ks), put)) by { reveal(valued); value_names(); }
    assert("Value"@ != "Binary"@) by { value_names(); }
    local_binary_value(ks); lemma_leaf(bin_r(ks), "Binary"@, "Value"@, get_binary_value(ks), put, a, s, g);
}
pub proof fn str_leaf_Key(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "String"@)
    ensures whole(str_r(ks), "String"@, leaf_events("Key"@, a, s, g))
{
    let put = |st: Two<StringKey, VStr>, v: Seq<char>| Two { a: Some(key_for(v)), ..st };
    assert(valued(str_r(ks), "Key"@, get_string(), put)) by { reveal(valued); value_names(); }
    assert("Key"@ != "String"@) by { value_names(); }
    local_string(); lemma_leaf(str_r(ks), "String"@, "Key"@, get_string(), put, a, s, g);
}
pub proof fn str_leaf_Value(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "String"@)
    ensures whole(str_r(ks), "String"@, leaf_events("Value"@, a, s, g))
{
    let put = |st: Two<StringKey, VStr>, v: VStr| Two { b: Some(v), ..st };
    assert(valued(str_r(ks), "Value"@, get_string_value(ks), put)) by { reveal(valued); value_names(); }
    assert("Value"@ != "String"@) by { value_names(); }
    local_string_value(ks); lemma_leaf(str_r(ks), "String"@, "Value"@, get_string_value(ks), put, a, s, g);
}
pub proof fn group_leaf_CustomIconUUID(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("CustomIconUUID"@, a, s, g))
{
    let put = |st: VGroup, v: Option<Seq<u8>>| VGroup { picture: v, ..st };
    assert(valued(group_r(ks), "CustomIconUUID"@, get_uuid_opt(), put)) by { reveal(valued); group_is_CustomIconUUID(ks); }
    assert("CustomIconUUID"@ != "Group"@) by { group_names(); }
    local_uuid_opt(); lemma_leaf(group_r(ks), "Group"@, "CustomIconUUID"@, get_uuid_opt(), put, a, s, g);
}
pub proof fn group_leaf_DefaultAutoTypeSequence(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("DefaultAutoTypeSequence"@, a, s, g))
{
    let put = |st: VGroup, v: Seq<char>| VGroup { sequence: v, ..st };
    assert(valued(group_r(ks), "DefaultAutoTypeSequence"@, get_string(), put)) by { reveal(valued); group_is_DefaultAutoTypeSequence(ks); }
    assert("DefaultAutoTypeSequence"@ != "Group"@) by { group_names(); }
    local_string(); lemma_leaf(group_r(ks), "Group"@, "DefaultAutoTypeSequence"@, get_string(), put, a, s, g);
}
pub proof fn group_leaf_EnableAutoType(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("EnableAutoType"@, a, s, g))
{
    let put = |st: VGroup, v: Option<bool>| VGroup { auto_type: v, ..st };
    assert(valued(group_r(ks), "EnableAutoType"@, get_bool_opt(), put)) by { reveal(valued); group_is_EnableAutoType(ks); }
    assert("EnableAutoType"@ != "Group"@) by { group_names(); }
    local_bool_opt(); lemma_leaf(group_r(ks), "Group"@, "EnableAutoType"@, get_bool_opt(), put, a, s, g);
}
pub proof fn group_leaf_EnableSearching(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("EnableSearching"@, a, s, g))
{
    let put = |st: VGroup, v: Option<bool>| VGroup { searching: v, ..st };
    assert(valued(group_r(ks), "EnableSearching"@, get_bool_opt(), put)) by { reveal(valued); group_is_EnableSearching(ks); }
    assert("EnableSearching"@ != "Group"@) by { group_names(); }
    local_bool_opt(); lemma_leaf(group_r(ks), "Group"@, "EnableSearching"@, get_bool_opt(), put, a, s, g);
}
pub proof fn group_leaf_IconID(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("IconID"@, a, s, g))
{
    let put = |st: VGroup, v: int| VGroup { symbol: v, ..st };
    assert(valued(group_r(ks), "IconID"@, get_icon(), put)) by { reveal(valued); group_is_IconID(ks); }
    assert("IconID"@ != "Group"@) by { group_names(); }
    local_icon(); lemma_leaf(group_r(ks), "Group"@, "IconID"@, get_icon(), put, a, s, g);
}
pub proof fn group_leaf_IsExpanded(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("IsExpanded"@, a, s, g))
{
    let put = |st: VGroup, v: bool| VGroup { expanded: v, ..st };
    assert(valued(group_r(ks), "IsExpanded"@, get_boolean(), put)) by { reveal(valued); group_is_IsExpanded(ks); }
    assert("IsExpanded"@ != "Group"@) by { group_names(); }
    local_boolean(); lemma_leaf(group_r(ks), "Group"@, "IsExpanded"@, get_boolean(), put, a, s, g);
}
pub proof fn group_leaf_LastTopVisibleEntry(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("LastTopVisibleEntry"@, a, s, g))
{
    let put = |st: VGroup, v: Seq<u8>| VGroup { top: v, ..st };
    assert(valued(group_r(ks), "LastTopVisibleEntry"@, get_uuid(), put)) by { reveal(valued); group_is_LastTopVisibleEntry(ks); }
    assert("LastTopVisibleEntry"@ != "Group"@) by { group_names(); }
    local_uuid(); lemma_leaf(group_r(ks), "Group"@, "LastTopVisibleEntry"@, get_uuid(), put, a, s, g);
}
pub proof fn group_leaf_Name(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("Name"@, a, s, g))
{
    let put = |st: VGroup, v: Seq<char>| VGroup { title: v, ..st };
    assert(valued(group_r(ks), "Name"@, get_string(), put)) by { reveal(valued); group_is_Name(ks); }
    assert("Name"@ != "Group"@) by { group_names(); }
    local_string(); lemma_leaf(group_r(ks), "Group"@, "Name"@, get_string(), put, a, s, g);
}
pub proof fn group_leaf_Notes(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("Notes"@, a, s, g))
{
    let put = |st: VGroup, v: Seq<char>| VGroup { notes: v, ..st };
    assert(valued(group_r(ks), "Notes"@, get_string(), put)) by { reveal(valued); group_is_Notes(ks); }
    assert("Notes"@ != "Group"@) by { group_names(); }
    local_string(); lemma_leaf(group_r(ks), "Group"@, "Notes"@, get_string(), put, a, s, g);
}
pub proof fn group_leaf_UUID(ks: Ks, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Group"@)
    ensures whole(group_r(ks), "Group"@, leaf_events("UUID"@, a, s, g))
{
    let put = |st: VGroup, v: Seq<u8>| VGroup { id: v, ..st };
    assert(valued(group_r(ks), "UUID"@, get_uuid(), put)) by { reveal(valued); group_is_UUID(ks); }
    assert("UUID"@ != "Group"@) by { group_names(); }
    local_uuid(); lemma_leaf(group_r(ks), "Group"@, "UUID"@, get_uuid(), put, a, s, g);
}
pub proof fn entry_leaf_BackgroundColor(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Entry"@)
    ensures whole(entry_r(ks, active, up), "Entry"@, leaf_events("BackgroundColor"@, a, s, g))
{
    let put = |st: VEntry, v: Option<Color>| VEntry { background: v, within: up, ..st };
    assert(valued(entry_r(ks, active, up), "BackgroundColor"@, get_color_opt(), put)) by { reveal(valued); entry_names(); }
    assert("BackgroundColor"@ != "Entry"@) by { entry_names(); }
    local_color_opt(); lemma_leaf(entry_r(ks, active, up), "Entry"@, "BackgroundColor"@, get_color_opt(), put, a, s, g);
}
pub proof fn entry_leaf_CustomIconUUID(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Entry"@)
    ensures whole(entry_r(ks, active, up), "Entry"@, leaf_events("CustomIconUUID"@, a, s, g))
{
    let put = |st: VEntry, v: Option<Seq<u8>>| VEntry { picture: v, within: up, ..st };
    assert(valued(entry_r(ks, active, up), "CustomIconUUID"@, get_uuid_opt(), put)) by { reveal(valued); entry_names(); }
    assert("CustomIconUUID"@ != "Entry"@) by { entry_names(); }
    local_uuid_opt(); lemma_leaf(entry_r(ks, active, up), "Entry"@, "CustomIconUUID"@, get_uuid_opt(), put, a, s, g);
}
pub proof fn entry_leaf_ForegroundColor(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Entry"@)
    ensures whole(entry_r(ks, active, up), "Entry"@, leaf_events("ForegroundColor"@, a, s, g))
{
    let put = |st: VEntry, v: Option<Color>| VEntry { foreground: v, within: up, ..st };
    assert(valued(entry_r(ks, active, up), "ForegroundColor"@, get_color_opt(), put)) by { reveal(valued); entry_names(); }
    assert("ForegroundColor"@ != "Entry"@) by { entry_names(); }
    local_color_opt(); lemma_leaf(entry_r(ks, active, up), "Entry"@, "ForegroundColor"@, get_color_opt(), put, a, s, g);
}
pub proof fn entry_leaf_IconID(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Entry"@)
    ensures whole(entry_r(ks, active, up), "Entry"@, leaf_events("IconID"@, a, s, g))
{
    let put = |st: VEntry, v: int| VEntry { symbol: v, within: up, ..st };
    assert(valued(entry_r(ks, active, up), "IconID"@, get_icon(), put)) by { reveal(valued); entry_names(); }
    assert("IconID"@ != "Entry"@) by { entry_names(); }
    local_icon(); lemma_leaf(entry_r(ks, active, up), "Entry"@, "IconID"@, get_icon(), put, a, s, g);
}
pub proof fn entry_leaf_OverrideURL(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Entry"@)
    ensures whole(entry_r(ks, active, up), "Entry"@, leaf_events("OverrideURL"@, a, s, g))
{
    let put = |st: VEntry, v: Seq<char>| VEntry { url: v, within: up, ..st };
    assert(valued(entry_r(ks, active, up), "OverrideURL"@, get_string(), put)) by { reveal(valued); entry_names(); }
    assert("OverrideURL"@ != "Entry"@) by { entry_names(); }
    local_string(); lemma_leaf(entry_r(ks, active, up), "Entry"@, "OverrideURL"@, get_string(), put, a, s, g);
}
pub proof fn entry_leaf_Tags(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Entry"@)
    ensures whole(entry_r(ks, active, up), "Entry"@, leaf_events("Tags"@, a, s, g))
{
    let put = |st: VEntry, v: Seq<char>| VEntry { tags: v, within: up, ..st };
    assert(valued(entry_r(ks, active, up), "Tags"@, get_string(), put)) by { reveal(valued); entry_names(); }
    assert("Tags"@ != "Entry"@) by { entry_names(); }
    local_string(); lemma_leaf(entry_r(ks, active, up), "Entry"@, "Tags"@, get_string(), put, a, s, g);
}
pub proof fn entry_leaf_UUID(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Entry"@)
    ensures whole(entry_r(ks, active, up), "Entry"@, leaf_events("UUID"@, a, s, g))
{
    let put = |st: VEntry, v: Seq<u8>| VEntry { id: v, within: up, ..st };
    assert(valued(entry_r(ks, active, up), "UUID"@, get_uuid(), put)) by { reveal(valued); entry_names(); }
    assert("UUID"@ != "Entry"@) by { entry_names(); }
    local_uuid(); lemma_leaf(entry_r(ks, active, up), "Entry"@, "UUID"@, get_uuid(), put, a, s, g);
}
pub proof fn meta_leaf_Color(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("Color"@, a, s, g))
{
    let put = |st: VData, v: Option<Color>| VData { limits: VLimits { color: v, ..st.limits }, ..st };
    assert(valued(meta_r(), "Color"@, get_color_opt(), put)) by { reveal(valued); meta_is_Color(); }
    assert("Color"@ != "Meta"@) by { meta_names(); }
    local_color_opt(); lemma_leaf(meta_r(), "Meta"@, "Color"@, get_color_opt(), put, a, s, g);
}
pub proof fn meta_leaf_DatabaseDescription(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("DatabaseDescription"@, a, s, g))
{
    let put = |st: VData, v: Seq<char>| VData { names: VNames { description: v, ..st.names }, ..st };
    assert(valued(meta_r(), "DatabaseDescription"@, get_string(), put)) by { reveal(valued); meta_is_DatabaseDescription(); }
    assert("DatabaseDescription"@ != "Meta"@) by { meta_names(); }
    local_string(); lemma_leaf(meta_r(), "Meta"@, "DatabaseDescription"@, get_string(), put, a, s, g);
}
pub proof fn meta_leaf_DatabaseDescriptionChanged(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("DatabaseDescriptionChanged"@, a, s, g))
{
    let put = |st: VData, v: DateTime<Utc>| VData { names: VNames { description_changed: v, ..st.names }, ..st };
    assert(valued(meta_r(), "DatabaseDescriptionChanged"@, get_datetime(), put)) by { reveal(valued); meta_is_DatabaseDescriptionChanged(); }
    assert("DatabaseDescriptionChanged"@ != "Meta"@) by { meta_names(); }
    local_datetime(); lemma_leaf(meta_r(), "Meta"@, "DatabaseDescriptionChanged"@, get_datetime(), put, a, s, g);
}
pub proof fn meta_leaf_DatabaseName(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("DatabaseName"@, a, s, g))
{
    let put = |st: VData, v: Seq<char>| VData { names: VNames { name: v, ..st.names }, ..st };
    assert(valued(meta_r(), "DatabaseName"@, get_string(), put)) by { reveal(valued); meta_is_DatabaseName(); }
    assert("DatabaseName"@ != "Meta"@) by { meta_names(); }
    local_string(); lemma_leaf(meta_r(), "Meta"@, "DatabaseName"@, get_string(), put, a, s, g);
}
pub proof fn meta_leaf_DatabaseNameChanged(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("DatabaseNameChanged"@, a, s, g))
{
    let put = |st: VData, v: DateTime<Utc>| VData { names: VNames { name_changed: v, ..st.names }, ..st };
    assert(valued(meta_r(), "DatabaseNameChanged"@, get_datetime(), put)) by { reveal(valued); meta_is_DatabaseNameChanged(); }
    assert("DatabaseNameChanged"@ != "Meta"@) by { meta_names(); }
    local_datetime(); lemma_leaf(meta_r(), "Meta"@, "DatabaseNameChanged"@, get_datetime(), put, a, s, g);
}
pub proof fn meta_leaf_DefaultUserName(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("DefaultUserName"@, a, s, g))
{
    let put = |st: VData, v: Seq<char>| VData { names: VNames { def_username: v, ..st.names }, ..st };
    assert(valued(meta_r(), "DefaultUserName"@, get_string(), put)) by { reveal(valued); meta_is_DefaultUserName(); }
    assert("DefaultUserName"@ != "Meta"@) by { meta_names(); }
    local_string(); lemma_leaf(meta_r(), "Meta"@, "DefaultUserName"@, get_string(), put, a, s, g);
}
pub proof fn meta_leaf_DefaultUserNameChanged(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("DefaultUserNameChanged"@, a, s, g))
{
    let put = |st: VData, v: DateTime<Utc>| VData { names: VNames { def_username_changed: v, ..st.names }, ..st };
    assert(valued(meta_r(), "DefaultUserNameChanged"@, get_datetime(), put)) by { reveal(valued); meta_is_DefaultUserNameChanged(); }
    assert("DefaultUserNameChanged"@ != "Meta"@) by { meta_names(); }
    local_datetime(); lemma_leaf(meta_r(), "Meta"@, "DefaultUserNameChanged"@, get_datetime(), put, a, s, g);
}
pub proof fn meta_leaf_EntryTemplatesGroup(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("EntryTemplatesGroup"@, a, s, g))
{
    let put = |st: VData, v: Seq<u8>| VData { places: VPlaces { entry_templates_group_uuid: v, ..st.places }, ..st };
    assert(valued(meta_r(), "EntryTemplatesGroup"@, get_uuid(), put)) by { reveal(valued); meta_is_EntryTemplatesGroup(); }
    assert("EntryTemplatesGroup"@ != "Meta"@) by { meta_names(); }
    local_uuid(); lemma_leaf(meta_r(), "Meta"@, "EntryTemplatesGroup"@, get_uuid(), put, a, s, g);
}
pub proof fn meta_leaf_EntryTemplatesGroupChanged(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("EntryTemplatesGroupChanged"@, a, s, g))
{
    let put = |st: VData, v: DateTime<Utc>| VData { places: VPlaces { entry_templates_group_changed: v, ..st.places }, ..st };
    assert(valued(meta_r(), "EntryTemplatesGroupChanged"@, get_datetime(), put)) by { reveal(valued); meta_is_EntryTemplatesGroupChanged(); }
    assert("EntryTemplatesGroupChanged"@ != "Meta"@) by { meta_names(); }
    local_datetime(); lemma_leaf(meta_r(), "Meta"@, "EntryTemplatesGroupChanged"@, get_datetime(), put, a, s, g);
}
pub proof fn meta_leaf_Generator(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("Generator"@, a, s, g))
{
    let put = |st: VData, v: Seq<char>| VData { names: VNames { generator: v, ..st.names }, ..st };
    assert(valued(meta_r(), "Generator"@, get_string(), put)) by { reveal(valued); meta_is_Generator(); }
    assert("Generator"@ != "Meta"@) by { meta_names(); }
    local_string(); lemma_leaf(meta_r(), "Meta"@, "Generator"@, get_string(), put, a, s, g);
}
pub proof fn meta_leaf_HeaderHash(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("HeaderHash"@, a, s, g))
{
    let put = |st: VData, v: Seq<u8>| VData { tables: VTables { header_hash: Some(v), ..st.tables }, ..st };
    assert(valued(meta_r(), "HeaderHash"@, get_bin(), put)) by { reveal(valued); meta_is_HeaderHash(); }
    assert("HeaderHash"@ != "Meta"@) by { meta_names(); }
    local_bin(); lemma_leaf(meta_r(), "Meta"@, "HeaderHash"@, get_bin(), put, a, s, g);
}
pub proof fn meta_leaf_HistoryMaxItems(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("HistoryMaxItems"@, a, s, g))
{
    let put = |st: VData, v: i32| VData { limits: VLimits { history_max_items: v, ..st.limits }, ..st };
    assert(valued(meta_r(), "HistoryMaxItems"@, get_int32(), put)) by { reveal(valued); meta_is_HistoryMaxItems(); }
    assert("HistoryMaxItems"@ != "Meta"@) by { meta_names(); }
    local_int32(); lemma_leaf(meta_r(), "Meta"@, "HistoryMaxItems"@, get_int32(), put, a, s, g);
}
pub proof fn meta_leaf_HistoryMaxSize(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("HistoryMaxSize"@, a, s, g))
{
    let put = |st: VData, v: i32| VData { limits: VLimits { history_max_size: v, ..st.limits }, ..st };
    assert(valued(meta_r(), "HistoryMaxSize"@, get_int32(), put)) by { reveal(valued); meta_is_HistoryMaxSize(); }
    assert("HistoryMaxSize"@ != "Meta"@) by { meta_names(); }
    local_int32(); lemma_leaf(meta_r(), "Meta"@, "HistoryMaxSize"@, get_int32(), put, a, s, g);
}
pub proof fn meta_leaf_LastSelectedGroup(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("LastSelectedGroup"@, a, s, g))
{
    let put = |st: VData, v: Seq<u8>| VData { places: VPlaces { last_selected_group: v, ..st.places }, ..st };
    assert(valued(meta_r(), "LastSelectedGroup"@, get_uuid(), put)) by { reveal(valued); meta_is_LastSelectedGroup(); }
    assert("LastSelectedGroup"@ != "Meta"@) by { meta_names(); }
    local_uuid(); lemma_leaf(meta_r(), "Meta"@, "LastSelectedGroup"@, get_uuid(), put, a, s, g);
}
pub proof fn meta_leaf_LastTopVisibleGroup(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("LastTopVisibleGroup"@, a, s, g))
{
    let put = |st: VData, v: Seq<u8>| VData { places: VPlaces { last_top_visible_group: v, ..st.places }, ..st };
    assert(valued(meta_r(), "LastTopVisibleGroup"@, get_uuid(), put)) by { reveal(valued); meta_is_LastTopVisibleGroup(); }
    assert("LastTopVisibleGroup"@ != "Meta"@) by { meta_names(); }
    local_uuid(); lemma_leaf(meta_r(), "Meta"@, "LastTopVisibleGroup"@, get_uuid(), put, a, s, g);
}
pub proof fn meta_leaf_MaintenanceHistoryDays(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("MaintenanceHistoryDays"@, a, s, g))
{
    let put = |st: VData, v: i32| VData { limits: VLimits { maintenance_history_days: v, ..st.limits }, ..st };
    assert(valued(meta_r(), "MaintenanceHistoryDays"@, get_int32(), put)) by { reveal(valued); meta_is_MaintenanceHistoryDays(); }
    assert("MaintenanceHistoryDays"@ != "Meta"@) by { meta_names(); }
    local_int32(); lemma_leaf(meta_r(), "Meta"@, "MaintenanceHistoryDays"@, get_int32(), put, a, s, g);
}
pub proof fn meta_leaf_MasterKeyChangeForce(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("MasterKeyChangeForce"@, a, s, g))
{
    let put = |st: VData, v: i32| VData { limits: VLimits { master_key_change_force: v, ..st.limits }, ..st };
    assert(valued(meta_r(), "MasterKeyChangeForce"@, get_int32(), put)) by { reveal(valued); meta_is_MasterKeyChangeForce(); }
    assert("MasterKeyChangeForce"@ != "Meta"@) by { meta_names(); }
    local_int32(); lemma_leaf(meta_r(), "Meta"@, "MasterKeyChangeForce"@, get_int32(), put, a, s, g);
}
pub proof fn meta_leaf_MasterKeyChangeRec(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("MasterKeyChangeRec"@, a, s, g))
{
    let put = |st: VData, v: i32| VData { limits: VLimits { master_key_change_rec: v, ..st.limits }, ..st };
    assert(valued(meta_r(), "MasterKeyChangeRec"@, get_int32(), put)) by { reveal(valued); meta_is_MasterKeyChangeRec(); }
    assert("MasterKeyChangeRec"@ != "Meta"@) by { meta_names(); }
    local_int32(); lemma_leaf(meta_r(), "Meta"@, "MasterKeyChangeRec"@, get_int32(), put, a, s, g);
}
pub proof fn meta_leaf_MasterKeyChanged(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("MasterKeyChanged"@, a, s, g))
{
    let put = |st: VData, v: DateTime<Utc>| VData { limits: VLimits { master_key_changed: v, ..st.limits }, ..st };
    assert(valued(meta_r(), "MasterKeyChanged"@, get_datetime(), put)) by { reveal(valued); meta_is_MasterKeyChanged(); }
    assert("MasterKeyChanged"@ != "Meta"@) by { meta_names(); }
    local_datetime(); lemma_leaf(meta_r(), "Meta"@, "MasterKeyChanged"@, get_datetime(), put, a, s, g);
}
pub proof fn meta_leaf_RecycleBinChanged(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("RecycleBinChanged"@, a, s, g))
{
    let put = |st: VData, v: DateTime<Utc>| VData { places: VPlaces { recycle_bin_changed: v, ..st.places }, ..st };
    assert(valued(meta_r(), "RecycleBinChanged"@, get_datetime(), put)) by { reveal(valued); meta_is_RecycleBinChanged(); }
    assert("RecycleBinChanged"@ != "Meta"@) by { meta_names(); }
    local_datetime(); lemma_leaf(meta_r(), "Meta"@, "RecycleBinChanged"@, get_datetime(), put, a, s, g);
}
pub proof fn meta_leaf_RecycleBinEnabled(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("RecycleBinEnabled"@, a, s, g))
{
    let put = |st: VData, v: bool| VData { places: VPlaces { recycle_bin_enabled: v, ..st.places }, ..st };
    assert(valued(meta_r(), "RecycleBinEnabled"@, get_boolean(), put)) by { reveal(valued); meta_is_RecycleBinEnabled(); }
    assert("RecycleBinEnabled"@ != "Meta"@) by { meta_names(); }
    local_boolean(); lemma_leaf(meta_r(), "Meta"@, "RecycleBinEnabled"@, get_boolean(), put, a, s, g);
}
pub proof fn meta_leaf_RecycleBinUUID(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Meta"@)
    ensures whole(meta_r(), "Meta"@, leaf_events("RecycleBinUUID"@, a, s, g))
{
    let put = |st: VData, v: Seq<u8>| VData { places: VPlaces { recycle_bin_uuid: v, ..st.places }, ..st };
    assert(valued(meta_r(), "RecycleBinUUID"@, get_uuid(), put)) by { reveal(valued); meta_is_RecycleBinUUID(); }
    assert("RecycleBinUUID"@ != "Meta"@) by { meta_names(); }
    local_uuid(); lemma_leaf(meta_r(), "Meta"@, "RecycleBinUUID"@, get_uuid(), put, a, s, g);
}
} // verus!
} // order_leaves
pub mod order_tree { // format/order_tree.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
use crate::format::roundtrip_parts::*;
use crate::format::roundtrip_values::*;
use crate::format::roundtrip_entry::*;
use crate::format::roundtrip_group::*;
use crate::format::roundtrip_data::*;
use crate::format::roundtrip_file::*;
use crate::format::order::*;
use crate::format::order_deep::*;
use crate::format::order_parts::*;
use crate::format::order_group::*;
use crate::format::order_entry::*;
use crate::format::order_meta::*;
use crate::format::order_file::*;
use crate::vx::string_of;

verus! {

/// C18: elements alike in their places: what is inside them may differ in order.
pub proof fn lemma_alike_section<S>(step: Step<S>, end: Seq<char>, xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: S, pos: int)
    requires all_whole(step, end, xs), all_whole(step, end, ys), xs.len() == ys.len(), forall|i: int| 0 <= i < xs.len() ==> alike(step, #[trigger] xs[i], ys[i])
    ensures run(step, end, cat(xs) + r, st, pos) == run(step, end, cat(ys) + r, st, pos)
{ lemma_fold(step, end, xs, r, st, pos); lemma_fold(step, end, ys, r, st, pos); lemma_alike(step, xs, ys, st, pos); }

pub open spec fn entry_start_Times(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry) -> VTimes { |st: VEntry| st.times }
pub open spec fn entry_join_Times(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry, VTimes) -> Option<VEntry> { |st: VEntry, t: VTimes| Some(VEntry { within: up, times: t, ..st }) }
pub proof fn entry_nests_Times(ks: Ks, active: bool, up: Seq<u8>)
    ensures nests(entry_r(ks, active, up), "Times"@, times_r(), entry_start_Times(ks, active, up), entry_join_Times(ks, active, up))
{
    reveal(nests); entry_names(); times_names();
    let step = entry_r(ks, active, up); let inner = times_r(); let start = entry_start_Times(ks, active, up); let join = entry_join_Times(ks, active, up);
    assert forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Times"@, a, ev, pos)]
        step(st, "Times"@, a, ev, pos) == (match run(inner, "Times"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_times_run(ev, st.times, pos);
    }
}
/// C18
pub proof fn entry_deeper_Times(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(times_r(), "Times"@, ys), idle(h, "Times"@), idle(g, "Entry"@), all_whole(times_r(), "Times"@, zs), idle(k, "Times"@), idle(f, "Entry"@), same_parts(ys, zs, times_part()),
    ensures
        whole(entry_r(ks, active, up), "Entry"@, node_events("Times"@, a, h, ys, g)), whole(entry_r(ks, active, up), "Entry"@, node_events("Times"@, b, k, zs, f)),
        alike(entry_r(ks, active, up), node_events("Times"@, a, h, ys, g), node_events("Times"@, b, k, zs, f)),
{
    let step = entry_r(ks, active, up); let inner = times_r(); let start = entry_start_Times(ks, active, up); let join = entry_join_Times(ks, active, up);
    entry_nests_Times(ks, active, up); lawful_times();
    lemma_nested(step, "Entry"@, "Times"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Entry"@, "Times"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Entry"@, "Times"@, inner, (|s: VTimes| true), times_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn entry_start_AutoType(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry) -> VEntry { |st: VEntry| VEntry { within: up, ..st } }
pub open spec fn entry_join_AutoType(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry, VEntry) -> Option<VEntry> { |st: VEntry, t: VEntry| Some(t) }
pub proof fn entry_nests_AutoType(ks: Ks, active: bool, up: Seq<u8>)
    ensures nests(entry_r(ks, active, up), "AutoType"@, auto_r(), entry_start_AutoType(ks, active, up), entry_join_AutoType(ks, active, up))
{
    reveal(nests); entry_names(); auto_names();
    let step = entry_r(ks, active, up); let inner = auto_r(); let start = entry_start_AutoType(ks, active, up); let join = entry_join_AutoType(ks, active, up);
    assert forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "AutoType"@, a, ev, pos)]
        step(st, "AutoType"@, a, ev, pos) == (match run(inner, "AutoType"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_auto_run(ev, VEntry { within: up, ..st }, pos);
    }
}
/// C18
pub proof fn entry_deeper_AutoType(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(auto_r(), "AutoType"@, ys), idle(h, "AutoType"@), idle(g, "Entry"@), all_whole(auto_r(), "AutoType"@, zs), idle(k, "AutoType"@), idle(f, "Entry"@), same_parts(ys, zs, auto_part()),
    ensures
        whole(entry_r(ks, active, up), "Entry"@, node_events("AutoType"@, a, h, ys, g)), whole(entry_r(ks, active, up), "Entry"@, node_events("AutoType"@, b, k, zs, f)),
        alike(entry_r(ks, active, up), node_events("AutoType"@, a, h, ys, g), node_events("AutoType"@, b, k, zs, f)),
{
    let step = entry_r(ks, active, up); let inner = auto_r(); let start = entry_start_AutoType(ks, active, up); let join = entry_join_AutoType(ks, active, up);
    entry_nests_AutoType(ks, active, up); lawful_auto();
    lemma_nested(step, "Entry"@, "AutoType"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Entry"@, "AutoType"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Entry"@, "AutoType"@, inner, (|s: VEntry| true), auto_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn entry_start_Binary(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry) -> Two<BinaryKey, VBin> { |st: VEntry| none() }
pub open spec fn entry_join_Binary(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry, Two<BinaryKey, VBin>) -> Option<VEntry> { |st: VEntry, t: Two<BinaryKey, VBin>| match both(t) { Some((k, v)) => Some(VEntry { within: up, binaries: st.binaries.insert(k, v), ..st }), None => None } }
pub proof fn entry_nests_Binary(ks: Ks, active: bool, up: Seq<u8>)
    ensures nests(entry_r(ks, active, up), "Binary"@, bin_r(ks), entry_start_Binary(ks, active, up), entry_join_Binary(ks, active, up))
{
    reveal(nests); entry_names(); value_names();
    let step = entry_r(ks, active, up); let inner = bin_r(ks); let start = entry_start_Binary(ks, active, up); let join = entry_join_Binary(ks, active, up);
    assert forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Binary"@, a, ev, pos)]
        step(st, "Binary"@, a, ev, pos) == (match run(inner, "Binary"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_bin_run(ev, none(), ks, pos);
    }
}
/// C18
pub proof fn entry_deeper_Binary(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(bin_r(ks), "Binary"@, ys), idle(h, "Binary"@), idle(g, "Entry"@), all_whole(bin_r(ks), "Binary"@, zs), idle(k, "Binary"@), idle(f, "Entry"@), same_parts(ys, zs, bin_part()),
    ensures
        whole(entry_r(ks, active, up), "Entry"@, node_events("Binary"@, a, h, ys, g)), whole(entry_r(ks, active, up), "Entry"@, node_events("Binary"@, b, k, zs, f)),
        alike(entry_r(ks, active, up), node_events("Binary"@, a, h, ys, g), node_events("Binary"@, b, k, zs, f)),
{
    let step = entry_r(ks, active, up); let inner = bin_r(ks); let start = entry_start_Binary(ks, active, up); let join = entry_join_Binary(ks, active, up);
    entry_nests_Binary(ks, active, up); lawful_bin(ks);
    lemma_nested(step, "Entry"@, "Binary"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Entry"@, "Binary"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Entry"@, "Binary"@, inner, (|s: Two<BinaryKey, VBin>| true), bin_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn entry_start_String(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry) -> Two<StringKey, VStr> { |st: VEntry| none() }
pub open spec fn entry_join_String(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry, Two<StringKey, VStr>) -> Option<VEntry> { |st: VEntry, t: Two<StringKey, VStr>| match both(t) { Some((k, v)) => Some(VEntry { within: up, strings: st.strings.insert(k, v), ..st }), None => None } }
pub proof fn entry_nests_String(ks: Ks, active: bool, up: Seq<u8>)
    ensures nests(entry_r(ks, active, up), "String"@, str_r(ks), entry_start_String(ks, active, up), entry_join_String(ks, active, up))
{
    reveal(nests); entry_names(); value_names();
    let step = entry_r(ks, active, up); let inner = str_r(ks); let start = entry_start_String(ks, active, up); let join = entry_join_String(ks, active, up);
    assert forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "String"@, a, ev, pos)]
        step(st, "String"@, a, ev, pos) == (match run(inner, "String"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_str_run(ev, none(), ks, pos);
    }
}
/// C18
pub proof fn entry_deeper_String(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(str_r(ks), "String"@, ys), idle(h, "String"@), idle(g, "Entry"@), all_whole(str_r(ks), "String"@, zs), idle(k, "String"@), idle(f, "Entry"@), same_parts(ys, zs, str_part()),
    ensures
        whole(entry_r(ks, active, up), "Entry"@, node_events("String"@, a, h, ys, g)), whole(entry_r(ks, active, up), "Entry"@, node_events("String"@, b, k, zs, f)),
        alike(entry_r(ks, active, up), node_events("String"@, a, h, ys, g), node_events("String"@, b, k, zs, f)),
{
    let step = entry_r(ks, active, up); let inner = str_r(ks); let start = entry_start_String(ks, active, up); let join = entry_join_String(ks, active, up);
    entry_nests_String(ks, active, up); lawful_str(ks);
    lemma_nested(step, "Entry"@, "String"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Entry"@, "String"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Entry"@, "String"@, inner, (|s: Two<StringKey, VStr>| true), str_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn entry_start_History(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry) -> Seq<VEntry> { |st: VEntry| seq![] }
pub open spec fn entry_join_History(ks: Ks, active: bool, up: Seq<u8>) -> spec_fn(VEntry, Seq<VEntry>) -> Option<VEntry> { |st: VEntry, t: Seq<VEntry>| Some(VEntry { within: up, history: st.history + t, ..st }) }
pub proof fn entry_nests_History(ks: Ks, active: bool, up: Seq<u8>)
    requires active
    ensures nests(entry_r(ks, active, up), "History"@, past_r(ks, up), entry_start_History(ks, active, up), entry_join_History(ks, active, up))
{
    reveal(nests); entry_names(); entry_names();
    let step = entry_r(ks, active, up); let inner = past_r(ks, up); let start = entry_start_History(ks, active, up); let join = entry_join_History(ks, active, up);
    assert forall|st: VEntry, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "History"@, a, ev, pos)]
        step(st, "History"@, a, ev, pos) == (match run(inner, "History"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_past_run(ev, seq![], ks, up, pos);
    }
}
/// C18
pub proof fn entry_deeper_History(ks: Ks, active: bool, up: Seq<u8>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires active, all_whole(past_r(ks, up), "History"@, ys), idle(h, "History"@), idle(g, "Entry"@), all_whole(past_r(ks, up), "History"@, zs), idle(k, "History"@), idle(f, "Entry"@), same_parts(ys, zs, past_part()),
    ensures
        whole(entry_r(ks, active, up), "Entry"@, node_events("History"@, a, h, ys, g)), whole(entry_r(ks, active, up), "Entry"@, node_events("History"@, b, k, zs, f)),
        alike(entry_r(ks, active, up), node_events("History"@, a, h, ys, g), node_events("History"@, b, k, zs, f)),
{
    let step = entry_r(ks, active, up); let inner = past_r(ks, up); let start = entry_start_History(ks, active, up); let join = entry_join_History(ks, active, up);
    entry_nests_History(ks, active, up); lawful_past(ks, up);
    lemma_nested(step, "Entry"@, "History"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Entry"@, "History"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Entry"@, "History"@, inner, (|s: Seq<VEntry>| true), past_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn past_start_Entry(ks: Ks, up: Seq<u8>) -> spec_fn(Seq<VEntry>) -> VEntry { |st: Seq<VEntry>| fresh_entry() }
pub open spec fn past_join_Entry(ks: Ks, up: Seq<u8>) -> spec_fn(Seq<VEntry>, VEntry) -> Option<Seq<VEntry>> { |st: Seq<VEntry>, t: VEntry| Some(st.push(t)) }
pub proof fn past_nests_Entry(ks: Ks, up: Seq<u8>)
    requires up == nil_uuid()@
    ensures nests(past_r(ks, up), "Entry"@, entry_r(ks, false, up), past_start_Entry(ks, up), past_join_Entry(ks, up))
{
    reveal(nests); entry_names(); entry_names();
    let step = past_r(ks, up); let inner = entry_r(ks, false, up); let start = past_start_Entry(ks, up); let join = past_join_Entry(ks, up);
    assert forall|st: Seq<VEntry>, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Entry"@, a, ev, pos)]
        step(st, "Entry"@, a, ev, pos) == (match run(inner, "Entry"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_entry_run(ev, fresh_entry(), ks, false, up, pos);
    }
}
/// C18
pub proof fn past_deeper_Entry(ks: Ks, up: Seq<u8>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires up == nil_uuid()@, all_whole(entry_r(ks, false, up), "Entry"@, ys), idle(h, "Entry"@), idle(g, "History"@), all_whole(entry_r(ks, false, up), "Entry"@, zs), idle(k, "Entry"@), idle(f, "History"@), same_parts(ys, zs, entry_part()),
    ensures
        whole(past_r(ks, up), "History"@, node_events("Entry"@, a, h, ys, g)), whole(past_r(ks, up), "History"@, node_events("Entry"@, b, k, zs, f)),
        alike(past_r(ks, up), node_events("Entry"@, a, h, ys, g), node_events("Entry"@, b, k, zs, f)),
{
    let step = past_r(ks, up); let inner = entry_r(ks, false, up); let start = past_start_Entry(ks, up); let join = past_join_Entry(ks, up);
    past_nests_Entry(ks, up); lawful_entry(ks, false, up);
    lemma_nested(step, "History"@, "Entry"@, inner, start, join, a, h, ys, g); lemma_nested(step, "History"@, "Entry"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "History"@, "Entry"@, inner, entry_inv(ks, false, up), entry_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn group_start_Times(ks: Ks) -> spec_fn(VGroup) -> VTimes { |st: VGroup| st.times }
pub open spec fn group_join_Times(ks: Ks) -> spec_fn(VGroup, VTimes) -> Option<VGroup> { |st: VGroup, t: VTimes| Some(VGroup { times: t, ..st }) }
pub proof fn group_nests_Times(ks: Ks)
    ensures nests(group_r(ks), "Times"@, times_r(), group_start_Times(ks), group_join_Times(ks))
{
    reveal(nests); group_is_Times(ks);group_names(); times_names();
    let step = group_r(ks); let inner = times_r(); let start = group_start_Times(ks); let join = group_join_Times(ks);
    assert forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Times"@, a, ev, pos)]
        step(st, "Times"@, a, ev, pos) == (match run(inner, "Times"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_times_run(ev, st.times, pos);
    }
}
/// C18
pub proof fn group_deeper_Times(ks: Ks, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(times_r(), "Times"@, ys), idle(h, "Times"@), idle(g, "Group"@), all_whole(times_r(), "Times"@, zs), idle(k, "Times"@), idle(f, "Group"@), same_parts(ys, zs, times_part()),
    ensures
        whole(group_r(ks), "Group"@, node_events("Times"@, a, h, ys, g)), whole(group_r(ks), "Group"@, node_events("Times"@, b, k, zs, f)),
        alike(group_r(ks), node_events("Times"@, a, h, ys, g), node_events("Times"@, b, k, zs, f)),
{
    let step = group_r(ks); let inner = times_r(); let start = group_start_Times(ks); let join = group_join_Times(ks);
    group_nests_Times(ks); lawful_times();
    lemma_nested(step, "Group"@, "Times"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Group"@, "Times"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Group"@, "Times"@, inner, (|s: VTimes| true), times_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn group_start_Entry(ks: Ks) -> spec_fn(VGroup) -> VEntry { |st: VGroup| fresh_entry() }
pub open spec fn group_join_Entry(ks: Ks) -> spec_fn(VGroup, VEntry) -> Option<VGroup> { |st: VGroup, t: VEntry| Some(VGroup { entries: st.entries.push(t), ..st }) }
pub proof fn group_nests_Entry(ks: Ks)
    ensures nests(group_r(ks), "Entry"@, entry_r(ks, true, nil_uuid()@), group_start_Entry(ks), group_join_Entry(ks))
{
    reveal(nests); group_is_Entry(ks);group_names(); entry_names();
    let step = group_r(ks); let inner = entry_r(ks, true, nil_uuid()@); let start = group_start_Entry(ks); let join = group_join_Entry(ks);
    assert forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Entry"@, a, ev, pos)]
        step(st, "Entry"@, a, ev, pos) == (match run(inner, "Entry"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_entry_run(ev, fresh_entry(), ks, true, nil_uuid()@, pos);
    }
}
/// C18
pub proof fn group_deeper_Entry(ks: Ks, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(entry_r(ks, true, nil_uuid()@), "Entry"@, ys), idle(h, "Entry"@), idle(g, "Group"@), all_whole(entry_r(ks, true, nil_uuid()@), "Entry"@, zs), idle(k, "Entry"@), idle(f, "Group"@), same_parts(ys, zs, entry_part()),
    ensures
        whole(group_r(ks), "Group"@, node_events("Entry"@, a, h, ys, g)), whole(group_r(ks), "Group"@, node_events("Entry"@, b, k, zs, f)),
        alike(group_r(ks), node_events("Entry"@, a, h, ys, g), node_events("Entry"@, b, k, zs, f)),
{
    let step = group_r(ks); let inner = entry_r(ks, true, nil_uuid()@); let start = group_start_Entry(ks); let join = group_join_Entry(ks);
    group_nests_Entry(ks); lawful_entry(ks, true, nil_uuid()@);
    lemma_nested(step, "Group"@, "Entry"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Group"@, "Entry"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Group"@, "Entry"@, inner, entry_inv(ks, true, nil_uuid()@), entry_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn group_start_Group(ks: Ks) -> spec_fn(VGroup) -> VGroup { |st: VGroup| fresh_group(nil_uuid()@) }
pub open spec fn group_join_Group(ks: Ks) -> spec_fn(VGroup, VGroup) -> Option<VGroup> { |st: VGroup, t: VGroup| Some(VGroup { groups: st.groups.push(adopted(t)), ..st }) }
pub proof fn group_nests_Group(ks: Ks)
    ensures nests(group_r(ks), "Group"@, group_r(ks), group_start_Group(ks), group_join_Group(ks))
{
    reveal(nests); group_is_Group(ks);group_names(); group_names();
    let step = group_r(ks); let inner = group_r(ks); let start = group_start_Group(ks); let join = group_join_Group(ks);
    assert forall|st: VGroup, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Group"@, a, ev, pos)]
        step(st, "Group"@, a, ev, pos) == (match run(inner, "Group"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_group_run(ev, fresh_group(nil_uuid()@), ks, pos);
    }
}
/// C18
pub proof fn group_deeper_Group(ks: Ks, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(group_r(ks), "Group"@, ys), idle(h, "Group"@), idle(g, "Group"@), all_whole(group_r(ks), "Group"@, zs), idle(k, "Group"@), idle(f, "Group"@), same_parts(ys, zs, group_part()),
    ensures
        whole(group_r(ks), "Group"@, node_events("Group"@, a, h, ys, g)), whole(group_r(ks), "Group"@, node_events("Group"@, b, k, zs, f)),
        alike(group_r(ks), node_events("Group"@, a, h, ys, g), node_events("Group"@, b, k, zs, f)),
{
    let step = group_r(ks); let inner = group_r(ks); let start = group_start_Group(ks); let join = group_join_Group(ks);
    group_nests_Group(ks); lawful_group(ks);
    lemma_nested(step, "Group"@, "Group"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Group"@, "Group"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Group"@, "Group"@, inner, group_inv(ks), group_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn root_start_Group(ks: Ks) -> spec_fn(Option<VGroup>) -> VGroup { |st: Option<VGroup>| fresh_group(nil_uuid()@) }
pub open spec fn root_join_Group(ks: Ks) -> spec_fn(Option<VGroup>, VGroup) -> Option<Option<VGroup>> { |st: Option<VGroup>, t: VGroup| Some(Some(adopted(t))) }
pub proof fn root_nests_Group(ks: Ks)
    ensures nests(root_r(ks), "Group"@, group_r(ks), root_start_Group(ks), root_join_Group(ks))
{
    reveal(nests); group_names(); group_names();
    let step = root_r(ks); let inner = group_r(ks); let start = root_start_Group(ks); let join = root_join_Group(ks);
    assert forall|st: Option<VGroup>, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Group"@, a, ev, pos)]
        step(st, "Group"@, a, ev, pos) == (match run(inner, "Group"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_group_run(ev, fresh_group(nil_uuid()@), ks, pos);
    }
}
/// C18
pub proof fn root_deeper_Group(ks: Ks, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(group_r(ks), "Group"@, ys), idle(h, "Group"@), idle(g, "Root"@), all_whole(group_r(ks), "Group"@, zs), idle(k, "Group"@), idle(f, "Root"@), same_parts(ys, zs, group_part()),
    ensures
        whole(root_r(ks), "Root"@, node_events("Group"@, a, h, ys, g)), whole(root_r(ks), "Root"@, node_events("Group"@, b, k, zs, f)),
        alike(root_r(ks), node_events("Group"@, a, h, ys, g), node_events("Group"@, b, k, zs, f)),
{
    let step = root_r(ks); let inner = group_r(ks); let start = root_start_Group(ks); let join = root_join_Group(ks);
    root_nests_Group(ks); lawful_group(ks);
    lemma_nested(step, "Root"@, "Group"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Root"@, "Group"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Root"@, "Group"@, inner, group_inv(ks), group_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn items_start_Item() -> spec_fn(Map<String, Seq<char>>) -> Two<Seq<char>, Seq<char>> { |st: Map<String, Seq<char>>| none() }
pub open spec fn items_join_Item() -> spec_fn(Map<String, Seq<char>>, Two<Seq<char>, Seq<char>>) -> Option<Map<String, Seq<char>>> { |st: Map<String, Seq<char>>, t: Two<Seq<char>, Seq<char>>| match both(t) { Some((k, v)) => Some(st.insert(string_of(k), v)), None => None } }
pub proof fn items_nests_Item()
    ensures nests(items_r(), "Item"@, item_r(), items_start_Item(), items_join_Item())
{
    reveal(nests); table_names(); item_names();
    let step = items_r(); let inner = item_r(); let start = items_start_Item(); let join = items_join_Item();
    assert forall|st: Map<String, Seq<char>>, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Item"@, a, ev, pos)]
        step(st, "Item"@, a, ev, pos) == (match run(inner, "Item"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_item_run(ev, none(), pos);
    }
}
/// C18
pub proof fn items_deeper_Item(a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(item_r(), "Item"@, ys), idle(h, "Item"@), idle(g, "CustomData"@), all_whole(item_r(), "Item"@, zs), idle(k, "Item"@), idle(f, "CustomData"@), same_parts(ys, zs, item_part()),
    ensures
        whole(items_r(), "CustomData"@, node_events("Item"@, a, h, ys, g)), whole(items_r(), "CustomData"@, node_events("Item"@, b, k, zs, f)),
        alike(items_r(), node_events("Item"@, a, h, ys, g), node_events("Item"@, b, k, zs, f)),
{
    let step = items_r(); let inner = item_r(); let start = items_start_Item(); let join = items_join_Item();
    items_nests_Item(); lawful_item();
    lemma_nested(step, "CustomData"@, "Item"@, inner, start, join, a, h, ys, g); lemma_nested(step, "CustomData"@, "Item"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "CustomData"@, "Item"@, inner, (|s: Two<Seq<char>, Seq<char>>| true), item_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn pictures_start_Icon() -> spec_fn(Map<CustomIconUuid, Seq<u8>>) -> Two<Seq<u8>, Seq<u8>> { |st: Map<CustomIconUuid, Seq<u8>>| none() }
pub open spec fn pictures_join_Icon() -> spec_fn(Map<CustomIconUuid, Seq<u8>>, Two<Seq<u8>, Seq<u8>>) -> Option<Map<CustomIconUuid, Seq<u8>>> { |st: Map<CustomIconUuid, Seq<u8>>, t: Two<Seq<u8>, Seq<u8>>| match both(t) { Some((k, v)) => Some(st.insert(CustomIconUuid(crate::vx::uuid::uuid_for(k)), v)), None => None } }
pub proof fn pictures_nests_Icon()
    ensures nests(pictures_r(), "Icon"@, picture_r(), pictures_start_Icon(), pictures_join_Icon())
{
    reveal(nests); table_names(); picture_names();
    let step = pictures_r(); let inner = picture_r(); let start = pictures_start_Icon(); let join = pictures_join_Icon();
    assert forall|st: Map<CustomIconUuid, Seq<u8>>, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Icon"@, a, ev, pos)]
        step(st, "Icon"@, a, ev, pos) == (match run(inner, "Icon"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_picture_run(ev, none(), pos);
    }
}
/// C18
pub proof fn pictures_deeper_Icon(a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(picture_r(), "Icon"@, ys), idle(h, "Icon"@), idle(g, "CustomIcons"@), all_whole(picture_r(), "Icon"@, zs), idle(k, "Icon"@), idle(f, "CustomIcons"@), same_parts(ys, zs, picture_part()),
    ensures
        whole(pictures_r(), "CustomIcons"@, node_events("Icon"@, a, h, ys, g)), whole(pictures_r(), "CustomIcons"@, node_events("Icon"@, b, k, zs, f)),
        alike(pictures_r(), node_events("Icon"@, a, h, ys, g), node_events("Icon"@, b, k, zs, f)),
{
    let step = pictures_r(); let inner = picture_r(); let start = pictures_start_Icon(); let join = pictures_join_Icon();
    pictures_nests_Icon(); lawful_picture();
    lemma_nested(step, "CustomIcons"@, "Icon"@, inner, start, join, a, h, ys, g); lemma_nested(step, "CustomIcons"@, "Icon"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "CustomIcons"@, "Icon"@, inner, (|s: Two<Seq<u8>, Seq<u8>>| true), picture_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn meta_start_Binaries() -> spec_fn(VData) -> Map<BinaryId, Seq<u8>> { |st: VData| Map::empty() }
pub open spec fn meta_join_Binaries() -> spec_fn(VData, Map<BinaryId, Seq<u8>>) -> Option<VData> { |st: VData, t: Map<BinaryId, Seq<u8>>| Some(VData { tables: VTables { binaries: t, ..st.tables }, ..st }) }
pub proof fn meta_nests_Binaries()
    ensures nests(meta_r(), "Binaries"@, pool_r(), meta_start_Binaries(), meta_join_Binaries())
{
    reveal(nests); meta_is_Binaries();meta_names(); table_names();
    let step = meta_r(); let inner = pool_r(); let start = meta_start_Binaries(); let join = meta_join_Binaries();
    assert forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Binaries"@, a, ev, pos)]
        step(st, "Binaries"@, a, ev, pos) == (match run(inner, "Binaries"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_pool_run(ev, Map::empty(), pos);
    }
}
/// C18
pub proof fn meta_deeper_Binaries(a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(pool_r(), "Binaries"@, ys), idle(h, "Binaries"@), idle(g, "Meta"@), all_whole(pool_r(), "Binaries"@, zs), idle(k, "Binaries"@), idle(f, "Meta"@), same_parts(ys, zs, pool_part()),
    ensures
        whole(meta_r(), "Meta"@, node_events("Binaries"@, a, h, ys, g)), whole(meta_r(), "Meta"@, node_events("Binaries"@, b, k, zs, f)),
        alike(meta_r(), node_events("Binaries"@, a, h, ys, g), node_events("Binaries"@, b, k, zs, f)),
{
    let step = meta_r(); let inner = pool_r(); let start = meta_start_Binaries(); let join = meta_join_Binaries();
    meta_nests_Binaries(); lawful_pool();
    lemma_nested(step, "Meta"@, "Binaries"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Meta"@, "Binaries"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Meta"@, "Binaries"@, inner, (|s: Map<BinaryId, Seq<u8>>| true), pool_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn meta_start_CustomData() -> spec_fn(VData) -> Map<String, Seq<char>> { |st: VData| Map::empty() }
pub open spec fn meta_join_CustomData() -> spec_fn(VData, Map<String, Seq<char>>) -> Option<VData> { |st: VData, t: Map<String, Seq<char>>| Some(VData { tables: VTables { custom_data: t, ..st.tables }, ..st }) }
pub proof fn meta_nests_CustomData()
    ensures nests(meta_r(), "CustomData"@, items_r(), meta_start_CustomData(), meta_join_CustomData())
{
    reveal(nests); meta_is_CustomData();meta_names(); table_names();
    let step = meta_r(); let inner = items_r(); let start = meta_start_CustomData(); let join = meta_join_CustomData();
    assert forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "CustomData"@, a, ev, pos)]
        step(st, "CustomData"@, a, ev, pos) == (match run(inner, "CustomData"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_items_run(ev, Map::empty(), pos);
    }
}
/// C18
pub proof fn meta_deeper_CustomData(a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(items_r(), "CustomData"@, ys), idle(h, "CustomData"@), idle(g, "Meta"@), all_whole(items_r(), "CustomData"@, zs), idle(k, "CustomData"@), idle(f, "Meta"@), same_parts(ys, zs, items_part()),
    ensures
        whole(meta_r(), "Meta"@, node_events("CustomData"@, a, h, ys, g)), whole(meta_r(), "Meta"@, node_events("CustomData"@, b, k, zs, f)),
        alike(meta_r(), node_events("CustomData"@, a, h, ys, g), node_events("CustomData"@, b, k, zs, f)),
{
    let step = meta_r(); let inner = items_r(); let start = meta_start_CustomData(); let join = meta_join_CustomData();
    meta_nests_CustomData(); lawful_items();
    lemma_nested(step, "Meta"@, "CustomData"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Meta"@, "CustomData"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Meta"@, "CustomData"@, inner, (|s: Map<String, Seq<char>>| true), items_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn meta_start_CustomIcons() -> spec_fn(VData) -> Map<CustomIconUuid, Seq<u8>> { |st: VData| Map::empty() }
pub open spec fn meta_join_CustomIcons() -> spec_fn(VData, Map<CustomIconUuid, Seq<u8>>) -> Option<VData> { |st: VData, t: Map<CustomIconUuid, Seq<u8>>| Some(VData { tables: VTables { custom_icons: t, ..st.tables }, ..st }) }
pub proof fn meta_nests_CustomIcons()
    ensures nests(meta_r(), "CustomIcons"@, pictures_r(), meta_start_CustomIcons(), meta_join_CustomIcons())
{
    reveal(nests); meta_is_CustomIcons();meta_names(); table_names();
    let step = meta_r(); let inner = pictures_r(); let start = meta_start_CustomIcons(); let join = meta_join_CustomIcons();
    assert forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "CustomIcons"@, a, ev, pos)]
        step(st, "CustomIcons"@, a, ev, pos) == (match run(inner, "CustomIcons"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_pictures_run(ev, Map::empty(), pos);
    }
}
/// C18
pub proof fn meta_deeper_CustomIcons(a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(pictures_r(), "CustomIcons"@, ys), idle(h, "CustomIcons"@), idle(g, "Meta"@), all_whole(pictures_r(), "CustomIcons"@, zs), idle(k, "CustomIcons"@), idle(f, "Meta"@), same_parts(ys, zs, pictures_part()),
    ensures
        whole(meta_r(), "Meta"@, node_events("CustomIcons"@, a, h, ys, g)), whole(meta_r(), "Meta"@, node_events("CustomIcons"@, b, k, zs, f)),
        alike(meta_r(), node_events("CustomIcons"@, a, h, ys, g), node_events("CustomIcons"@, b, k, zs, f)),
{
    let step = meta_r(); let inner = pictures_r(); let start = meta_start_CustomIcons(); let join = meta_join_CustomIcons();
    meta_nests_CustomIcons(); lawful_pictures();
    lemma_nested(step, "Meta"@, "CustomIcons"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Meta"@, "CustomIcons"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Meta"@, "CustomIcons"@, inner, (|s: Map<CustomIconUuid, Seq<u8>>| true), pictures_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn meta_start_MemoryProtection() -> spec_fn(VData) -> VProtect { |st: VData| st.protect }
pub open spec fn meta_join_MemoryProtection() -> spec_fn(VData, VProtect) -> Option<VData> { |st: VData, t: VProtect| Some(VData { protect: t, ..st }) }
pub proof fn meta_nests_MemoryProtection()
    ensures nests(meta_r(), "MemoryProtection"@, protection_r(), meta_start_MemoryProtection(), meta_join_MemoryProtection())
{
    reveal(nests); meta_is_MemoryProtection();meta_names(); protection_names();
    let step = meta_r(); let inner = protection_r(); let start = meta_start_MemoryProtection(); let join = meta_join_MemoryProtection();
    assert forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "MemoryProtection"@, a, ev, pos)]
        step(st, "MemoryProtection"@, a, ev, pos) == (match run(inner, "MemoryProtection"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_protection_run(ev, st.protect, pos);
    }
}
/// C18
pub proof fn meta_deeper_MemoryProtection(a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(protection_r(), "MemoryProtection"@, ys), idle(h, "MemoryProtection"@), idle(g, "Meta"@), all_whole(protection_r(), "MemoryProtection"@, zs), idle(k, "MemoryProtection"@), idle(f, "Meta"@), same_parts(ys, zs, protection_part()),
    ensures
        whole(meta_r(), "Meta"@, node_events("MemoryProtection"@, a, h, ys, g)), whole(meta_r(), "Meta"@, node_events("MemoryProtection"@, b, k, zs, f)),
        alike(meta_r(), node_events("MemoryProtection"@, a, h, ys, g), node_events("MemoryProtection"@, b, k, zs, f)),
{
    let step = meta_r(); let inner = protection_r(); let start = meta_start_MemoryProtection(); let join = meta_join_MemoryProtection();
    meta_nests_MemoryProtection(); lawful_protection();
    lemma_nested(step, "Meta"@, "MemoryProtection"@, inner, start, join, a, h, ys, g); lemma_nested(step, "Meta"@, "MemoryProtection"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "Meta"@, "MemoryProtection"@, inner, (|s: VProtect| true), protection_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn file_start_Meta(ks: Ks) -> spec_fn(VData) -> VData { |st: VData| st }
pub open spec fn file_join_Meta(ks: Ks) -> spec_fn(VData, VData) -> Option<VData> { |st: VData, t: VData| Some(t) }
pub proof fn file_nests_Meta(ks: Ks)
    ensures nests(file_r(ks), "Meta"@, meta_r(), file_start_Meta(ks), file_join_Meta(ks))
{
    reveal(nests); file_names(); meta_names();
    let step = file_r(ks); let inner = meta_r(); let start = file_start_Meta(ks); let join = file_join_Meta(ks);
    assert forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Meta"@, a, ev, pos)]
        step(st, "Meta"@, a, ev, pos) == (match run(inner, "Meta"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_meta_run(ev, st, pos);
    }
}
/// C18
pub proof fn file_deeper_Meta(ks: Ks, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(meta_r(), "Meta"@, ys), idle(h, "Meta"@), idle(g, "KeePassFile"@), all_whole(meta_r(), "Meta"@, zs), idle(k, "Meta"@), idle(f, "KeePassFile"@), same_parts(ys, zs, meta_part()),
    ensures
        whole(file_r(ks), "KeePassFile"@, node_events("Meta"@, a, h, ys, g)), whole(file_r(ks), "KeePassFile"@, node_events("Meta"@, b, k, zs, f)),
        alike(file_r(ks), node_events("Meta"@, a, h, ys, g), node_events("Meta"@, b, k, zs, f)),
{
    let step = file_r(ks); let inner = meta_r(); let start = file_start_Meta(ks); let join = file_join_Meta(ks);
    file_nests_Meta(ks); lawful_meta();
    lemma_nested(step, "KeePassFile"@, "Meta"@, inner, start, join, a, h, ys, g); lemma_nested(step, "KeePassFile"@, "Meta"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "KeePassFile"@, "Meta"@, inner, meta_inv(), meta_part(), start, join, a, h, ys, g, b, k, zs, f);
}
pub open spec fn file_start_Root(ks: Ks) -> spec_fn(VData) -> Option<VGroup> { |st: VData| st.root }
pub open spec fn file_join_Root(ks: Ks) -> spec_fn(VData, Option<VGroup>) -> Option<VData> { |st: VData, t: Option<VGroup>| Some(VData { root: t, ..st }) }
pub proof fn file_nests_Root(ks: Ks)
    ensures nests(file_r(ks), "Root"@, root_r(ks), file_start_Root(ks), file_join_Root(ks))
{
    reveal(nests); file_names(); group_names();
    let step = file_r(ks); let inner = root_r(ks); let start = file_start_Root(ks); let join = file_join_Root(ks);
    assert forall|st: VData, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, "Root"@, a, ev, pos)]
        step(st, "Root"@, a, ev, pos) == (match run(inner, "Root"@, ev, start(st), pos) { Some((t, e, p)) => match join(st, t) { Some(s) => Some((s, e, p)), None => None }, None => None }) by {
        lemma_root_run(ev, st.root, ks, pos);
    }
}
/// C18
pub proof fn file_deeper_Root(ks: Ks, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires all_whole(root_r(ks), "Root"@, ys), idle(h, "Root"@), idle(g, "KeePassFile"@), all_whole(root_r(ks), "Root"@, zs), idle(k, "Root"@), idle(f, "KeePassFile"@), same_parts(ys, zs, root_part()),
    ensures
        whole(file_r(ks), "KeePassFile"@, node_events("Root"@, a, h, ys, g)), whole(file_r(ks), "KeePassFile"@, node_events("Root"@, b, k, zs, f)),
        alike(file_r(ks), node_events("Root"@, a, h, ys, g), node_events("Root"@, b, k, zs, f)),
{
    let step = file_r(ks); let inner = root_r(ks); let start = file_start_Root(ks); let join = file_join_Root(ks);
    file_nests_Root(ks); lawful_root(ks);
    lemma_nested(step, "KeePassFile"@, "Root"@, inner, start, join, a, h, ys, g); lemma_nested(step, "KeePassFile"@, "Root"@, inner, start, join, b, k, zs, f);
    lemma_deeper(step, "KeePassFile"@, "Root"@, inner, (|s: Option<VGroup>| true), root_part(), start, join, a, h, ys, g, b, k, zs, f);
}

pub open spec fn outside(e: Ev) -> bool { !(e is Start) && !(e is EndDoc) }
proof fn lemma_outside(e: Seq<Ev>, r: Seq<Ev>, st: VData, ks: Ks, pos: int)
    requires forall|i: int| 0 <= i < e.len() ==> outside(#[trigger] e[i])
    ensures doc_from(e + r, st, ks, pos) == doc_from(r, st, ks, pos)
    decreases e.len()
{
    if e.len() == 0 { assert(e + r =~= r); } else {
        assert(outside(e[0]));
        assert forall|i: int| 0 <= i < e.skip(1).len() implies outside(#[trigger] e.skip(1)[i]) by { assert(e.skip(1)[i] == e[i + 1]); }
        lemma_outside(e.skip(1), r, st, ks, pos);
        assert((e + r).skip(1) =~= e.skip(1) + r); assert((e + r)[0] == e[0]);
    }
}
/// The events of a document: what stands before and after the file's element, and the file's sections.
pub open spec fn document_events(o: Seq<Ev>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>) -> Seq<Ev> { o + (node_events("KeePassFile"@, a, h, ys, g) + seq![Ev::EndDoc]) }
pub open spec fn framing(o: Seq<Ev>, h: Seq<Ev>, g: Seq<Ev>) -> bool { &&& forall|i: int| 0 <= i < o.len() ==> outside(#[trigger] o[i]) &&& forall|i: int| 0 <= i < g.len() ==> outside(#[trigger] g[i]) &&& idle(h, "KeePassFile"@) }
/// A document of whole sections says what its sections say one after the other.
pub proof fn lemma_document(ev: Seq<Ev>, ks: Ks, o: Seq<Ev>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>)
    requires ev == document_events(o, a, h, ys, g), framing(o, h, g), all_whole(file_r(ks), "KeePassFile"@, ys)
    ensures doc_from(ev, fresh_data(), ks, 0) == (match fold(file_r(ks), ys, fresh_data(), 0) { Some((d, p)) => Some(d), None => None })
{
    let n = "KeePassFile"@; let z = seq![Ev::EndDoc]; let w = node_events(n, a, h, ys, g) + z; let st = fresh_data();
    lemma_outside(o, w, st, ks, 0);
    let c = h + (cat(ys) + (seq![Ev::End(n)] + g));
    assert(w[0] == Ev::Start(n, a)); assert(w.skip(1) =~= c + z);
    lemma_inner(file_r(ks), n, h, ys, g, z, st, 0);
    lemma_file_run(c + z, st, ks, 0);
    if let Some((d, p)) = fold(file_r(ks), ys, st, 0) {
        lemma_outside(g, z, d, ks, p); assert(z.len() < w.len()); assert((g + z).len() < w.len());
        reveal_with_fuel(doc_from, 2);
    }
}
/// C18: a document's sections in any order that keeps the order inside each part, and sections nobody knows added or left out.
pub proof fn document_in_any_order(one: Seq<u8>, two: Seq<u8>, key: Seq<u8>, o: Seq<Ev>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, q: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires
        events(one, true, true) == document_events(o, a, h, ys, g), framing(o, h, g), all_whole(file_r(keystream(key)), "KeePassFile"@, ys),
        events(two, true, true) == document_events(q, b, k, zs, f), framing(q, k, f), all_whole(file_r(keystream(key)), "KeePassFile"@, zs),
        same_parts(ys, zs, file_part()),
    ensures document(one, key) == document(two, key)
{
    let ks = keystream(key);
    lemma_document(events(one, true, true), ks, o, a, h, ys, g); lemma_document(events(two, true, true), ks, q, b, k, zs, f);
    lawful_file(ks); lemma_order(file_r(ks), file_inv(ks), file_part(), ys, zs, fresh_data(), 0);
}
/// C18: ... and what is inside the sections, at any depth, in any order.
pub proof fn document_alike(one: Seq<u8>, two: Seq<u8>, key: Seq<u8>, o: Seq<Ev>, a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, q: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires
        events(one, true, true) == document_events(o, a, h, ys, g), framing(o, h, g), all_whole(file_r(keystream(key)), "KeePassFile"@, ys),
        events(two, true, true) == document_events(q, b, k, zs, f), framing(q, k, f), all_whole(file_r(keystream(key)), "KeePassFile"@, zs),
        ys.len() == zs.len(), forall|i: int| 0 <= i < ys.len() ==> alike(file_r(keystream(key)), #[trigger] ys[i], zs[i]),
    ensures document(one, key) == document(two, key)
{
    let ks = keystream(key);
    lemma_document(events(one, true, true), ks, o, a, h, ys, g); lemma_document(events(two, true, true), ks, q, b, k, zs, f);
    lemma_alike(file_r(ks), ys, zs, fresh_data(), 0);
}

/// What an element of the table of binaries says: its number and its data.
pub open spec fn get_table() -> Get<(Seq<char>, Seq<u8>)> { |a: Attrs, ev: Seq<Ev>, pos: int|
    match (attr_val(a, "id"@), flag(a, "compressed"@)) {
        (Some(i), Some(z)) => match if z { zipped(ev) } else { bin(ev) } { Some((v, e)) => Some(((i, v), e, pos)), None => None },
        _ => None,
    } }
proof fn local_table() ensures local(get_table()) {
    reveal(local); let get = get_table();
    assert forall|a: Attrs, c: Seq<Ev>, r: Seq<Ev>, pos: int| #![trigger get(a, c + r, pos)] leafy(c) implies get(a, c + r, pos) == with(get(a, c, pos), r) && (get(a, c, pos) matches Some((v, e, p)) ==> e == c.skip(1) || e == c) by { lemma_text_local(c, r); }
}
pub proof fn pool_leaf_Binary(a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires idle(g, "Binaries"@)
    ensures whole(pool_r(), "Binaries"@, leaf_events("Binary"@, a, s, g))
{
    let put = |st: Map<BinaryId, Seq<u8>>, v: (Seq<char>, Seq<u8>)| st.insert(BinaryId(string_of(v.0)), v.1);
    table_names(); local_table();
    assert(valued(pool_r(), "Binary"@, get_table(), put)) by { reveal(valued); }
    assert("Binary"@ != "Binaries"@) by { reveal_strlit("Binary"); reveal_strlit("Binaries"); assert("Binary"@.len() == 6); assert("Binaries"@.len() == 8); }
    lemma_leaf(pool_r(), "Binaries"@, "Binary"@, get_table(), put, a, s, g);
}
proof fn lemma_association(h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, r: Seq<Ev>)
    requires all_whole(assoc_r(), "Association"@, ys), idle(h, "Association"@), fold(assoc_r(), ys, none(), 0) is Some,
    ensures assoc_from((h + (cat(ys) + (seq![Ev::End("Association"@)] + g))) + r, none()) == (match both(fold(assoc_r(), ys, none(), 0).unwrap().0) { Some((x, y)) => Some(VAssoc { keys: x, win: y }), None => None }, g + r)
{
    let n = "Association"@;
    lemma_inner(assoc_r(), n, h, ys, g, r, none(), 0);
    lemma_assoc_run((h + (cat(ys) + (seq![Ev::End(n)] + g))) + r, none(), 0);
}
/// C18: the same for what stands in an association, whose parts can be read.
pub proof fn auto_deeper_Association(a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>, b: Attrs, k: Seq<Ev>, zs: Seq<Seq<Ev>>, f: Seq<Ev>)
    requires
        all_whole(assoc_r(), "Association"@, ys), idle(h, "Association"@), idle(g, "AutoType"@), all_whole(assoc_r(), "Association"@, zs), idle(k, "Association"@), idle(f, "AutoType"@),
        same_parts(ys, zs, assoc_part()), fold(assoc_r(), ys, none(), 0) is Some,
    ensures
        whole(auto_r(), "AutoType"@, node_events("Association"@, a, h, ys, g)), whole(auto_r(), "AutoType"@, node_events("Association"@, b, k, zs, f)),
        alike(auto_r(), node_events("Association"@, a, h, ys, g), node_events("Association"@, b, k, zs, f)),
{
    lawful_assoc(); lemma_order(assoc_r(), |s: Two<Seq<char>, Seq<char>>| true, assoc_part(), ys, zs, none(), 0);
    association_whole(a, h, ys, g); association_whole(b, k, zs, f);
    reveal(alike); auto_names();
    let n = "Association"@; let x = node_events(n, a, h, ys, g); let y = node_events(n, b, k, zs, f); let nil = Seq::<Ev>::empty();
    let c = h + (cat(ys) + (seq![Ev::End(n)] + g)); let d = k + (cat(zs) + (seq![Ev::End(n)] + f));
    assert(x.skip(1) =~= c); assert(y.skip(1) =~= d); assert(c + nil =~= c); assert(d + nil =~= d);
    lemma_association(h, ys, g, nil); lemma_association(k, zs, f, nil);
}
pub proof fn association_whole(a: Attrs, h: Seq<Ev>, ys: Seq<Seq<Ev>>, g: Seq<Ev>)
    requires all_whole(assoc_r(), "Association"@, ys), idle(h, "Association"@), idle(g, "AutoType"@), fold(assoc_r(), ys, none(), 0) is Some,
    ensures whole(auto_r(), "AutoType"@, node_events("Association"@, a, h, ys, g))
{
    let n = "Association"@; let x = node_events(n, a, h, ys, g); let c = h + (cat(ys) + (seq![Ev::End(n)] + g)); let nil = Seq::<Ev>::empty();
    reveal(whole); auto_names(); let step = auto_r();
    assert(x.skip(1) =~= c); assert(c + nil =~= c); assert(g + nil =~= g);
    lemma_association(h, ys, g, nil);
    assert forall|st: VEntry, pos: int, r: Seq<Ev>| #![trigger step(st, n, a, x.skip(1) + r, pos)] step(st, n, a, x.skip(1) + r, pos) == with(step(st, n, a, x.skip(1), pos), r) by { lemma_association(h, ys, g, r); }
}
/// An element that reads nothing of the keystream (no protected value in it), and does not end in an error.
#[verifier::opaque]
pub open spec fn still<S>(step: Step<S>, x: Seq<Ev>) -> bool { forall|st: S, pos: int, at: int| #![trigger effect(step, x, st, pos), effect(step, x, st, at)] effect(step, x, st, pos) is Some && effect(step, x, st, pos).unwrap().1 == pos && effect(step, x, st, at) is Some && effect(step, x, st, at).unwrap().0 == effect(step, x, st, pos).unwrap().0 }
pub open spec fn two(x: Seq<Ev>, y: Seq<Ev>) -> Seq<Seq<Ev>> { seq![x, y] }
#[verifier::opaque]
pub open spec fn swaps<S>(step: Step<S>, x: Seq<Ev>, y: Seq<Ev>) -> bool { forall|st: S, pos: int| #[trigger] fold(step, two(x, y), st, pos) == fold(step, two(y, x), st, pos) }
proof fn lemma_two<S>(step: Step<S>, x: Seq<Ev>, y: Seq<Ev>, st: S, pos: int)
    ensures fold(step, two(x, y), st, pos) == (match effect(step, x, st, pos) { Some((s, p)) => effect(step, y, s, p), None => None })
{ reveal_with_fuel(fold, 3); assert(seq![x, y].skip(1) =~= seq![y]); assert(seq![x, y][0] == x); assert(seq![y].skip(1) =~= Seq::<Seq<Ev>>::empty()); }
proof fn lemma_after<S>(step: Step<S>, xs: Seq<Seq<Ev>>, ys: Seq<Seq<Ev>>, st: S, pos: int)
    ensures fold(step, xs + ys, st, pos) == (match fold(step, xs, st, pos) { Some((s, p)) => fold(step, ys, s, p), None => None })
    decreases xs.len()
{
    if xs.len() == 0 { assert(xs + ys =~= ys); } else {
        assert((xs + ys).skip(1) =~= xs.skip(1) + ys); assert((xs + ys)[0] == xs[0]);
        if let Some((s, p)) = effect(step, xs[0], st, pos) { lemma_after(step, xs.skip(1), ys, s, p); }
    }
}
/// C18: two neighbours that swap do so anywhere in a section.
pub proof fn lemma_swap<S>(step: Step<S>, end: Seq<char>, xs: Seq<Seq<Ev>>, x: Seq<Ev>, y: Seq<Ev>, ys: Seq<Seq<Ev>>, r: Seq<Ev>, st: S, pos: int)
    requires swaps(step, x, y), all_whole(step, end, xs + (two(x, y) + ys))
    ensures run(step, end, cat(xs + (two(x, y) + ys)) + r, st, pos) == run(step, end, cat(xs + (two(y, x) + ys)) + r, st, pos)
{
    reveal(swaps);
    let a = xs + (two(x, y) + ys); let b = xs + (two(y, x) + ys); let n = xs.len() as int;
    assert(a[n] == x && a[n + 1] == y);
    assert(all_whole(step, end, b)) by { assert forall|i: int| 0 <= i < b.len() implies whole(step, end, #[trigger] b[i]) by { assert(whole(step, end, a[n]) && whole(step, end, a[n + 1])); if i == n { assert(b[i] == y); } else if i == n + 1 { assert(b[i] == x); } else { assert(b[i] == a[i]); assert(whole(step, end, a[i])); } } }
    lemma_fold(step, end, a, r, st, pos); lemma_fold(step, end, b, r, st, pos);
    lemma_after(step, xs, two(x, y) + ys, st, pos); lemma_after(step, xs, two(y, x) + ys, st, pos);
    if let Some((s, p)) = fold(step, xs, st, pos) { lemma_after(step, two(x, y), ys, s, p); lemma_after(step, two(y, x), ys, s, p); assert(fold(step, two(x, y), s, p) == fold(step, two(y, x), s, p)); }
}
/// C18: elements of these names that hold no protected value may change places.
pub proof fn entry_Binary_swaps_String(ks: Ks, active: bool, up: Seq<u8>, x: Seq<Ev>, y: Seq<Ev>)
    requires name(x) == "Binary"@, name(y) == "String"@, still(entry_r(ks, active, up), x), still(entry_r(ks, active, up), y)
    ensures swaps(entry_r(ks, active, up), x, y)
{
    reveal(swaps); reveal(still); let step = entry_r(ks, active, up); entry_names();
    assert forall|st: VEntry, pos: int| #[trigger] fold(step, two(x, y), st, pos) == fold(step, two(y, x), st, pos) by {
        lemma_two(step, x, y, st, pos); lemma_two(step, y, x, st, pos);
        let s1 = effect(step, x, st, pos).unwrap().0; let s2 = effect(step, y, st, pos).unwrap().0;
        assert(effect(step, y, s1, pos) is Some); assert(effect(step, x, s2, pos) is Some);
    }
}
/// C18: elements of these names that hold no protected value may change places.
pub proof fn entry_Binary_swaps_History(ks: Ks, active: bool, up: Seq<u8>, x: Seq<Ev>, y: Seq<Ev>)
    requires name(x) == "Binary"@, name(y) == "History"@, still(entry_r(ks, active, up), x), still(entry_r(ks, active, up), y)
    ensures swaps(entry_r(ks, active, up), x, y)
{
    reveal(swaps); reveal(still); let step = entry_r(ks, active, up); entry_names();
    assert forall|st: VEntry, pos: int| #[trigger] fold(step, two(x, y), st, pos) == fold(step, two(y, x), st, pos) by {
        lemma_two(step, x, y, st, pos); lemma_two(step, y, x, st, pos);
        let s1 = effect(step, x, st, pos).unwrap().0; let s2 = effect(step, y, st, pos).unwrap().0;
        assert(effect(step, y, s1, pos) is Some); assert(effect(step, x, s2, pos) is Some);
    }
}
/// C18: elements of these names that hold no protected value may change places.
pub proof fn entry_History_swaps_String(ks: Ks, active: bool, up: Seq<u8>, x: Seq<Ev>, y: Seq<Ev>)
    requires name(x) == "History"@, name(y) == "String"@, still(entry_r(ks, active, up), x), still(entry_r(ks, active, up), y)
    ensures swaps(entry_r(ks, active, up), x, y)
{
    reveal(swaps); reveal(still); let step = entry_r(ks, active, up); entry_names();
    assert forall|st: VEntry, pos: int| #[trigger] fold(step, two(x, y), st, pos) == fold(step, two(y, x), st, pos) by {
        lemma_two(step, x, y, st, pos); lemma_two(step, y, x, st, pos);
        let s1 = effect(step, x, st, pos).unwrap().0; let s2 = effect(step, y, st, pos).unwrap().0;
        assert(effect(step, y, s1, pos) is Some); assert(effect(step, x, s2, pos) is Some);
    }
}
/// C18: elements of these names that hold no protected value may change places.
pub proof fn group_Entry_swaps_Group(ks: Ks, x: Seq<Ev>, y: Seq<Ev>)
    requires name(x) == "Entry"@, name(y) == "Group"@, still(group_r(ks), x), still(group_r(ks), y)
    ensures swaps(group_r(ks), x, y)
{
    reveal(swaps); reveal(still); let step = group_r(ks); group_names();
    assert forall|st: VGroup, pos: int| #[trigger] fold(step, two(x, y), st, pos) == fold(step, two(y, x), st, pos) by {
        lemma_two(step, x, y, st, pos); lemma_two(step, y, x, st, pos);
        let s1 = effect(step, x, st, pos).unwrap().0; let s2 = effect(step, y, st, pos).unwrap().0;
        assert(effect(step, y, s1, pos) is Some); assert(effect(step, x, s2, pos) is Some);
    }
}
/// An element the step takes no notice of, but for what it does to the state by the way.
#[verifier::opaque]
pub open spec fn passed<S>(step: Step<S>, n: Seq<char>, by: spec_fn(S) -> S) -> bool { forall|st: S, a: Attrs, ev: Seq<Ev>, pos: int| #![trigger step(st, n, a, ev, pos)] step(st, n, a, ev, pos) == Some((by(st), ev, pos)) }
/// C18: an element nobody knows that holds text or nothing is no hindrance in any section.
pub proof fn passed_whole<S>(step: Step<S>, end: Seq<char>, n: Seq<char>, by: spec_fn(S) -> S, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires passed(step, n, by), n != end, idle(g, end)
    ensures whole(step, end, leaf_events(n, a, s, g))
{
    reveal(passed); reveal(whole);
    let c = match s { Some(s) => seq![Ev::Text(s)], None => seq![] } + (seq![Ev::End(n)] + g); let x = leaf_events(n, a, s, g);
    assert(idle(c, end)) by { assert forall|i: int| 0 <= i < c.len() implies dull(#[trigger] c[i], end) by { if i >= c.len() - g.len() { assert(c[i] == g[i - (c.len() - g.len())]); } else { assert(c[i] == Ev::End(n) || c[i] is Text); } } }
    assert(x.skip(1) =~= c);
}
/// C18: of most sections ...
pub proof fn unknown_whole<S>(step: Step<S>, end: Seq<char>, part: Part, n: Seq<char>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires lawful(step, |s: S| true, part), part(n) is None, n != end, idle(g, end),
    ensures whole(step, end, leaf_events(n, a, s, g))
{
    assert(ignored(step, |s: S| true, n));
    assert(passed(step, n, |s: S| s)) by { reveal(ignored); reveal(passed); }
    passed_whole(step, end, n, |s: S| s, a, s, g);
}
/// C18: ... and of an entry.
pub proof fn entry_unknown_whole(ks: Ks, active: bool, up: Seq<u8>, n: Seq<char>, a: Attrs, s: Option<Seq<char>>, g: Seq<Ev>)
    requires entry_part()(n) is None, n != "Entry"@, idle(g, "Entry"@),
    ensures whole(entry_r(ks, active, up), "Entry"@, leaf_events(n, a, s, g))
{
    assert(passed(entry_r(ks, active, up), n, |s: VEntry| VEntry { within: up, ..s })) by { reveal(passed); }
    passed_whole(entry_r(ks, active, up), "Entry"@, n, |s: VEntry| VEntry { within: up, ..s }, a, s, g);
}

} // verus!
} // order_tree
