# what is read back of what was written: C01, C08, C14
@module format
@top
pub mod roundtrip { // format/roundtrip.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
verus! {
// ---- sections ----
/// What an element just started makes of a section's state: the state, the events and the keystream position after it.
pub type Step<S> = spec_fn(S, Seq<char>, Attrs, Seq<Ev>, int) -> Got2<S>;
/// Reading a section up to its end.
pub open spec fn run<S>(step: Step<S>, end: Seq<char>, ev: Seq<Ev>, st: S, pos: int) -> Got2<S> decreases ev.len() {
    if ev.len() == 0 { None } else {
        match ev[0] {
            Ev::Start(n, a) => match step(st, n, a, ev.skip(1), pos) { Some((t, e, p)) => if e.len() < ev.len() { run(step, end, e, t, p) } else { None }, None => None },
            Ev::End(n) => if n == end { Some((st, ev.skip(1), pos)) } else { run(step, end, ev.skip(1), st, pos) },
            Ev::EndDoc => None,
            _ => run(step, end, ev.skip(1), st, pos),
        }
    }
}
/// What is left after the content of an element: its end, or nothing of it.
pub open spec fn rests(e: Seq<Ev>, n: Seq<char>, r: Seq<Ev>) -> bool { e == r || e == seq![Ev::End(n)] + r }
/// The step takes an element shown, whatever follows it.
#[verifier::opaque]
pub open spec fn takes<S>(step: Step<S>, t: Tree, st: S, pos: int, st2: S, pos2: int) -> bool {
    forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) ==> (step(st, tag(t), marks(t), y.skip(1) + r, pos) matches Some((s, e, p)) && s == st2 && p == pos2 && rests(e, tag(t), r))
}
/// A section takes elements shown one after the other.
#[verifier::opaque]
pub open spec fn takes_all<S>(step: Step<S>, end: Seq<char>, k: Seq<Tree>, st: S, pos: int, st2: S, pos2: int) -> bool {
    forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y + r, shown_all(y, k)] shown_all(y, k) ==> run(step, end, y + r, st, pos) == run(step, end, r, st2, pos2)
}
pub proof fn lemma_gap<S>(step: Step<S>, end: Seq<char>, g: Seq<Ev>, r: Seq<Ev>, st: S, pos: int)
    requires gap(g) ensures run(step, end, g + r, st, pos) == run(step, end, r, st, pos) decreases g.len()
{
    if g.len() == 0 { assert(g + r =~= r); } else {
        assert(gap(g.skip(1))) by { assert forall|i: int| 0 <= i < g.skip(1).len() implies ((#[trigger] g.skip(1)[i]) is Other || (g.skip(1)[i] matches Ev::Text(s) && blank(s))) by { assert(g.skip(1)[i] == g[i + 1]); } }
        lemma_gap(step, end, g.skip(1), r, st, pos);
        assert((g + r).skip(1) =~= g.skip(1) + r); assert((g + r)[0] == g[0]);
    }
}
pub proof fn lemma_shown_start(y: Seq<Ev>, t: Tree) requires shown(y, t) ensures y.len() >= 2, y[0] == Ev::Start(tag(t), marks(t)) {
    match t { Tree::Leaf(_, _, _) => {}, Tree::Node(n, a, k) => {} }
}
pub broadcast proof fn lemma_none<S>(step: Step<S>, end: Seq<char>, st: S, pos: int)
    ensures #[trigger] takes_all(step, end, Seq::<Tree>::empty(), st, pos, st, pos)
{ reveal(takes_all); assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y + r, shown_all(y, Seq::<Tree>::empty())] shown_all(y, Seq::<Tree>::empty()) implies run(step, end, y + r, st, pos) == run(step, end, r, st, pos) by { assert(y + r =~= r); } }
pub broadcast proof fn lemma_push<S>(step: Step<S>, end: Seq<char>, k: Seq<Tree>, t: Tree, st: S, pos: int, mid: S, mp: int, st2: S, pos2: int)
    requires #[trigger] takes_all(step, end, k, st, pos, mid, mp), #[trigger] takes(step, t, mid, mp, st2, pos2), tag(t) != end
    ensures takes_all(step, end, k.push(t), st, pos, st2, pos2)
{
    reveal(takes_all); reveal(takes);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y + r, shown_all(y, k.push(t))] shown_all(y, k.push(t)) implies run(step, end, y + r, st, pos) == run(step, end, r, st2, pos2) by {
        assert(k.push(t).drop_last() =~= k);
        let (i, j) = choose|i: int, j: int| 0 <= i <= j <= y.len() && #[trigger] gap(y.subrange(i, j)) && shown_all(y.take(i), k) && shown(y.skip(j), t);
        let z = y.take(i); let g = y.subrange(i, j); let b = y.skip(j);
        assert(y + r =~= z + (g + (b + r)));
        lemma_gap(step, end, g, b + r, mid, mp);
        lemma_shown_start(b, t);
        let w = b + r;
        assert(w.skip(1) =~= b.skip(1) + r);
        let (s, e, p) = step(mid, tag(t), marks(t), b.skip(1) + r, mp).unwrap();
        assert(e.len() < w.len());
        assert(run(step, end, w, mid, mp) == run(step, end, e, st2, pos2));
        if e == seq![Ev::End(tag(t))] + r { assert(e.skip(1) =~= r); }
    }
}
/// The same for an element that is always taken with its end.
#[verifier::opaque]
pub open spec fn takes_whole<S>(step: Step<S>, t: Tree, st: S, pos: int, st2: S, pos2: int) -> bool {
    forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) ==> step(st, tag(t), marks(t), y.skip(1) + r, pos) == Some((st2, r, pos2))
}
pub proof fn lemma_push_whole<S>(step: Step<S>, end: Seq<char>, k: Seq<Tree>, t: Tree, st: S, pos: int, mid: S, mp: int, st2: S, pos2: int)
    requires takes_all(step, end, k, st, pos, mid, mp), takes_whole(step, t, mid, mp, st2, pos2)
    ensures takes_all(step, end, k.push(t), st, pos, st2, pos2)
{
    reveal(takes_all); reveal(takes_whole);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y + r, shown_all(y, k.push(t))] shown_all(y, k.push(t)) implies run(step, end, y + r, st, pos) == run(step, end, r, st2, pos2) by {
        assert(k.push(t).drop_last() =~= k);
        let (i, j) = choose|i: int, j: int| 0 <= i <= j <= y.len() && #[trigger] gap(y.subrange(i, j)) && shown_all(y.take(i), k) && shown(y.skip(j), t);
        let z = y.take(i); let g = y.subrange(i, j); let b = y.skip(j);
        assert(y + r =~= z + (g + (b + r)));
        lemma_gap(step, end, g, b + r, mid, mp);
        lemma_shown_start(b, t);
        let w = b + r;
        assert(w.skip(1) =~= b.skip(1) + r);
    }
}
/// A section written as an element is read whole.
pub proof fn lemma_node<S>(step: Step<S>, t: Tree, y: Seq<Ev>, r: Seq<Ev>, st: S, pos: int, st2: S, pos2: int)
    requires t matches Tree::Node(n, a, k) && takes_all(step, n, k, st, pos, st2, pos2), shown(y, t)
    ensures run(step, tag(t), y.skip(1) + r, st, pos) == Some((st2, r, pos2))
{
    reveal(takes_all);
    if let Tree::Node(n, a, k) = t {
        let x = seq![Ev::End(n)] + r;
        assert(x.skip(1) =~= r);
        if k.len() == 0 {
            assert(y.skip(1) + r =~= x); assert(shown_all(Seq::<Ev>::empty(), k)); assert(Seq::<Ev>::empty() + x =~= x);
        } else {
            let j = choose|j: int| 1 <= j < y.len() && #[trigger] gap(y.subrange(j, y.len() - 1)) && shown_all(y.subrange(1, j), k);
            let z = y.subrange(1, j); let g = y.subrange(j, y.len() - 1);
            assert(y.skip(1) + r =~= z + (g + x));
            lemma_gap(step, n, g, x, st2, pos2);
        }
    }
}
// ---- values ----
/// The text of a leaf shown.
pub proof fn lemma_text(n: Seq<char>, a: Attrs, s: Seq<char>, y: Seq<Ev>, r: Seq<Ev>)
    requires shown(y, Tree::Leaf(n, a, s)) || (s.len() == 0 && shown(y, Tree::Node(n, a, seq![])))
    ensures text(y.skip(1) + r) == if s.len() == 0 { Some((None, r)) } else { Some((Some(s), seq![Ev::End(n)] + r)) }, rests(text(y.skip(1) + r).unwrap().1, n, r)
{
    let w = y.skip(1) + r;
    if s.len() == 0 { assert(w.skip(1) =~= r); assert(s =~= seq![]); } else { assert(w.skip(1) =~= seq![Ev::End(n)] + r); }
}
/// The times of an entry or a group.
pub open spec fn times_r() -> Step<VTimes> { |st: VTimes, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match times_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_times_run(ev: Seq<Ev>, st: VTimes, pos: int)
    ensures run(times_r(), "Times"@, ev, st, pos) == (match times_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match times_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_times_run(e, t, pos); }, None => {} },
            _ => lemma_times_run(ev.skip(1), st, pos),
        }
    }
}
/// A kind of value.
pub trait Reads { type V; spec fn get(ev: Seq<Ev>) -> Got<Self::V>; }
pub struct RText; impl Reads for RText { type V = Seq<char>; open spec fn get(ev: Seq<Ev>) -> Got<Seq<char>> { string(ev) } }
pub struct RBin; impl Reads for RBin { type V = Seq<u8>; open spec fn get(ev: Seq<Ev>) -> Got<Seq<u8>> { bin(ev) } }
pub struct RZip; impl Reads for RZip { type V = Seq<u8>; open spec fn get(ev: Seq<Ev>) -> Got<Seq<u8>> { zipped(ev) } }
pub struct RBool; impl Reads for RBool { type V = bool; open spec fn get(ev: Seq<Ev>) -> Got<bool> { boolean(ev) } }
pub struct RMaybe; impl Reads for RMaybe { type V = Option<bool>; open spec fn get(ev: Seq<Ev>) -> Got<Option<bool>> { bool_opt(ev) } }
pub struct RColor; impl Reads for RColor { type V = Option<Color>; open spec fn get(ev: Seq<Ev>) -> Got<Option<Color>> { color_opt(ev) } }
pub struct RTime; impl Reads for RTime { type V = DateTime<Utc>; open spec fn get(ev: Seq<Ev>) -> Got<DateTime<Utc>> { datetime(ev) } }
pub struct RNum; impl Reads for RNum { type V = i32; open spec fn get(ev: Seq<Ev>) -> Got<i32> { int32(ev) } }
pub struct RIcon; impl Reads for RIcon { type V = int; open spec fn get(ev: Seq<Ev>) -> Got<int> { icon(ev) } }
pub struct RObf; impl Reads for RObf { type V = int; open spec fn get(ev: Seq<Ev>) -> Got<int> { obfuscation(ev) } }
pub struct RId; impl Reads for RId { type V = Seq<u8>; open spec fn get(ev: Seq<Ev>) -> Got<Seq<u8>> { uuid(ev) } }
pub struct RIdOpt; impl Reads for RIdOpt { type V = Option<Seq<u8>>; open spec fn get(ev: Seq<Ev>) -> Got<Option<Seq<u8>>> { uuid_opt(ev) } }
/// Reading what is shown of an element gives v.
#[verifier::opaque]
pub open spec fn yields<R: Reads>(t: Tree, v: R::V) -> bool {
    forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) ==> (R::get(y.skip(1) + r) matches Some((x, e)) && x == v && rests(e, tag(t), r))
}
/// An element without content.
pub open spec fn bare(t: Tree) -> bool { t matches Tree::Node(_, _, k) && k.len() == 0 }
pub proof fn take<R: Reads, S>(step: Step<S>, t: Tree, st: S, pos: int, st2: S, v: R::V)
    requires yields::<R>(t, v), forall|ev: Seq<Ev>| (R::get(ev) matches Some((x, e)) && x == v) ==> #[trigger] step(st, tag(t), marks(t), ev, pos) == Some((st2, R::get(ev).unwrap().1, pos))
    ensures takes(step, t, st, pos, st2, pos)
{ reveal(takes); reveal(yields); }
pub proof fn lemma_not_blank(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i] != ' ', s[i] != '\t', s[i] != '\n', s[i] != '\r'
    ensures !blank(s)
{ let w = seq![' ', '\t', '\n', '\r']; assert(!w.contains(s[i])); }
pub broadcast proof fn yields_text(n: Seq<char>, a: Attrs, s: Seq<char>) ensures #[trigger] yields::<RText>(Tree::Leaf(n, a, s), s) {
    reveal(yields); let t = Tree::Leaf(n, a, s);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (string(y.skip(1) + r) matches Some((x, e)) && x == s && rests(e, n, r)) by { lemma_text(n, a, s, y, r); assert(s.len() == 0 ==> s =~= seq![]); }
}
/// Blank texts count as nothing when a value is read.
pub proof fn lemma_value(n: Seq<char>, a: Attrs, s: Seq<char>, y: Seq<Ev>, r: Seq<Ev>)
    requires shown(y, Tree::Leaf(n, a, s)) || (s.len() == 0 && shown(y, Tree::Node(n, a, seq![]))), s.len() == 0 || !blank(s)
    ensures value(y.skip(1) + r) matches Some((v, e)) && rests(e, n, r) && v == (if s.len() == 0 { None } else { Some(s) })
{ lemma_text(n, a, s, y, r); }
pub broadcast proof fn yields_time(n: Seq<char>, a: Attrs, d: DateTime<Utc>) ensures #[trigger] yields::<RTime>(Tree::Leaf(n, a, debug_text(&d)), d) {
    reveal(yields); let s = debug_text(&d); let t = Tree::Leaf(n, a, s);
    crate::vx::chrono::ax_time_text(d);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (datetime(y.skip(1) + r) matches Some((x, e)) && x == d && rests(e, n, r)) by { lemma_value(n, a, s, y, r); }
}
pub broadcast proof fn yields_num(n: Seq<char>, a: Attrs, d: i32) ensures #[trigger] yields::<RNum>(Tree::Leaf(n, a, dec_i32(d)), d) {
    reveal(yields); let s = dec_i32(d); let t = Tree::Leaf(n, a, s);
    crate::vx::ax_i32_text(d);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (int32(y.skip(1) + r) matches Some((x, e)) && x == d && rests(e, n, r)) by { lemma_value(n, a, s, y, r); }
}
pub broadcast proof fn yields_icon(n: Seq<char>, a: Attrs, i: Icon) ensures #[trigger] yields::<RIcon>(Tree::Leaf(n, a, dec_i32(icon_num(i) as i32)), icon_num(i)) {
    reveal(yields); let d = icon_num(i) as i32; let s = dec_i32(d); let t = Tree::Leaf(n, a, s);
    crate::vx::ax_i32_text(d);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (icon(y.skip(1) + r) matches Some((x, e)) && x == icon_num(i) && rests(e, n, r)) by { lemma_value(n, a, s, y, r); }
}
pub broadcast proof fn yields_obf(n: Seq<char>, a: Attrs, i: Obfuscation) ensures #[trigger] yields::<RObf>(Tree::Leaf(n, a, dec_i32(obf_num(i) as i32)), obf_num(i)) {
    reveal(yields); let d = obf_num(i) as i32; let s = dec_i32(d); let t = Tree::Leaf(n, a, s);
    crate::vx::ax_i32_text(d);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (obfuscation(y.skip(1) + r) matches Some((x, e)) && x == obf_num(i) && rests(e, n, r)) by { lemma_value(n, a, s, y, r); }
}
pub proof fn lemma_bool_text(b: Option<bool>) ensures !blank(bool_text(b)), lower(bool_text(b)) == bool_text(b), "true"@ != "false"@, "true"@ != "null"@, "null"@ != "false"@, plain_name(bool_text(b)) {
    reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null");
    let s = bool_text(b);
    lemma_not_blank(s, 0);
    ax_lower_ascii(s);
    assert(lower(s) =~= s);
    assert("true"@.len() == 4 && "false"@.len() == 5 && "true"@[0] == 't' && "null"@[0] == 'n' && "null"@.len() == 4);
}
pub broadcast proof fn yields_maybe(n: Seq<char>, a: Attrs, b: Option<bool>) ensures #[trigger] yields::<RMaybe>(Tree::Leaf(n, a, bool_text(b)), b) {
    reveal(yields); let s = bool_text(b); let t = Tree::Leaf(n, a, s);
    lemma_bool_text(b);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (bool_opt(y.skip(1) + r) matches Some((x, e)) && x == b && rests(e, n, r)) by { lemma_value(n, a, s, y, r); }
}
pub broadcast proof fn yields_bool(n: Seq<char>, a: Attrs, b: bool) ensures #[trigger] yields::<RBool>(Tree::Leaf(n, a, bool_text(Some(b))), b) {
    yields_maybe(n, a, Some(b)); reveal(yields);
}
pub broadcast proof fn yields_color(n: Seq<char>, c: Option<Color>) ensures #[trigger] yields::<RColor>(color_tree(n, c), c) {
    reveal(yields); let s = match c { Some(c) => color_text(c), None => seq![] };
    if let Some(c) = c { crate::types::color::color_codec_round_trip(c); lemma_not_blank(s, 0); }
    let t = color_tree(n, c);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (color_opt(y.skip(1) + r) matches Some((x, e)) && x == c && rests(e, n, r)) by { lemma_value(n, seq![], s, y, r); }
}
pub proof fn lemma_b64(d: Seq<u8>) ensures unb64(b64(d)) == Some(d), d.len() > 0 ==> !blank(b64(d)), b64(d).len() == 0 <==> d.len() == 0 {
    crate::vx::base64::ax_b64(d);
    if d.len() > 0 { assert(crate::vx::base64::b64_char(b64(d)[0])); lemma_not_blank(b64(d), 0); }
}
pub broadcast proof fn yields_bin(n: Seq<char>, a: Attrs, d: Seq<u8>) ensures #[trigger] yields::<RBin>(Tree::Leaf(n, a, b64(d)), d) {
    reveal(yields); let s = b64(d); let t = Tree::Leaf(n, a, s);
    lemma_b64(d);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (bin(y.skip(1) + r) matches Some((x, e)) && x == d && rests(e, n, r)) by { lemma_value(n, a, s, y, r); assert(d.len() == 0 ==> d =~= seq![]); }
}
pub broadcast proof fn yields_zip(n: Seq<char>, a: Attrs, d: Seq<u8>) ensures #[trigger] yields::<RZip>(Tree::Leaf(n, a, b64(gz(d))), d) {
    reveal(yields); let s = b64(gz(d)); let t = Tree::Leaf(n, a, s);
    crate::vx::flate2::ax_gz(d);
    lemma_b64(gz(d));
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (zipped(y.skip(1) + r) matches Some((x, e)) && x == d && rests(e, n, r)) by { lemma_value(n, a, s, y, r); }
}
pub broadcast proof fn yields_id_opt(n: Seq<char>, c: Option<CustomIconUuid>) ensures #[trigger] yields::<RIdOpt>(icon_tree(n, c), icon_id(c)) {
    reveal(yields); let s = match c { Some(u) => b64(u.0@), None => seq![] };
    if let Some(u) = c { crate::vx::uuid::ax_uuid_len(u.0); lemma_b64(u.0@); }
    let t = icon_tree(n, c);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (uuid_opt(y.skip(1) + r) matches Some((x, e)) && x == icon_id(c) && rests(e, n, r)) by { lemma_value(n, seq![], s, y, r); }
}
pub broadcast proof fn yields_id_some(n: Seq<char>, a: Attrs, u: Uuid) ensures #[trigger] yields::<RIdOpt>(Tree::Leaf(n, a, b64(u@)), Some(u@)) {
    reveal(yields); let s = b64(u@); let t = Tree::Leaf(n, a, s);
    crate::vx::uuid::ax_uuid_len(u); lemma_b64(u@);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (uuid_opt(y.skip(1) + r) matches Some((x, e)) && x == Some(u@) && rests(e, n, r)) by { lemma_value(n, a, s, y, r); }
}
pub broadcast proof fn yields_id(n: Seq<char>, a: Attrs, u: Uuid) ensures #[trigger] yields::<RId>(Tree::Leaf(n, a, b64(u@)), u@) {
    yields_id_some(n, a, u); reveal(yields);
}
pub broadcast group group_values { yields_text, yields_time, yields_num, yields_icon, yields_obf, yields_maybe, yields_bool, yields_color, yields_bin, yields_zip, yields_id_opt, yields_id_some, yields_id }
// ---- the sections, one by one ----
} // verus!
} // roundtrip
pub mod roundtrip_parts { // format/roundtrip_parts.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*;
verus! {

pub open spec fn kids(t: Tree) -> Seq<Tree> { match t { Tree::Leaf(_, _, _) => seq![], Tree::Node(_, _, k) => k } }
pub proof fn lemma_none_named() ensures all_named(Seq::<Tree>::empty()) {}
pub proof fn lemma_push_named(k: Seq<Tree>, t: Tree) requires all_named(k), named(t) ensures all_named(k.push(t)) { assert(k.push(t).drop_last() =~= k); }
pub proof fn lemma_times(t: VTimes, st: VTimes, pos: int)
    ensures takes_all(times_r(), "Times"@, kids(times_tree(t)), st, pos, t, pos), named(times_tree(t))
{
    times_names();
    let k0 = Seq::<Tree>::empty(); let s0 = st;
    lemma_none(times_r(), "Times"@, s0, pos); lemma_none_named();
    yields_time("CreationTime"@, seq![], t.creation);
    let t1 = time_leaf("CreationTime"@, t.creation); let s1 = VTimes { creation: t.creation, ..s0 }; let k1 = k0.push(t1);
    take::<RTime, VTimes>(times_r(), t1, s0, pos, s1, t.creation);
    lemma_push(times_r(), "Times"@, k0, t1, st, pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    yields_time("ExpiryTime"@, seq![], t.expiry);
    let t2 = time_leaf("ExpiryTime"@, t.expiry); let s2 = VTimes { expiry: t.expiry, ..s1 }; let k2 = k1.push(t2);
    take::<RTime, VTimes>(times_r(), t2, s1, pos, s2, t.expiry);
    lemma_push(times_r(), "Times"@, k1, t2, st, pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
    yields_bool("Expires"@, seq![], t.expires);
    let t3 = leaf("Expires"@, bool_text(Some(t.expires))); let s3 = VTimes { expires: t.expires, ..s2 }; let k3 = k2.push(t3);
    take::<RBool, VTimes>(times_r(), t3, s2, pos, s3, t.expires);
    lemma_push(times_r(), "Times"@, k2, t3, st, pos, s2, pos, s3, pos); lemma_push_named(k2, t3);
    yields_time("LastAccessTime"@, seq![], t.accessed);
    let t4 = time_leaf("LastAccessTime"@, t.accessed); let s4 = VTimes { accessed: t.accessed, ..s3 }; let k4 = k3.push(t4);
    take::<RTime, VTimes>(times_r(), t4, s3, pos, s4, t.accessed);
    lemma_push(times_r(), "Times"@, k3, t4, st, pos, s3, pos, s4, pos); lemma_push_named(k3, t4);
    yields_time("LastModificationTime"@, seq![], t.modified);
    let t5 = time_leaf("LastModificationTime"@, t.modified); let s5 = VTimes { modified: t.modified, ..s4 }; let k5 = k4.push(t5);
    take::<RTime, VTimes>(times_r(), t5, s4, pos, s5, t.modified);
    lemma_push(times_r(), "Times"@, k4, t5, st, pos, s4, pos, s5, pos); lemma_push_named(k4, t5);
    yields_time("LocationChanged"@, seq![], t.moved);
    let t6 = time_leaf("LocationChanged"@, t.moved); let s6 = VTimes { moved: t.moved, ..s5 }; let k6 = k5.push(t6);
    take::<RTime, VTimes>(times_r(), t6, s5, pos, s6, t.moved);
    lemma_push(times_r(), "Times"@, k5, t6, st, pos, s5, pos, s6, pos); lemma_push_named(k5, t6);
    yields_num("UsageCount"@, seq![], t.count);
    let t7 = leaf("UsageCount"@, dec_i32(t.count)); let s7 = VTimes { count: t.count, ..s6 }; let k7 = k6.push(t7);
    take::<RNum, VTimes>(times_r(), t7, s6, pos, s7, t.count);
    lemma_push(times_r(), "Times"@, k6, t7, st, pos, s6, pos, s7, pos); lemma_push_named(k6, t7);
}


pub open spec fn item_r() -> Step<Two<Seq<char>, Seq<char>>> { |st: Two<Seq<char>, Seq<char>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match item_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_item_run(ev: Seq<Ev>, st: Two<Seq<char>, Seq<char>>, pos: int)
    ensures run(item_r(), "Item"@, ev, st, pos) == (match item_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match item_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_item_run(e, t, pos); }, None => {} },
            _ => lemma_item_run(ev.skip(1), st, pos),
        }
    }
}


pub proof fn lemma_item(k: Seq<char>, v: Seq<char>, pos: int)
    ensures takes_all(item_r(), "Item"@, kids(item_tree(k, v)), none(), pos, Two { a: Some(k), b: Some(v) }, pos), named(item_tree(k, v))
{
    item_names();
    let k0 = Seq::<Tree>::empty(); let s0 = none::<Seq<char>, Seq<char>>();
    lemma_none(item_r(), "Item"@, s0, pos); lemma_none_named();
    yields_text("Key"@, seq![], k);
    let t1 = leaf("Key"@, k); let s1 = Two { a: Some(k), ..s0 }; let k1 = k0.push(t1);
    take::<RText, Two<Seq<char>, Seq<char>>>(item_r(), t1, s0, pos, s1, k);
    lemma_push(item_r(), "Item"@, k0, t1, none::<Seq<char>, Seq<char>>(), pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    yields_text("Value"@, seq![], v);
    let t2 = leaf("Value"@, v); let s2 = Two { b: Some(v), ..s1 }; let k2 = k1.push(t2);
    take::<RText, Two<Seq<char>, Seq<char>>>(item_r(), t2, s1, pos, s2, v);
    lemma_push(item_r(), "Item"@, k1, t2, none::<Seq<char>, Seq<char>>(), pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
}


pub open spec fn picture_r() -> Step<Two<Seq<u8>, Seq<u8>>> { |st: Two<Seq<u8>, Seq<u8>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match picture_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_picture_run(ev: Seq<Ev>, st: Two<Seq<u8>, Seq<u8>>, pos: int)
    ensures run(picture_r(), "Icon"@, ev, st, pos) == (match picture_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match picture_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_picture_run(e, t, pos); }, None => {} },
            _ => lemma_picture_run(ev.skip(1), st, pos),
        }
    }
}


pub proof fn lemma_picture(u: CustomIconUuid, d: Seq<u8>, pos: int)
    ensures takes_all(picture_r(), "Icon"@, kids(picture_tree(u, d)), none(), pos, Two { a: Some(u.0@), b: Some(d) }, pos), named(picture_tree(u, d))
{
    picture_names();
    let k0 = Seq::<Tree>::empty(); let s0 = none::<Seq<u8>, Seq<u8>>();
    lemma_none(picture_r(), "Icon"@, s0, pos); lemma_none_named();
    yields_id_some("UUID"@, seq![], u.0);
    let t1 = leaf("UUID"@, b64(u.0@)); let s1 = Two { a: Some(u.0@), ..s0 }; let k1 = k0.push(t1);
    take::<RIdOpt, Two<Seq<u8>, Seq<u8>>>(picture_r(), t1, s0, pos, s1, Some(u.0@));
    lemma_push(picture_r(), "Icon"@, k0, t1, none::<Seq<u8>, Seq<u8>>(), pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    yields_bin("Data"@, seq![], d);
    let t2 = leaf("Data"@, b64(d)); let s2 = Two { b: Some(d), ..s1 }; let k2 = k1.push(t2);
    take::<RBin, Two<Seq<u8>, Seq<u8>>>(picture_r(), t2, s1, pos, s2, d);
    lemma_push(picture_r(), "Icon"@, k1, t2, none::<Seq<u8>, Seq<u8>>(), pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
}


pub open spec fn assoc_step(st: Two<Seq<char>, Seq<char>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>) -> Got<Two<Seq<char>, Seq<char>>> {
    if n == "KeystrokeSequence"@ { match string(ev) { Some((v, e)) => Some((Two { a: Some(v), ..st }, e)), None => None } }
    else if n == "Window"@ { match string(ev) { Some((v, e)) => Some((Two { b: Some(v), ..st }, e)), None => None } }
    else { Some((st, ev)) }
}
pub open spec fn assoc_r() -> Step<Two<Seq<char>, Seq<char>>> { |st: Two<Seq<char>, Seq<char>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match assoc_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_assoc_run(ev: Seq<Ev>, st: Two<Seq<char>, Seq<char>>, pos: int)
    ensures run(assoc_r(), "Association"@, ev, st, pos) matches Some((t, e, p)) ==> p == pos && assoc_from(ev, st) == (match both(t) { Some((a, b)) => Some(VAssoc { keys: a, win: b }), None => None }, e)
    decreases ev.len()
{
    assoc_names();
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match assoc_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_assoc_run(e, t, pos); }, None => {} },
            _ => lemma_assoc_run(ev.skip(1), st, pos),
        }
    }
}
pub proof fn lemma_assoc(x: Association, pos: int)
    ensures takes_all(assoc_r(), "Association"@, kids(assoc_tree(x)), none(), pos, Two { a: Some(x.keystroke_sequence@), b: Some(x.window@) }, pos), named(assoc_tree(x))
{
    assoc_names();
    let k0 = Seq::<Tree>::empty(); let s0 = none::<Seq<char>, Seq<char>>();
    lemma_none(assoc_r(), "Association"@, s0, pos); lemma_none_named();
    yields_text("KeystrokeSequence"@, seq![], x.keystroke_sequence@);
    let t1 = leaf("KeystrokeSequence"@, x.keystroke_sequence@); let s1 = Two { a: Some(x.keystroke_sequence@), ..s0 }; let k1 = k0.push(t1);
    take::<RText, Two<Seq<char>, Seq<char>>>(assoc_r(), t1, s0, pos, s1, x.keystroke_sequence@);
    lemma_push(assoc_r(), "Association"@, k0, t1, none::<Seq<char>, Seq<char>>(), pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    yields_text("Window"@, seq![], x.window@);
    let t2 = leaf("Window"@, x.window@); let s2 = Two { b: Some(x.window@), ..s1 }; let k2 = k1.push(t2);
    take::<RText, Two<Seq<char>, Seq<char>>>(assoc_r(), t2, s1, pos, s2, x.window@);
    lemma_push(assoc_r(), "Association"@, k1, t2, none::<Seq<char>, Seq<char>>(), pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
}


pub open spec fn protection_r() -> Step<VProtect> { |st: VProtect, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match protection_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_protection_run(ev: Seq<Ev>, st: VProtect, pos: int)
    ensures run(protection_r(), "MemoryProtection"@, ev, st, pos) == (match protection_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match protection_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_protection_run(e, t, pos); }, None => {} },
            _ => lemma_protection_run(ev.skip(1), st, pos),
        }
    }
}


pub open spec fn vprotect(d: Database) -> VProtect { VProtect { protect_notes: d.protect_notes, protect_password: d.protect_password, protect_title: d.protect_title, protect_url: d.protect_url, protect_username: d.protect_username } }
pub proof fn lemma_protection(d: Database, st: VProtect, pos: int)
    ensures takes_all(protection_r(), "MemoryProtection"@, kids(protection_tree(d)), st, pos, vprotect(d), pos), named(protection_tree(d))
{
    protection_names();
    let k0 = Seq::<Tree>::empty(); let s0 = st;
    lemma_none(protection_r(), "MemoryProtection"@, s0, pos); lemma_none_named();
    yields_bool("ProtectNotes"@, seq![], d.protect_notes);
    let t1 = leaf("ProtectNotes"@, bool_text(Some(d.protect_notes))); let s1 = VProtect { protect_notes: d.protect_notes, ..s0 }; let k1 = k0.push(t1);
    take::<RBool, VProtect>(protection_r(), t1, s0, pos, s1, d.protect_notes);
    lemma_push(protection_r(), "MemoryProtection"@, k0, t1, st, pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    yields_bool("ProtectPassword"@, seq![], d.protect_password);
    let t2 = leaf("ProtectPassword"@, bool_text(Some(d.protect_password))); let s2 = VProtect { protect_password: d.protect_password, ..s1 }; let k2 = k1.push(t2);
    take::<RBool, VProtect>(protection_r(), t2, s1, pos, s2, d.protect_password);
    lemma_push(protection_r(), "MemoryProtection"@, k1, t2, st, pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
    yields_bool("ProtectTitle"@, seq![], d.protect_title);
    let t3 = leaf("ProtectTitle"@, bool_text(Some(d.protect_title))); let s3 = VProtect { protect_title: d.protect_title, ..s2 }; let k3 = k2.push(t3);
    take::<RBool, VProtect>(protection_r(), t3, s2, pos, s3, d.protect_title);
    lemma_push(protection_r(), "MemoryProtection"@, k2, t3, st, pos, s2, pos, s3, pos); lemma_push_named(k2, t3);
    yields_bool("ProtectURL"@, seq![], d.protect_url);
    let t4 = leaf("ProtectURL"@, bool_text(Some(d.protect_url))); let s4 = VProtect { protect_url: d.protect_url, ..s3 }; let k4 = k3.push(t4);
    take::<RBool, VProtect>(protection_r(), t4, s3, pos, s4, d.protect_url);
    lemma_push(protection_r(), "MemoryProtection"@, k3, t4, st, pos, s3, pos, s4, pos); lemma_push_named(k3, t4);
    yields_bool("ProtectUserName"@, seq![], d.protect_username);
    let t5 = leaf("ProtectUserName"@, bool_text(Some(d.protect_username))); let s5 = VProtect { protect_username: d.protect_username, ..s4 }; let k5 = k4.push(t5);
    take::<RBool, VProtect>(protection_r(), t5, s4, pos, s5, d.protect_username);
    lemma_push(protection_r(), "MemoryProtection"@, k4, t5, st, pos, s4, pos, s5, pos); lemma_push_named(k4, t5);
}

pub proof fn times_names()
    ensures
        plain_name("CreationTime"@), "CreationTime"@.len() == 12,
        plain_name("Expires"@), "Expires"@.len() == 7,
        plain_name("ExpiryTime"@), "ExpiryTime"@.len() == 10, "ExpiryTime"@[0] == 'E',
        plain_name("LastAccessTime"@), "LastAccessTime"@.len() == 14,
        plain_name("LastModificationTime"@), "LastModificationTime"@.len() == 20,
        plain_name("LocationChanged"@), "LocationChanged"@.len() == 15,
        plain_name("Times"@), "Times"@.len() == 5,
        plain_name("UsageCount"@), "UsageCount"@.len() == 10, "UsageCount"@[0] == 'U',
{
    assert(plain_name("CreationTime"@)) by { reveal_strlit("CreationTime"); } reveal_strlit("CreationTime");
    assert(plain_name("Expires"@)) by { reveal_strlit("Expires"); } reveal_strlit("Expires");
    assert(plain_name("ExpiryTime"@)) by { reveal_strlit("ExpiryTime"); } reveal_strlit("ExpiryTime");
    assert(plain_name("LastAccessTime"@)) by { reveal_strlit("LastAccessTime"); } reveal_strlit("LastAccessTime");
    assert(plain_name("LastModificationTime"@)) by { reveal_strlit("LastModificationTime"); } reveal_strlit("LastModificationTime");
    assert(plain_name("LocationChanged"@)) by { reveal_strlit("LocationChanged"); } reveal_strlit("LocationChanged");
    assert(plain_name("Times"@)) by { reveal_strlit("Times"); } reveal_strlit("Times");
    assert(plain_name("UsageCount"@)) by { reveal_strlit("UsageCount"); } reveal_strlit("UsageCount");
}

pub proof fn item_names()
    ensures
        plain_name("Item"@), "Item"@.len() == 4,
        plain_name("Key"@), "Key"@.len() == 3,
        plain_name("Value"@), "Value"@.len() == 5,
{
    assert(plain_name("Item"@)) by { reveal_strlit("Item"); } reveal_strlit("Item");
    assert(plain_name("Key"@)) by { reveal_strlit("Key"); } reveal_strlit("Key");
    assert(plain_name("Value"@)) by { reveal_strlit("Value"); } reveal_strlit("Value");
}

pub proof fn picture_names()
    ensures
        plain_name("Data"@), "Data"@.len() == 4, "Data"@[0] == 'D',
        plain_name("Icon"@), "Icon"@.len() == 4, "Icon"@[0] == 'I',
        plain_name("UUID"@), "UUID"@.len() == 4, "UUID"@[0] == 'U',
{
    assert(plain_name("Data"@)) by { reveal_strlit("Data"); } reveal_strlit("Data");
    assert(plain_name("Icon"@)) by { reveal_strlit("Icon"); } reveal_strlit("Icon");
    assert(plain_name("UUID"@)) by { reveal_strlit("UUID"); } reveal_strlit("UUID");
}

pub proof fn assoc_names()
    ensures
        plain_name("Association"@), "Association"@.len() == 11,
        plain_name("KeystrokeSequence"@), "KeystrokeSequence"@.len() == 17,
        plain_name("Window"@), "Window"@.len() == 6,
{
    assert(plain_name("Association"@)) by { reveal_strlit("Association"); } reveal_strlit("Association");
    assert(plain_name("KeystrokeSequence"@)) by { reveal_strlit("KeystrokeSequence"); } reveal_strlit("KeystrokeSequence");
    assert(plain_name("Window"@)) by { reveal_strlit("Window"); } reveal_strlit("Window");
}

pub proof fn protection_names()
    ensures
        plain_name("MemoryProtection"@), "MemoryProtection"@.len() == 16,
        plain_name("ProtectNotes"@), "ProtectNotes"@.len() == 12, "ProtectNotes"@[7] == 'N',
        plain_name("ProtectPassword"@), "ProtectPassword"@.len() == 15, "ProtectPassword"@[7] == 'P',
        plain_name("ProtectTitle"@), "ProtectTitle"@.len() == 12, "ProtectTitle"@[7] == 'T',
        plain_name("ProtectURL"@), "ProtectURL"@.len() == 10,
        plain_name("ProtectUserName"@), "ProtectUserName"@.len() == 15, "ProtectUserName"@[7] == 'U',
{
    assert(plain_name("MemoryProtection"@)) by { reveal_strlit("MemoryProtection"); } reveal_strlit("MemoryProtection");
    assert(plain_name("ProtectNotes"@)) by { reveal_strlit("ProtectNotes"); } reveal_strlit("ProtectNotes");
    assert(plain_name("ProtectPassword"@)) by { reveal_strlit("ProtectPassword"); } reveal_strlit("ProtectPassword");
    assert(plain_name("ProtectTitle"@)) by { reveal_strlit("ProtectTitle"); } reveal_strlit("ProtectTitle");
    assert(plain_name("ProtectURL"@)) by { reveal_strlit("ProtectURL"); } reveal_strlit("ProtectURL");
    assert(plain_name("ProtectUserName"@)) by { reveal_strlit("ProtectUserName"); } reveal_strlit("ProtectUserName");
}

} // verus!
} // roundtrip_parts
pub mod roundtrip_values { // format/roundtrip_values.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*; use crate::format::roundtrip_parts::*;
verus! {

/// A section takes an element that holds a section of its own.
pub proof fn section<S, I>(step: Step<S>, t: Tree, st: S, pos: int, st2: S, pos2: int, inner: Step<I>, i0: I, i2: I)
    requires
        t is Node, takes_all(inner, tag(t), kids(t), i0, pos, i2, pos2),
        forall|ev: Seq<Ev>| (run(inner, tag(t), ev, i0, pos) matches Some((x, e, p)) && x == i2 && p == pos2) ==> #[trigger] step(st, tag(t), marks(t), ev, pos) == Some((st2, run(inner, tag(t), ev, i0, pos).unwrap().1, pos2)),
    ensures takes(step, t, st, pos, st2, pos2)
{
    reveal(takes);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (step(st, tag(t), marks(t), y.skip(1) + r, pos) matches Some((s, e, p)) && s == st2 && p == pos2 && rests(e, tag(t), r)) by {
        lemma_node(inner, t, y, r, i0, pos, i2, pos2);
    }
}
/// A section takes an element that holds a section of its own.
pub proof fn section_whole<S, I>(step: Step<S>, t: Tree, st: S, pos: int, st2: S, pos2: int, inner: Step<I>, i0: I, i2: I)
    requires
        t is Node, takes_all(inner, tag(t), kids(t), i0, pos, i2, pos2),
        forall|ev: Seq<Ev>| (run(inner, tag(t), ev, i0, pos) matches Some((x, e, p)) && x == i2 && p == pos2) ==> #[trigger] step(st, tag(t), marks(t), ev, pos) == Some((st2, run(inner, tag(t), ev, i0, pos).unwrap().1, pos2)),
    ensures takes_whole(step, t, st, pos, st2, pos2)
{
    reveal(takes_whole);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies step(st, tag(t), marks(t), y.skip(1) + r, pos) == Some((st2, r, pos2)) by {
        lemma_node(inner, t, y, r, i0, pos, i2, pos2);
    }
}
pub proof fn lemma_all_named(k: Seq<Tree>, l: Seq<Tree>) requires all_named(k), all_named(l) ensures all_named(k + l) decreases l.len()
{ if l.len() == 0 { assert(k + l =~= k); } else { assert((k + l).drop_last() =~= k + l.drop_last()); lemma_all_named(k, l.drop_last()); } }
// ---- automatic typing ----


pub open spec fn auto_r() -> Step<VEntry> { |st: VEntry, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match auto_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_auto_run(ev: Seq<Ev>, st: VEntry, pos: int)
    ensures run(auto_r(), "AutoType"@, ev, st, pos) == (match auto_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match auto_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_auto_run(e, t, pos); }, None => {} },
            _ => lemma_auto_run(ev.skip(1), st, pos),
        }
    }
}

pub proof fn auto_names()
    ensures
        plain_name("Association"@), "Association"@.len() == 11,
        plain_name("AutoType"@), "AutoType"@.len() == 8,
        plain_name("DataTransferObfuscation"@), "DataTransferObfuscation"@.len() == 23,
        plain_name("DefaultSequence"@), "DefaultSequence"@.len() == 15,
        plain_name("Enabled"@), "Enabled"@.len() == 7,
{
    assert(plain_name("Association"@)) by { reveal_strlit("Association"); } reveal_strlit("Association");
    assert(plain_name("AutoType"@)) by { reveal_strlit("AutoType"); } reveal_strlit("AutoType");
    assert(plain_name("DataTransferObfuscation"@)) by { reveal_strlit("DataTransferObfuscation"); } reveal_strlit("DataTransferObfuscation");
    assert(plain_name("DefaultSequence"@)) by { reveal_strlit("DefaultSequence"); } reveal_strlit("DefaultSequence");
    assert(plain_name("Enabled"@)) by { reveal_strlit("Enabled"); } reveal_strlit("Enabled");
}


pub proof fn lemma_auto_head(e: Entry, st: VEntry, pos: int)
    ensures takes_all(auto_r(), "AutoType"@, auto_type_head(e), st, pos, VEntry { obf: obf_num(e.auto_type_obfuscation), sequence: e.auto_type_def_sequence@, enabled: e.auto_type_enabled, ..st }, pos), all_named(auto_type_head(e))
{
    auto_names();
    let k0 = Seq::<Tree>::empty(); let s0 = st;
    lemma_none(auto_r(), "AutoType"@, s0, pos); lemma_none_named();
    yields_obf("DataTransferObfuscation"@, seq![], e.auto_type_obfuscation);
    let t1 = leaf("DataTransferObfuscation"@, dec_i32(obf_num(e.auto_type_obfuscation) as i32)); let s1 = VEntry { obf: obf_num(e.auto_type_obfuscation), ..s0 }; let k1 = k0.push(t1);
    take::<RObf, VEntry>(auto_r(), t1, s0, pos, s1, obf_num(e.auto_type_obfuscation));
    lemma_push(auto_r(), "AutoType"@, k0, t1, st, pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    yields_text("DefaultSequence"@, seq![], e.auto_type_def_sequence@);
    let t2 = leaf("DefaultSequence"@, e.auto_type_def_sequence@); let s2 = VEntry { sequence: e.auto_type_def_sequence@, ..s1 }; let k2 = k1.push(t2);
    take::<RText, VEntry>(auto_r(), t2, s1, pos, s2, e.auto_type_def_sequence@);
    lemma_push(auto_r(), "AutoType"@, k1, t2, st, pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
    yields_bool("Enabled"@, seq![], e.auto_type_enabled);
    let t3 = leaf("Enabled"@, bool_text(Some(e.auto_type_enabled))); let s3 = VEntry { enabled: e.auto_type_enabled, ..s2 }; let k3 = k2.push(t3);
    take::<RBool, VEntry>(auto_r(), t3, s2, pos, s3, e.auto_type_enabled);
    lemma_push(auto_r(), "AutoType"@, k2, t3, st, pos, s2, pos, s3, pos); lemma_push_named(k2, t3);
}
pub proof fn lemma_auto_list(k: Seq<Tree>, l: Seq<Association>, st0: VEntry, st: VEntry, pos: int)
    requires takes_all(auto_r(), "AutoType"@, k, st0, pos, st, pos), all_named(k)
    ensures takes_all(auto_r(), "AutoType"@, k + assocs(l), st0, pos, VEntry { assocs: st.assocs + vassocs(l), ..st }, pos), all_named(k + assocs(l))
    decreases l.len()
{
    if l.len() == 0 { assert(k + assocs(l) =~= k); assert(st.assocs + vassocs(l) =~= st.assocs); } else {
        let d = l.drop_last(); let x = l.last(); let t = assoc_tree(x);
        lemma_auto_list(k, d, st0, st, pos);
        assert(k + assocs(l) =~= (k + assocs(d)).push(t)); assert(st.assocs + vassocs(l) =~= (st.assocs + vassocs(d)).push(vassoc(x)));
        let s = VEntry { assocs: st.assocs + vassocs(d), ..st }; let s2 = VEntry { assocs: st.assocs + vassocs(l), ..st };
        let z = Two { a: Some(x.keystroke_sequence@), b: Some(x.window@) };
        auto_names(); lemma_assoc(x, pos);
        assert forall|ev: Seq<Ev>| (run(assoc_r(), "Association"@, ev, none(), pos) matches Some((y, e, p)) && y == z && p == pos) implies #[trigger] auto_r()(s, "Association"@, marks(t), ev, pos) == Some((s2, run(assoc_r(), "Association"@, ev, none(), pos).unwrap().1, pos)) by { lemma_assoc_run(ev, none(), pos); }
        section(auto_r(), t, s, pos, s2, pos, assoc_r(), none(), z);
        lemma_push(auto_r(), "AutoType"@, k + assocs(d), t, st0, pos, s, pos, s2, pos); lemma_push_named(k + assocs(d), t);
    }
}
pub open spec fn autoed(e: Entry, st: VEntry) -> VEntry { VEntry { obf: obf_num(e.auto_type_obfuscation), sequence: e.auto_type_def_sequence@, enabled: e.auto_type_enabled, assocs: st.assocs + vassocs(e.associations@), ..st } }
pub proof fn lemma_auto(e: Entry, st: VEntry, pos: int)
    ensures takes_all(auto_r(), "AutoType"@, kids(auto_type_tree(e)), st, pos, autoed(e, st), pos), named(auto_type_tree(e))
{
    auto_names(); lemma_auto_head(e, st, pos);
    lemma_auto_list(auto_type_head(e), e.associations@, st, VEntry { obf: obf_num(e.auto_type_obfuscation), sequence: e.auto_type_def_sequence@, enabled: e.auto_type_enabled, ..st }, pos);
}
// ---- strings and binaries: C08 ----


pub open spec fn bin_r(ks: Ks) -> Step<Two<BinaryKey, VBin>> { |st: Two<BinaryKey, VBin>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| bin_step(st, n, a, ev, ks, pos) }
pub proof fn lemma_bin_run(ev: Seq<Ev>, st: Two<BinaryKey, VBin>, ks: Ks, pos: int)
    ensures run(bin_r(ks), "Binary"@, ev, st, pos) == bin_from(ev, st, ks, pos)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match bin_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_bin_run(e, t, ks, p); }, None => {} },
            _ => lemma_bin_run(ev.skip(1), st, ks, pos),
        }
    }
}


pub open spec fn str_r(ks: Ks) -> Step<Two<StringKey, VStr>> { |st: Two<StringKey, VStr>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| str_step(st, n, a, ev, ks, pos) }
pub proof fn lemma_str_run(ev: Seq<Ev>, st: Two<StringKey, VStr>, ks: Ks, pos: int)
    ensures run(str_r(ks), "String"@, ev, st, pos) == str_from(ev, st, ks, pos)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match str_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_str_run(e, t, ks, p); }, None => {} },
            _ => lemma_str_run(ev.skip(1), st, ks, pos),
        }
    }
}

pub proof fn value_names()
    ensures
        plain_name("Binary"@), "Binary"@.len() == 6, "Binary"@[0] == 'B',
        plain_name("Compressed"@), "Compressed"@.len() == 10,
        plain_name("ID"@), "ID"@.len() == 2,
        plain_name("Key"@), "Key"@.len() == 3, "Key"@[0] == 'K',
        plain_name("Protected"@), "Protected"@.len() == 9,
        plain_name("Ref"@), "Ref"@.len() == 3, "Ref"@[0] == 'R',
        plain_name("String"@), "String"@.len() == 6, "String"@[0] == 'S',
        plain_name("Value"@), "Value"@.len() == 5,
{
    assert(plain_name("Binary"@)) by { reveal_strlit("Binary"); } reveal_strlit("Binary");
    assert(plain_name("Compressed"@)) by { reveal_strlit("Compressed"); } reveal_strlit("Compressed");
    assert(plain_name("ID"@)) by { reveal_strlit("ID"); } reveal_strlit("ID");
    assert(plain_name("Key"@)) by { reveal_strlit("Key"); } reveal_strlit("Key");
    assert(plain_name("Protected"@)) by { reveal_strlit("Protected"); } reveal_strlit("Protected");
    assert(plain_name("Ref"@)) by { reveal_strlit("Ref"); } reveal_strlit("Ref");
    assert(plain_name("String"@)) by { reveal_strlit("String"); } reveal_strlit("String");
    assert(plain_name("Value"@)) by { reveal_strlit("Value"); } reveal_strlit("Value");
}


pub proof fn lemma_marks(s: Seq<char>)
    ensures
        attr_val(protected(), "protected"@) == Some("True"@), attr_val(protected(), "protectinmemory"@) is None, attr_val(protected(), "ref"@) is None,
        flag(protected(), "protected"@) == Some(true), flag(protected(), "protectinmemory"@) == Some(false),
        attr_val(seq![("Ref"@, s)], "ref"@) == Some(s), flag(seq![("Ref"@, s)], "protected"@) == Some(false),
        attr_val(seq![("ID"@, s), ("Compressed"@, "True"@)], "id"@) == Some(s), flag(seq![("ID"@, s), ("Compressed"@, "True"@)], "compressed"@) == Some(true),
        forall|n: Seq<char>| #[trigger] attr_val(seq![], n) is None, forall|n: Seq<char>| #[trigger] flag(seq![], n) == Some(false),
        plain_marks(protected()), plain_marks(seq![("Ref"@, s)]), plain_marks(seq![("ID"@, s), ("Compressed"@, "True"@)]),
{
    value_names();
    reveal_strlit("Protected"); reveal_strlit("protected"); reveal_strlit("protectinmemory"); reveal_strlit("Ref"); reveal_strlit("ref"); reveal_strlit("True"); reveal_strlit("true");
    reveal_strlit("ID"); reveal_strlit("id"); reveal_strlit("Compressed"); reveal_strlit("compressed");
    ax_lower_ascii("Protected"@); ax_lower_ascii("protected"@); ax_lower_ascii("protectinmemory"@); ax_lower_ascii("Ref"@); ax_lower_ascii("ref"@); ax_lower_ascii("True"@);
    ax_lower_ascii("ID"@); ax_lower_ascii("id"@); ax_lower_ascii("Compressed"@); ax_lower_ascii("compressed"@);
    assert(lower("Protected"@) =~= lower("protected"@)); assert(lower("Ref"@) =~= lower("ref"@)); assert(lower("True"@) =~= "true"@); assert(lower("ID"@) =~= lower("id"@)); assert(lower("Compressed"@) =~= lower("compressed"@));
    assert(lower("Protected"@).len() == 9 && lower("protectinmemory"@).len() == 15 && lower("ref"@).len() == 3 && lower("id"@).len() == 2 && lower("compressed"@).len() == 10);
    assert(lower("compressed"@) != lower("id"@)); assert(lower("protected"@) != lower("ref"@));
    let p = protected(); assert(p.skip(1) =~= seq![]); assert(p[0] == ("Protected"@, "True"@));
    reveal_with_fuel(attr_val, 3);
    let q: Attrs = seq![("Ref"@, s)]; assert(q.skip(1) =~= seq![]); assert(q[0].0 == "Ref"@);
    let d: Attrs = seq![("ID"@, s), ("Compressed"@, "True"@)]; assert(d.skip(1) =~= seq![("Compressed"@, "True"@)]); assert(d[0].0 == "ID"@);
    assert(d.skip(1)[0].0 == "Compressed"@); assert(d.skip(1).skip(1) =~= seq![]);
}
pub proof fn lemma_xored(d: Seq<u8>, ks: Ks, pos: int) ensures xored(xored(d, ks, pos), ks, pos) == d, xored(d, ks, pos).len() == d.len()
{
    assert forall|i: int| 0 <= i < d.len() implies xored(xored(d, ks, pos), ks, pos)[i] == d[i] by { let a = d[i]; let b = ks(pos + i); assert((a ^ b) ^ b == a) by (bit_vector); }
    assert(xored(xored(d, ks, pos), ks, pos) =~= d);
}
pub open spec fn binary_leaf(v: BinaryValue, ks: Ks, pos: int) -> Tree {
    match v {
        BinaryValue::Plain(d) => leaf("Value"@, b64(d@)),
        BinaryValue::Protected(x) => Tree::Leaf("Value"@, protected(), b64(xored(x@, ks, pos))),
        BinaryValue::Ref(i) => Tree::Node("Value"@, seq![("Ref"@, i.0@)], seq![]),
    }
}
/// A protected binary is read back from the piece of the keystream it was hidden with; nothing else uses any.
pub proof fn lemma_binary_value(v: BinaryValue, ks: Ks, pos: int, st: Two<BinaryKey, VBin>)
    ensures takes(bin_r(ks), binary_leaf(v, ks, pos), st, pos, Two { b: Some(vbin(v)), ..st }, pos + binary_used(v)), named(binary_leaf(v, ks, pos))
{
    hide(bin); hide(xored); hide(plain_name);
    reveal(takes); value_names();
    let t = binary_leaf(v, ks, pos); let st2 = Two { b: Some(vbin(v)), ..st }; let pos2 = pos + binary_used(v);
    match v { BinaryValue::Plain(d) => { yields_bin("Value"@, seq![], d@); lemma_marks(seq![]); }, BinaryValue::Protected(x) => { yields_bin("Value"@, protected(), xored(x@, ks, pos)); lemma_xored(x@, ks, pos); lemma_marks(seq![]); }, BinaryValue::Ref(i) => { lemma_marks(i.0@); } }
    reveal(yields);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (bin_r(ks)(st, tag(t), marks(t), y.skip(1) + r, pos) matches Some((s, e, p)) && s == st2 && p == pos2 && rests(e, tag(t), r)) by {
        let w = y.skip(1) + r;
        match v {
            BinaryValue::Plain(d) => { let g = RBin::get(w); assert(g.unwrap().0 == d@); },
            BinaryValue::Protected(x) => { let g = RBin::get(w); assert(g.unwrap().0 == xored(x@, ks, pos)); },
            BinaryValue::Ref(i) => { assert(w =~= seq![Ev::End("Value"@)] + r); },
        }
    }
}
pub proof fn lemma_binary(k: BinaryKey, v: BinaryValue, ks: Ks, pos: int)
    ensures takes_all(bin_r(ks), "Binary"@, kids(binary_tree(k, v, ks, pos)), none(), pos, Two { a: Some(k), b: Some(vbin(v)) }, pos + binary_used(v)), named(binary_tree(k, v, ks, pos))
{
    value_names(); broadcast use crate::vx::lemma_string_of;
    let n0 = none::<BinaryKey, VBin>(); let s1 = Two { a: Some(k), ..n0 }; let k0 = Seq::<Tree>::empty(); let t1 = leaf("Key"@, k.0@); let t2 = binary_leaf(v, ks, pos);
    yields_text("Key"@, seq![], k.0@); take::<RText, Two<BinaryKey, VBin>>(bin_r(ks), t1, n0, pos, s1, k.0@);
    lemma_none(bin_r(ks), "Binary"@, n0, pos); lemma_none_named();
    lemma_push(bin_r(ks), "Binary"@, k0, t1, n0, pos, n0, pos, s1, pos); lemma_push_named(k0, t1);
    lemma_binary_value(v, ks, pos, s1);
    lemma_push(bin_r(ks), "Binary"@, k0.push(t1), t2, n0, pos, s1, pos, Two { a: Some(k), b: Some(vbin(v)) }, pos + binary_used(v)); lemma_push_named(k0.push(t1), t2);
}
pub open spec fn string_leaf(v: StringValue, ks: Ks, pos: int) -> Tree {
    match v {
        StringValue::Plain(s) => leaf("Value"@, s@),
        StringValue::Protected(x) => Tree::Leaf("Value"@, protected(), b64(xored(x@, ks, pos))),
    }
}
pub proof fn lemma_string_value(v: StringValue, ks: Ks, pos: int, st: Two<StringKey, VStr>)
    requires fits(v)
    ensures takes(str_r(ks), string_leaf(v, ks, pos), st, pos, Two { b: Some(vstr(v)), ..st }, pos + string_used(v)), named(string_leaf(v, ks, pos))
{
    hide(bin); hide(string); hide(xored); hide(plain_name);
    reveal(takes); value_names(); lemma_marks(seq![]);
    let t = string_leaf(v, ks, pos); let st2 = Two { b: Some(vstr(v)), ..st }; let pos2 = pos + string_used(v);
    match v { StringValue::Plain(s) => { yields_text("Value"@, seq![], s@); }, StringValue::Protected(x) => { yields_bin("Value"@, protected(), xored(x@, ks, pos)); lemma_xored(x@, ks, pos); } }
    reveal(yields);
    assert forall|y: Seq<Ev>, r: Seq<Ev>| #![trigger y.skip(1) + r, shown(y, t)] shown(y, t) implies (str_r(ks)(st, tag(t), marks(t), y.skip(1) + r, pos) matches Some((s, e, p)) && s == st2 && p == pos2 && rests(e, tag(t), r)) by {
        let w = y.skip(1) + r;
        match v {
            StringValue::Plain(s) => { let g = RText::get(w); assert(g.unwrap().0 == s@); },
            StringValue::Protected(x) => { let g = RBin::get(w); assert(g.unwrap().0 == xored(x@, ks, pos)); },
        }
    }
}
pub proof fn lemma_string(k: StringKey, v: StringValue, ks: Ks, pos: int)
    requires fits(v)
    ensures takes_all(str_r(ks), "String"@, kids(string_tree(k, v, ks, pos)), none(), pos, Two { a: Some(key_for(key_text(k))), b: Some(vstr(v)) }, pos + string_used(v)), named(string_tree(k, v, ks, pos))
{
    value_names();
    let n = key_for(key_text(k));
    let n0 = none::<StringKey, VStr>(); let s1 = Two { a: Some(n), ..n0 }; let k0 = Seq::<Tree>::empty(); let t1 = leaf("Key"@, key_text(k)); let t2 = string_leaf(v, ks, pos);
    yields_text("Key"@, seq![], key_text(k)); take::<RText, Two<StringKey, VStr>>(str_r(ks), t1, n0, pos, s1, key_text(k));
    lemma_none(str_r(ks), "String"@, n0, pos); lemma_none_named();
    lemma_push(str_r(ks), "String"@, k0, t1, n0, pos, n0, pos, s1, pos); lemma_push_named(k0, t1);
    lemma_string_value(v, ks, pos, s1);
    lemma_push(str_r(ks), "String"@, k0.push(t1), t2, n0, pos, s1, pos, Two { a: Some(n), b: Some(vstr(v)) }, pos + string_used(v)); lemma_push_named(k0.push(t1), t2);
}

} // verus!
} // roundtrip_values
pub mod roundtrip_entry { // format/roundtrip_entry.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*; use crate::format::roundtrip_parts::*; use crate::format::roundtrip_values::*;
verus! {
// ---- entries ----

pub open spec fn entry_r(ks: Ks, active: bool, up: Seq<u8>) -> Step<VEntry> { |st: VEntry, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| entry_step(st, n, a, ev, ks, active, up, pos) }
pub proof fn lemma_entry_run(ev: Seq<Ev>, st: VEntry, ks: Ks, active: bool, up: Seq<u8>, pos: int)
    ensures run(entry_r(ks, active, up), "Entry"@, ev, st, pos) == entry_from(ev, st, ks, active, up, pos)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match entry_step(st, n, a, ev.skip(1), ks, active, up, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_entry_run(e, t, ks, active, up, p); }, None => {} },
            _ => lemma_entry_run(ev.skip(1), st, ks, active, up, pos),
        }
    }
}

pub proof fn entry_names()
    ensures
        plain_name("AutoType"@), "AutoType"@.len() == 8,
        plain_name("BackgroundColor"@), "BackgroundColor"@.len() == 15, "BackgroundColor"@[0] == 'B',
        plain_name("Binary"@), "Binary"@.len() == 6, "Binary"@[0] == 'B',
        plain_name("CustomIconUUID"@), "CustomIconUUID"@.len() == 14,
        plain_name("Entry"@), "Entry"@.len() == 5, "Entry"@[0] == 'E',
        plain_name("ForegroundColor"@), "ForegroundColor"@.len() == 15, "ForegroundColor"@[0] == 'F',
        plain_name("History"@), "History"@.len() == 7,
        plain_name("IconID"@), "IconID"@.len() == 6, "IconID"@[0] == 'I',
        plain_name("OverrideURL"@), "OverrideURL"@.len() == 11,
        plain_name("String"@), "String"@.len() == 6, "String"@[0] == 'S',
        plain_name("Tags"@), "Tags"@.len() == 4, "Tags"@[0] == 'T',
        plain_name("Times"@), "Times"@.len() == 5, "Times"@[0] == 'T',
        plain_name("UUID"@), "UUID"@.len() == 4, "UUID"@[0] == 'U',
{
    assert(plain_name("AutoType"@)) by { reveal_strlit("AutoType"); } reveal_strlit("AutoType");
    assert(plain_name("BackgroundColor"@)) by { reveal_strlit("BackgroundColor"); } reveal_strlit("BackgroundColor");
    assert(plain_name("Binary"@)) by { reveal_strlit("Binary"); } reveal_strlit("Binary");
    assert(plain_name("CustomIconUUID"@)) by { reveal_strlit("CustomIconUUID"); } reveal_strlit("CustomIconUUID");
    assert(plain_name("Entry"@)) by { reveal_strlit("Entry"); } reveal_strlit("Entry");
    assert(plain_name("ForegroundColor"@)) by { reveal_strlit("ForegroundColor"); } reveal_strlit("ForegroundColor");
    assert(plain_name("History"@)) by { reveal_strlit("History"); } reveal_strlit("History");
    assert(plain_name("IconID"@)) by { reveal_strlit("IconID"); } reveal_strlit("IconID");
    assert(plain_name("OverrideURL"@)) by { reveal_strlit("OverrideURL"); } reveal_strlit("OverrideURL");
    assert(plain_name("String"@)) by { reveal_strlit("String"); } reveal_strlit("String");
    assert(plain_name("Tags"@)) by { reveal_strlit("Tags"); } reveal_strlit("Tags");
    assert(plain_name("Times"@)) by { reveal_strlit("Times"); } reveal_strlit("Times");
    assert(plain_name("UUID"@)) by { reveal_strlit("UUID"); } reveal_strlit("UUID");
}


pub proof fn entry_takes_auto(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    requires st.within == up
    ensures takes(entry_r(ks, active, up), auto_type_tree(e), st, pos, autoed(e, st), pos), named(auto_type_tree(e))
{
    hide(auto_step); entry_names();
    let t = auto_type_tree(e); let s2 = autoed(e, st); lemma_auto(e, st, pos);
    assert(VEntry { within: up, ..st } == st);
    assert forall|ev: Seq<Ev>| (run(auto_r(), tag(t), ev, st, pos) matches Some((x, e, p)) && x == s2 && p == pos) implies #[trigger] entry_r(ks, active, up)(st, tag(t), marks(t), ev, pos) == Some((s2, run(auto_r(), tag(t), ev, st, pos).unwrap().1, pos)) by { lemma_auto_run(ev, st, pos); }
    section(entry_r(ks, active, up), t, st, pos, s2, pos, auto_r(), st, s2);
}
pub proof fn entry_takes_times(v: VTimes, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    requires st.within == up
    ensures takes(entry_r(ks, active, up), times_tree(v), st, pos, VEntry { times: v, ..st }, pos), named(times_tree(v))
{
    hide(times_step); entry_names();
    let t = times_tree(v); let s2 = VEntry { times: v, ..st }; lemma_times(v, st.times, pos);
    assert(VEntry { within: up, ..st } == st);
    assert forall|ev: Seq<Ev>| (run(times_r(), tag(t), ev, st.times, pos) matches Some((x, e, p)) && x == v && p == pos) implies #[trigger] entry_r(ks, active, up)(st, tag(t), marks(t), ev, pos) == Some((s2, run(times_r(), tag(t), ev, st.times, pos).unwrap().1, pos)) by { lemma_times_run(ev, st.times, pos); }
    section(entry_r(ks, active, up), t, st, pos, s2, pos, times_r(), st.times, v);
}
pub proof fn entry_takes_binary(k: BinaryKey, v: BinaryValue, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    requires st.within == up
    ensures takes(entry_r(ks, active, up), binary_tree(k, v, ks, pos), st, pos, VEntry { binaries: st.binaries.insert(k, vbin(v)), ..st }, pos + binary_used(v)), named(binary_tree(k, v, ks, pos))
{
    hide(bin_step); entry_names();
    let t = binary_tree(k, v, ks, pos); let s2 = VEntry { binaries: st.binaries.insert(k, vbin(v)), ..st }; lemma_binary(k, v, ks, pos); let pos2 = pos + binary_used(v);
    let z = Two { a: Some(k), b: Some(vbin(v)) }; let n0 = none::<BinaryKey, VBin>();
    assert(VEntry { within: up, ..st } == st);
    assert forall|ev: Seq<Ev>| (run(bin_r(ks), tag(t), ev, n0, pos) matches Some((x, e, p)) && x == z && p == pos2) implies #[trigger] entry_r(ks, active, up)(st, tag(t), marks(t), ev, pos) == Some((s2, run(bin_r(ks), tag(t), ev, n0, pos).unwrap().1, pos2)) by { lemma_bin_run(ev, n0, ks, pos); }
    section(entry_r(ks, active, up), t, st, pos, s2, pos2, bin_r(ks), n0, z);
}
pub proof fn entry_takes_string(k: StringKey, v: StringValue, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    requires st.within == up, fits(v)
    ensures takes(entry_r(ks, active, up), string_tree(k, v, ks, pos), st, pos, VEntry { strings: st.strings.insert(key_for(key_text(k)), vstr(v)), ..st }, pos + string_used(v)), named(string_tree(k, v, ks, pos))
{
    hide(str_step); entry_names(); let n = key_for(key_text(k));
    let t = string_tree(k, v, ks, pos); let s2 = VEntry { strings: st.strings.insert(n, vstr(v)), ..st }; lemma_string(k, v, ks, pos); let pos2 = pos + string_used(v);
    let z = Two { a: Some(n), b: Some(vstr(v)) }; let n0 = none::<StringKey, VStr>();
    assert(VEntry { within: up, ..st } == st);
    assert forall|ev: Seq<Ev>| (run(str_r(ks), tag(t), ev, n0, pos) matches Some((x, e, p)) && x == z && p == pos2) implies #[trigger] entry_r(ks, active, up)(st, tag(t), marks(t), ev, pos) == Some((s2, run(str_r(ks), tag(t), ev, n0, pos).unwrap().1, pos2)) by { lemma_str_run(ev, n0, ks, pos); }
    section(entry_r(ks, active, up), t, st, pos, s2, pos2, str_r(ks), n0, z);
}

pub proof fn entry_takes_UUID(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    ensures takes(entry_r(ks, active, up), leaf("UUID"@, b64(e.uuid.0@)), st, pos, VEntry { id: e.uuid.0@, within: up, ..st }, pos), named(leaf("UUID"@, b64(e.uuid.0@)))
{

    entry_names(); yields_id("UUID"@, seq![], e.uuid.0);
    take::<RId, VEntry>(entry_r(ks, active, up), leaf("UUID"@, b64(e.uuid.0@)), st, pos, VEntry { id: e.uuid.0@, within: up, ..st }, e.uuid.0@);
}

pub proof fn entry_takes_BackgroundColor(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    ensures takes(entry_r(ks, active, up), color_tree("BackgroundColor"@, e.background_color), st, pos, VEntry { background: e.background_color, within: up, ..st }, pos), named(color_tree("BackgroundColor"@, e.background_color))
{

    entry_names(); yields_color("BackgroundColor"@, e.background_color);
    take::<RColor, VEntry>(entry_r(ks, active, up), color_tree("BackgroundColor"@, e.background_color), st, pos, VEntry { background: e.background_color, within: up, ..st }, e.background_color);
}

pub proof fn entry_takes_CustomIconUUID(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    ensures takes(entry_r(ks, active, up), icon_tree("CustomIconUUID"@, e.custom_icon_uuid), st, pos, VEntry { picture: icon_id(e.custom_icon_uuid), within: up, ..st }, pos), named(icon_tree("CustomIconUUID"@, e.custom_icon_uuid))
{

    entry_names(); yields_id_opt("CustomIconUUID"@, e.custom_icon_uuid);
    take::<RIdOpt, VEntry>(entry_r(ks, active, up), icon_tree("CustomIconUUID"@, e.custom_icon_uuid), st, pos, VEntry { picture: icon_id(e.custom_icon_uuid), within: up, ..st }, icon_id(e.custom_icon_uuid));
}

pub proof fn entry_takes_ForegroundColor(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    ensures takes(entry_r(ks, active, up), color_tree("ForegroundColor"@, e.foreground_color), st, pos, VEntry { foreground: e.foreground_color, within: up, ..st }, pos), named(color_tree("ForegroundColor"@, e.foreground_color))
{

    entry_names(); yields_color("ForegroundColor"@, e.foreground_color);
    take::<RColor, VEntry>(entry_r(ks, active, up), color_tree("ForegroundColor"@, e.foreground_color), st, pos, VEntry { foreground: e.foreground_color, within: up, ..st }, e.foreground_color);
}

pub proof fn entry_takes_IconID(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    ensures takes(entry_r(ks, active, up), leaf("IconID"@, dec_i32(icon_num(e.icon) as i32)), st, pos, VEntry { symbol: icon_num(e.icon), within: up, ..st }, pos), named(leaf("IconID"@, dec_i32(icon_num(e.icon) as i32)))
{

    entry_names(); yields_icon("IconID"@, seq![], e.icon);
    take::<RIcon, VEntry>(entry_r(ks, active, up), leaf("IconID"@, dec_i32(icon_num(e.icon) as i32)), st, pos, VEntry { symbol: icon_num(e.icon), within: up, ..st }, icon_num(e.icon));
}

pub proof fn entry_takes_OverrideURL(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    ensures takes(entry_r(ks, active, up), leaf("OverrideURL"@, e.override_url@), st, pos, VEntry { url: e.override_url@, within: up, ..st }, pos), named(leaf("OverrideURL"@, e.override_url@))
{

    entry_names(); yields_text("OverrideURL"@, seq![], e.override_url@);
    take::<RText, VEntry>(entry_r(ks, active, up), leaf("OverrideURL"@, e.override_url@), st, pos, VEntry { url: e.override_url@, within: up, ..st }, e.override_url@);
}

pub proof fn entry_takes_Tags(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    ensures takes(entry_r(ks, active, up), leaf("Tags"@, e.tags@), st, pos, VEntry { tags: e.tags@, within: up, ..st }, pos), named(leaf("Tags"@, e.tags@))
{

    entry_names(); yields_text("Tags"@, seq![], e.tags@);
    take::<RText, VEntry>(entry_r(ks, active, up), leaf("Tags"@, e.tags@), st, pos, VEntry { tags: e.tags@, within: up, ..st }, e.tags@);
}


/// The entry read from the elements all entries start with.
pub open spec fn headed_entry(e: Entry, up: Seq<u8>, st: VEntry) -> VEntry {
    VEntry {
        assocs: st.assocs + vassocs(e.associations@), sequence: e.auto_type_def_sequence@, enabled: e.auto_type_enabled, obf: obf_num(e.auto_type_obfuscation),
        background: e.background_color, picture: icon_id(e.custom_icon_uuid), foreground: e.foreground_color, symbol: icon_num(e.icon), url: e.override_url@, tags: e.tags@,
        times: vtimes(&e), id: e.uuid.0@, within: up, ..st
    }
}
pub proof fn lemma_entry_head(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    ensures takes_all(entry_r(ks, active, up), "Entry"@, entry_head(e), st, pos, headed_entry(e, up, st), pos), all_named(entry_head(e))
{
    hide(entry_r); hide(auto_type_head); hide(vtimes);
    entry_names();
    let k0 = Seq::<Tree>::empty(); let s0 = st;
    lemma_none(entry_r(ks, active, up), "Entry"@, s0, pos); lemma_none_named();
    let t1 = leaf("UUID"@, b64(e.uuid.0@)); let s1 = VEntry { id: e.uuid.0@, within: up, ..s0 }; let k1 = k0.push(t1);
    entry_takes_UUID(e, ks, active, up, s0, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k0, t1, st, pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    let t2 = auto_type_tree(e); let s2 = autoed(e, s1); let k2 = k1.push(t2);
    entry_takes_auto(e, ks, active, up, s1, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k1, t2, st, pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
    let t3 = color_tree("BackgroundColor"@, e.background_color); let s3 = VEntry { background: e.background_color, within: up, ..s2 }; let k3 = k2.push(t3);
    entry_takes_BackgroundColor(e, ks, active, up, s2, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k2, t3, st, pos, s2, pos, s3, pos); lemma_push_named(k2, t3);
    let t4 = icon_tree("CustomIconUUID"@, e.custom_icon_uuid); let s4 = VEntry { picture: icon_id(e.custom_icon_uuid), within: up, ..s3 }; let k4 = k3.push(t4);
    entry_takes_CustomIconUUID(e, ks, active, up, s3, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k3, t4, st, pos, s3, pos, s4, pos); lemma_push_named(k3, t4);
    let t5 = color_tree("ForegroundColor"@, e.foreground_color); let s5 = VEntry { foreground: e.foreground_color, within: up, ..s4 }; let k5 = k4.push(t5);
    entry_takes_ForegroundColor(e, ks, active, up, s4, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k4, t5, st, pos, s4, pos, s5, pos); lemma_push_named(k4, t5);
    let t6 = leaf("IconID"@, dec_i32(icon_num(e.icon) as i32)); let s6 = VEntry { symbol: icon_num(e.icon), within: up, ..s5 }; let k6 = k5.push(t6);
    entry_takes_IconID(e, ks, active, up, s5, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k5, t6, st, pos, s5, pos, s6, pos); lemma_push_named(k5, t6);
    let t7 = leaf("OverrideURL"@, e.override_url@); let s7 = VEntry { url: e.override_url@, within: up, ..s6 }; let k7 = k6.push(t7);
    entry_takes_OverrideURL(e, ks, active, up, s6, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k6, t7, st, pos, s6, pos, s7, pos); lemma_push_named(k6, t7);
    let t8 = leaf("Tags"@, e.tags@); let s8 = VEntry { tags: e.tags@, within: up, ..s7 }; let k8 = k7.push(t8);
    entry_takes_Tags(e, ks, active, up, s7, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k7, t8, st, pos, s7, pos, s8, pos); lemma_push_named(k7, t8);
    let t9 = times_tree(vtimes(&e)); let s9 = VEntry { times: vtimes(&e), ..s8 }; let k9 = k8.push(t9);
    entry_takes_times(vtimes(&e), ks, active, up, s8, pos);
    lemma_push(entry_r(ks, active, up), "Entry"@, k8, t9, st, pos, s8, pos, s9, pos); lemma_push_named(k8, t9);
}


/// The binaries, added one by one.
pub open spec fn bins_in(m: Map<BinaryKey, BinaryValue>, o: Seq<BinaryKey>, b: Map<BinaryKey, VBin>) -> Map<BinaryKey, VBin> decreases o.len() {
    if o.len() == 0 { b } else { bins_in(m, o.drop_last(), b).insert(o.last(), vbin(m[o.last()])) }
}
/// The strings, added one by one under the names they are read with.
pub open spec fn strs_in(m: Map<StringKey, StringValue>, o: Seq<StringKey>, b: Map<StringKey, VStr>) -> Map<StringKey, VStr> decreases o.len() {
    if o.len() == 0 { b } else { strs_in(m, o.drop_last(), b).insert(key_for(key_text(o.last())), vstr(m[o.last()])) }
}
pub proof fn lemma_entry_binaries(k: Seq<Tree>, m: Map<BinaryKey, BinaryValue>, o: Seq<BinaryKey>, ks: Ks, active: bool, up: Seq<u8>, st0: VEntry, pos0: int, st: VEntry, pos: int)
    requires takes_all(entry_r(ks, active, up), "Entry"@, k, st0, pos0, st, pos), all_named(k), st.within == up
    ensures
        takes_all(entry_r(ks, active, up), "Entry"@, k + binaries_out(m, o, ks, pos).0, st0, pos0, VEntry { binaries: bins_in(m, o, st.binaries), ..st }, binaries_out(m, o, ks, pos).1),
        all_named(k + binaries_out(m, o, ks, pos).0),
    decreases o.len()
{
    if o.len() == 0 { assert(k + binaries_out(m, o, ks, pos).0 =~= k); } else {
        let d = o.drop_last(); let x = o.last(); let (t, p) = binaries_out(m, d, ks, pos);
        lemma_entry_binaries(k, m, d, ks, active, up, st0, pos0, st, pos);
        let s = VEntry { binaries: bins_in(m, d, st.binaries), ..st };
        entry_takes_binary(x, m[x], ks, active, up, s, p); entry_names();
        let n = binary_tree(x, m[x], ks, p);
        assert(k + binaries_out(m, o, ks, pos).0 =~= (k + t).push(n));
        lemma_push(entry_r(ks, active, up), "Entry"@, k + t, n, st0, pos0, s, p, VEntry { binaries: bins_in(m, o, st.binaries), ..st }, p + binary_used(m[x])); lemma_push_named(k + t, n);
    }
}
pub proof fn lemma_entry_strings(k: Seq<Tree>, m: Map<StringKey, StringValue>, o: Seq<StringKey>, ks: Ks, active: bool, up: Seq<u8>, st0: VEntry, pos0: int, st: VEntry, pos: int)
    requires takes_all(entry_r(ks, active, up), "Entry"@, k, st0, pos0, st, pos), all_named(k), st.within == up, all_fit(m, o)
    ensures
        takes_all(entry_r(ks, active, up), "Entry"@, k + strings_out(m, o, ks, pos).0, st0, pos0, VEntry { strings: strs_in(m, o, st.strings), ..st }, strings_out(m, o, ks, pos).1),
        all_named(k + strings_out(m, o, ks, pos).0),
    decreases o.len()
{
    if o.len() == 0 { assert(k + strings_out(m, o, ks, pos).0 =~= k); } else {
        let d = o.drop_last(); let x = o.last(); let (t, p) = strings_out(m, d, ks, pos);
        assert(all_fit(m, d)) by { assert forall|i: int| 0 <= i < d.len() implies fits(m[#[trigger] d[i]]) by { assert(d[i] == o[i]); } }
        lemma_entry_strings(k, m, d, ks, active, up, st0, pos0, st, pos);
        let s = VEntry { strings: strs_in(m, d, st.strings), ..st };
        assert(fits(m[o[o.len() - 1]]));
        entry_takes_string(x, m[x], ks, active, up, s, p); entry_names();
        let n = string_tree(x, m[x], ks, p);
        assert(k + strings_out(m, o, ks, pos).0 =~= (k + t).push(n));
        lemma_push(entry_r(ks, active, up), "Entry"@, k + t, n, st0, pos0, s, p, VEntry { strings: strs_in(m, o, st.strings), ..st }, p + string_used(m[x])); lemma_push_named(k + t, n);
    }
}
/// An entry of a history as it is read back: without a history of its own.
pub open spec fn past_back(e: Entry, up: Seq<u8>, st: VEntry) -> VEntry {
    VEntry { binaries: bins_in(e.binaries@, key_order(e.binaries), st.binaries), strings: strs_in(e.strings@, key_order(e.strings), st.strings), ..headed_entry(e, up, st) }
}
pub proof fn lemma_past(e: Entry, ks: Ks, active: bool, up: Seq<u8>, st: VEntry, pos: int)
    requires past_fits(e)
    ensures
        takes_all(entry_r(ks, active, up), "Entry"@, kids(past_tree(e, ks, pos)), st, pos, past_back(e, up, st), past_end(e, ks, pos)), named(past_tree(e, ks, pos)),
{
    entry_names(); lemma_entry_head(e, ks, active, up, st, pos);
    let h = headed_entry(e, up, st); let k = entry_head(e); let (b, p) = entry_binaries(e, ks, pos);
    lemma_entry_binaries(k, e.binaries@, key_order(e.binaries), ks, active, up, st, pos, h, pos);
    let h2 = VEntry { binaries: bins_in(e.binaries@, key_order(e.binaries), h.binaries), ..h };
    lemma_entry_strings(k + b, e.strings@, key_order(e.strings), ks, active, up, st, pos, h2, p);
    assert(past_back(e, up, st) == VEntry { strings: strs_in(e.strings@, key_order(e.strings), h2.strings), ..h2 });
}
// ---- histories ----
pub open spec fn past_step(st: Seq<VEntry>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, ks: Ks, up: Seq<u8>, pos: int) -> Got2<Seq<VEntry>> {
    if n == "Entry"@ { match entry_from(ev, fresh_entry(), ks, false, up, pos) { Some((x, e, p)) => Some((st.push(x), e, p)), None => None } } else { Some((st, ev, pos)) }
}


pub open spec fn past_r(ks: Ks, up: Seq<u8>) -> Step<Seq<VEntry>> { |st: Seq<VEntry>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| past_step(st, n, a, ev, ks, up, pos) }
pub proof fn lemma_past_run(ev: Seq<Ev>, st: Seq<VEntry>, ks: Ks, up: Seq<u8>, pos: int)
    ensures run(past_r(ks, up), "History"@, ev, st, pos) == past_from(ev, st, ks, up, pos)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match past_step(st, n, a, ev.skip(1), ks, up, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_past_run(e, t, ks, up, p); }, None => {} },
            _ => lemma_past_run(ev.skip(1), st, ks, up, pos),
        }
    }
}


pub open spec fn pasts_back(s: Seq<Entry>, up: Seq<u8>) -> Seq<VEntry> { s.map_values(|e: Entry| past_back(e, up, fresh_entry())) }
pub proof fn lemma_pasts_out(s: Seq<Entry>, ks: Ks, up: Seq<u8>, st: Seq<VEntry>, pos: int)
    requires pasts_fit(s)
    ensures takes_all(past_r(ks, up), "History"@, pasts_out(s, ks, pos).0, st, pos, st + pasts_back(s, up), pasts_out(s, ks, pos).1), all_named(pasts_out(s, ks, pos).0)
    decreases s.len()
{
    if s.len() == 0 { assert(st + pasts_back(s, up) =~= st); lemma_none(past_r(ks, up), "History"@, st, pos); } else {
        let d = s.drop_last(); let x = s.last(); let (t, p) = pasts_out(d, ks, pos);
        assert(pasts_fit(d)) by { assert forall|i: int| 0 <= i < d.len() implies past_fits(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        lemma_pasts_out(d, ks, up, st, pos);
        let s1 = st + pasts_back(d, up); let s2 = st + pasts_back(s, up);
        assert(past_fits(s[s.len() - 1]));
        let n = past_tree(x, ks, p); let v = past_back(x, up, fresh_entry()); let pos2 = past_end(x, ks, p);
        assert(s2 =~= s1.push(v));
        entry_names(); lemma_past(x, ks, false, up, fresh_entry(), p);
        assert forall|ev: Seq<Ev>| (run(entry_r(ks, false, up), "Entry"@, ev, fresh_entry(), p) matches Some((y, e, q)) && y == v && q == pos2) implies #[trigger] past_r(ks, up)(s1, "Entry"@, marks(n), ev, p) == Some((s2, run(entry_r(ks, false, up), "Entry"@, ev, fresh_entry(), p).unwrap().1, pos2)) by { lemma_entry_run(ev, fresh_entry(), ks, false, up, p); }
        section(past_r(ks, up), n, s1, p, s2, pos2, entry_r(ks, false, up), fresh_entry(), v);
        lemma_push(past_r(ks, up), "History"@, t, n, st, pos, s1, p, s2, pos2); lemma_push_named(t, n);
    }
}
/// An entry as it is read back.
pub open spec fn entry_back(e: Entry, up: Seq<u8>, st: VEntry) -> VEntry { VEntry { history: st.history + pasts_back(e.history@, up), ..past_back(e, up, st) } }
pub proof fn lemma_entry(e: Entry, ks: Ks, up: Seq<u8>, st: VEntry, pos: int)
    requires entry_fits(e)
    ensures
        takes_all(entry_r(ks, true, up), "Entry"@, kids(entry_tree(e, ks, pos)), st, pos, entry_back(e, up, st), entry_end(e, ks, pos)), named(entry_tree(e, ks, pos)),
{
    entry_names(); lemma_past(e, ks, true, up, st, pos);
    let k = kids(past_tree(e, ks, pos)); let p = past_end(e, ks, pos); let h = past_back(e, up, st); let t = history_tree(e.history@, ks, p);
    lemma_pasts_out(e.history@, ks, up, seq![], p);
    let l = pasts_back(e.history@, up); let pos2 = entry_end(e, ks, pos); let s2 = entry_back(e, up, st);
    assert(Seq::<VEntry>::empty() + l =~= l);
    let n0 = Seq::<VEntry>::empty();
    assert(VEntry { within: up, ..h } == h);
    assert forall|ev: Seq<Ev>| (run(past_r(ks, up), "History"@, ev, n0, p) matches Some((y, e, q)) && y == l && q == pos2) implies #[trigger] entry_r(ks, true, up)(h, "History"@, marks(t), ev, p) == Some((s2, run(past_r(ks, up), "History"@, ev, n0, p).unwrap().1, pos2)) by { lemma_past_run(ev, n0, ks, up, p); }
    section(entry_r(ks, true, up), t, h, p, s2, pos2, past_r(ks, up), n0, l);
    lemma_push(entry_r(ks, true, up), "Entry"@, k, t, st, pos, h, p, s2, pos2); lemma_push_named(k, t);
}

} // verus!
} // roundtrip_entry
pub mod roundtrip_group { // format/roundtrip_group.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*; use crate::format::roundtrip_parts::*; use crate::format::roundtrip_values::*; use crate::format::roundtrip_entry::*;
verus! {
// ---- groups ----
pub open spec fn group_r(ks: Ks) -> Step<VGroup> { |st: VGroup, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| group_step(st, n, a, ev, ks, pos) }
pub proof fn lemma_group_run(ev: Seq<Ev>, st: VGroup, ks: Ks, pos: int)
    ensures group_from(ev, st, ks, pos) == (match run(group_r(ks), "Group"@, ev, st, pos) { Some((t, e, p)) => Some((adopted(t), e, p)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match group_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_group_run(e, t, ks, p); }, None => {} },
            _ => lemma_group_run(ev.skip(1), st, ks, pos),
        }
    }
}
pub proof fn group_takes_times(v: VTimes, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), times_tree(v), st, pos, VGroup { times: v, ..st }, pos), named(times_tree(v))
{
    hide(times_step); group_names();
    let t = times_tree(v); let s2 = VGroup { times: v, ..st }; lemma_times(v, st.times, pos);
    assert forall|ev: Seq<Ev>| (run(times_r(), tag(t), ev, st.times, pos) matches Some((x, e, p)) && x == v && p == pos) implies #[trigger] group_r(ks)(st, tag(t), marks(t), ev, pos) == Some((s2, run(times_r(), tag(t), ev, st.times, pos).unwrap().1, pos)) by { lemma_times_run(ev, st.times, pos); }
    section(group_r(ks), t, st, pos, s2, pos, times_r(), st.times, v);
}

pub proof fn group_names()
    ensures
        plain_name("CustomIconUUID"@), "CustomIconUUID"@.len() == 14, "CustomIconUUID"@[0] == 'C',
        plain_name("DefaultAutoTypeSequence"@), "DefaultAutoTypeSequence"@.len() == 23,
        plain_name("EnableAutoType"@), "EnableAutoType"@.len() == 14, "EnableAutoType"@[0] == 'E',
        plain_name("EnableSearching"@), "EnableSearching"@.len() == 15,
        plain_name("Entry"@), "Entry"@.len() == 5, "Entry"@[0] == 'E',
        plain_name("Group"@), "Group"@.len() == 5, "Group"@[0] == 'G',
        plain_name("IconID"@), "IconID"@.len() == 6,
        plain_name("IsExpanded"@), "IsExpanded"@.len() == 10,
        plain_name("LastTopVisibleEntry"@), "LastTopVisibleEntry"@.len() == 19,
        plain_name("Name"@), "Name"@.len() == 4, "Name"@[0] == 'N',
        plain_name("Notes"@), "Notes"@.len() == 5, "Notes"@[0] == 'N',
        plain_name("Times"@), "Times"@.len() == 5, "Times"@[0] == 'T',
        plain_name("UUID"@), "UUID"@.len() == 4, "UUID"@[0] == 'U',
{
    assert(plain_name("CustomIconUUID"@)) by { reveal_strlit("CustomIconUUID"); } reveal_strlit("CustomIconUUID");
    assert(plain_name("DefaultAutoTypeSequence"@)) by { reveal_strlit("DefaultAutoTypeSequence"); } reveal_strlit("DefaultAutoTypeSequence");
    assert(plain_name("EnableAutoType"@)) by { reveal_strlit("EnableAutoType"); } reveal_strlit("EnableAutoType");
    assert(plain_name("EnableSearching"@)) by { reveal_strlit("EnableSearching"); } reveal_strlit("EnableSearching");
    assert(plain_name("Entry"@)) by { reveal_strlit("Entry"); } reveal_strlit("Entry");
    assert(plain_name("Group"@)) by { reveal_strlit("Group"); } reveal_strlit("Group");
    assert(plain_name("IconID"@)) by { reveal_strlit("IconID"); } reveal_strlit("IconID");
    assert(plain_name("IsExpanded"@)) by { reveal_strlit("IsExpanded"); } reveal_strlit("IsExpanded");
    assert(plain_name("LastTopVisibleEntry"@)) by { reveal_strlit("LastTopVisibleEntry"); } reveal_strlit("LastTopVisibleEntry");
    assert(plain_name("Name"@)) by { reveal_strlit("Name"); } reveal_strlit("Name");
    assert(plain_name("Notes"@)) by { reveal_strlit("Notes"); } reveal_strlit("Notes");
    assert(plain_name("Times"@)) by { reveal_strlit("Times"); } reveal_strlit("Times");
    assert(plain_name("UUID"@)) by { reveal_strlit("UUID"); } reveal_strlit("UUID");
}

pub proof fn group_takes_UUID(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("UUID"@, b64(g.uuid.0@)), st, pos, VGroup { id: g.uuid.0@, ..st }, pos), named(leaf("UUID"@, b64(g.uuid.0@)))
{

    group_names(); yields_id("UUID"@, seq![], g.uuid.0);
    take::<RId, VGroup>(group_r(ks), leaf("UUID"@, b64(g.uuid.0@)), st, pos, VGroup { id: g.uuid.0@, ..st }, g.uuid.0@);
}

pub proof fn group_takes_CustomIconUUID(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), icon_tree("CustomIconUUID"@, g.custom_icon_uuid), st, pos, VGroup { picture: icon_id(g.custom_icon_uuid), ..st }, pos), named(icon_tree("CustomIconUUID"@, g.custom_icon_uuid))
{

    group_names(); yields_id_opt("CustomIconUUID"@, g.custom_icon_uuid);
    take::<RIdOpt, VGroup>(group_r(ks), icon_tree("CustomIconUUID"@, g.custom_icon_uuid), st, pos, VGroup { picture: icon_id(g.custom_icon_uuid), ..st }, icon_id(g.custom_icon_uuid));
}

pub proof fn group_takes_DefaultAutoTypeSequence(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("DefaultAutoTypeSequence"@, g.def_auto_type_sequence@), st, pos, VGroup { sequence: g.def_auto_type_sequence@, ..st }, pos), named(leaf("DefaultAutoTypeSequence"@, g.def_auto_type_sequence@))
{

    group_names(); yields_text("DefaultAutoTypeSequence"@, seq![], g.def_auto_type_sequence@);
    take::<RText, VGroup>(group_r(ks), leaf("DefaultAutoTypeSequence"@, g.def_auto_type_sequence@), st, pos, VGroup { sequence: g.def_auto_type_sequence@, ..st }, g.def_auto_type_sequence@);
}

pub proof fn group_takes_EnableAutoType(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("EnableAutoType"@, bool_text(g.enable_auto_type)), st, pos, VGroup { auto_type: g.enable_auto_type, ..st }, pos), named(leaf("EnableAutoType"@, bool_text(g.enable_auto_type)))
{

    group_names(); yields_maybe("EnableAutoType"@, seq![], g.enable_auto_type);
    take::<RMaybe, VGroup>(group_r(ks), leaf("EnableAutoType"@, bool_text(g.enable_auto_type)), st, pos, VGroup { auto_type: g.enable_auto_type, ..st }, g.enable_auto_type);
}

pub proof fn group_takes_EnableSearching(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("EnableSearching"@, bool_text(g.enable_searching)), st, pos, VGroup { searching: g.enable_searching, ..st }, pos), named(leaf("EnableSearching"@, bool_text(g.enable_searching)))
{

    group_names(); yields_maybe("EnableSearching"@, seq![], g.enable_searching);
    take::<RMaybe, VGroup>(group_r(ks), leaf("EnableSearching"@, bool_text(g.enable_searching)), st, pos, VGroup { searching: g.enable_searching, ..st }, g.enable_searching);
}

pub proof fn group_takes_IconID(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("IconID"@, dec_i32(icon_num(g.icon) as i32)), st, pos, VGroup { symbol: icon_num(g.icon), ..st }, pos), named(leaf("IconID"@, dec_i32(icon_num(g.icon) as i32)))
{

    group_names(); yields_icon("IconID"@, seq![], g.icon);
    take::<RIcon, VGroup>(group_r(ks), leaf("IconID"@, dec_i32(icon_num(g.icon) as i32)), st, pos, VGroup { symbol: icon_num(g.icon), ..st }, icon_num(g.icon));
}

pub proof fn group_takes_IsExpanded(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("IsExpanded"@, bool_text(Some(g.is_expanded))), st, pos, VGroup { expanded: g.is_expanded, ..st }, pos), named(leaf("IsExpanded"@, bool_text(Some(g.is_expanded))))
{

    group_names(); yields_bool("IsExpanded"@, seq![], g.is_expanded);
    take::<RBool, VGroup>(group_r(ks), leaf("IsExpanded"@, bool_text(Some(g.is_expanded))), st, pos, VGroup { expanded: g.is_expanded, ..st }, g.is_expanded);
}

pub proof fn group_takes_LastTopVisibleEntry(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("LastTopVisibleEntry"@, b64(g.last_top_visible_entry.0@)), st, pos, VGroup { top: g.last_top_visible_entry.0@, ..st }, pos), named(leaf("LastTopVisibleEntry"@, b64(g.last_top_visible_entry.0@)))
{

    group_names(); yields_id("LastTopVisibleEntry"@, seq![], g.last_top_visible_entry.0);
    take::<RId, VGroup>(group_r(ks), leaf("LastTopVisibleEntry"@, b64(g.last_top_visible_entry.0@)), st, pos, VGroup { top: g.last_top_visible_entry.0@, ..st }, g.last_top_visible_entry.0@);
}

pub proof fn group_takes_Name(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("Name"@, g.name@), st, pos, VGroup { title: g.name@, ..st }, pos), named(leaf("Name"@, g.name@))
{

    group_names(); yields_text("Name"@, seq![], g.name@);
    take::<RText, VGroup>(group_r(ks), leaf("Name"@, g.name@), st, pos, VGroup { title: g.name@, ..st }, g.name@);
}

pub proof fn group_takes_Notes(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes(group_r(ks), leaf("Notes"@, g.notes@), st, pos, VGroup { notes: g.notes@, ..st }, pos), named(leaf("Notes"@, g.notes@))
{

    group_names(); yields_text("Notes"@, seq![], g.notes@);
    take::<RText, VGroup>(group_r(ks), leaf("Notes"@, g.notes@), st, pos, VGroup { notes: g.notes@, ..st }, g.notes@);
}


pub open spec fn headed_group(g: Group, st: VGroup) -> VGroup {
    VGroup {
        picture: icon_id(g.custom_icon_uuid), sequence: g.def_auto_type_sequence@, auto_type: g.enable_auto_type, searching: g.enable_searching, symbol: icon_num(g.icon),
        expanded: g.is_expanded, top: g.last_top_visible_entry.0@, title: g.name@, notes: g.notes@, times: vtimes(&g), id: g.uuid.0@, ..st
    }
}
pub proof fn lemma_group_head(g: Group, ks: Ks, st: VGroup, pos: int)
    ensures takes_all(group_r(ks), "Group"@, group_head(g), st, pos, headed_group(g, st), pos), all_named(group_head(g))
{
    hide(group_r); hide(vtimes);
    group_names();
    let k0 = Seq::<Tree>::empty(); let s0 = st;
    lemma_none(group_r(ks), "Group"@, s0, pos); lemma_none_named();
    let t1 = leaf("UUID"@, b64(g.uuid.0@)); let s1 = VGroup { id: g.uuid.0@, ..s0 }; let k1 = k0.push(t1);
    group_takes_UUID(g, ks, s0, pos);
    lemma_push(group_r(ks), "Group"@, k0, t1, st, pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    let t2 = icon_tree("CustomIconUUID"@, g.custom_icon_uuid); let s2 = VGroup { picture: icon_id(g.custom_icon_uuid), ..s1 }; let k2 = k1.push(t2);
    group_takes_CustomIconUUID(g, ks, s1, pos);
    lemma_push(group_r(ks), "Group"@, k1, t2, st, pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
    let t3 = leaf("DefaultAutoTypeSequence"@, g.def_auto_type_sequence@); let s3 = VGroup { sequence: g.def_auto_type_sequence@, ..s2 }; let k3 = k2.push(t3);
    group_takes_DefaultAutoTypeSequence(g, ks, s2, pos);
    lemma_push(group_r(ks), "Group"@, k2, t3, st, pos, s2, pos, s3, pos); lemma_push_named(k2, t3);
    let t4 = leaf("EnableAutoType"@, bool_text(g.enable_auto_type)); let s4 = VGroup { auto_type: g.enable_auto_type, ..s3 }; let k4 = k3.push(t4);
    group_takes_EnableAutoType(g, ks, s3, pos);
    lemma_push(group_r(ks), "Group"@, k3, t4, st, pos, s3, pos, s4, pos); lemma_push_named(k3, t4);
    let t5 = leaf("EnableSearching"@, bool_text(g.enable_searching)); let s5 = VGroup { searching: g.enable_searching, ..s4 }; let k5 = k4.push(t5);
    group_takes_EnableSearching(g, ks, s4, pos);
    lemma_push(group_r(ks), "Group"@, k4, t5, st, pos, s4, pos, s5, pos); lemma_push_named(k4, t5);
    let t6 = leaf("IconID"@, dec_i32(icon_num(g.icon) as i32)); let s6 = VGroup { symbol: icon_num(g.icon), ..s5 }; let k6 = k5.push(t6);
    group_takes_IconID(g, ks, s5, pos);
    lemma_push(group_r(ks), "Group"@, k5, t6, st, pos, s5, pos, s6, pos); lemma_push_named(k5, t6);
    let t7 = leaf("IsExpanded"@, bool_text(Some(g.is_expanded))); let s7 = VGroup { expanded: g.is_expanded, ..s6 }; let k7 = k6.push(t7);
    group_takes_IsExpanded(g, ks, s6, pos);
    lemma_push(group_r(ks), "Group"@, k6, t7, st, pos, s6, pos, s7, pos); lemma_push_named(k6, t7);
    let t8 = leaf("LastTopVisibleEntry"@, b64(g.last_top_visible_entry.0@)); let s8 = VGroup { top: g.last_top_visible_entry.0@, ..s7 }; let k8 = k7.push(t8);
    group_takes_LastTopVisibleEntry(g, ks, s7, pos);
    lemma_push(group_r(ks), "Group"@, k7, t8, st, pos, s7, pos, s8, pos); lemma_push_named(k7, t8);
    let t9 = leaf("Name"@, g.name@); let s9 = VGroup { title: g.name@, ..s8 }; let k9 = k8.push(t9);
    group_takes_Name(g, ks, s8, pos);
    lemma_push(group_r(ks), "Group"@, k8, t9, st, pos, s8, pos, s9, pos); lemma_push_named(k8, t9);
    let t10 = leaf("Notes"@, g.notes@); let s10 = VGroup { notes: g.notes@, ..s9 }; let k10 = k9.push(t10);
    group_takes_Notes(g, ks, s9, pos);
    lemma_push(group_r(ks), "Group"@, k9, t10, st, pos, s9, pos, s10, pos); lemma_push_named(k9, t10);
    let t11 = times_tree(vtimes(&g)); let s11 = VGroup { times: vtimes(&g), ..s10 }; let k11 = k10.push(t11);
    group_takes_times(vtimes(&g), ks, s10, pos);
    lemma_push(group_r(ks), "Group"@, k10, t11, st, pos, s10, pos, s11, pos); lemma_push_named(k10, t11);
}


pub open spec fn entries_back(s: Seq<Entry>) -> Seq<VEntry> { s.map_values(|e: Entry| entry_back(e, nil_uuid()@, fresh_entry())) }
pub proof fn lemma_entries_out(k: Seq<Tree>, s: Seq<Entry>, ks: Ks, st0: VGroup, pos0: int, st: VGroup, pos: int)
    requires takes_all(group_r(ks), "Group"@, k, st0, pos0, st, pos), all_named(k), entries_fit(s)
    ensures
        takes_all(group_r(ks), "Group"@, k + entries_out(s, ks, pos).0, st0, pos0, VGroup { entries: st.entries + entries_back(s), ..st }, entries_out(s, ks, pos).1),
        all_named(k + entries_out(s, ks, pos).0),
    decreases s.len()
{
    hide(fresh_entry); hide(entry_step); hide(group_from); hide(entry_from); hide(group_head);
    if s.len() == 0 { assert(k + entries_out(s, ks, pos).0 =~= k); assert(st.entries + entries_back(s) =~= st.entries); } else {
        let d = s.drop_last(); let x = s.last(); let (t, p) = entries_out(d, ks, pos); let up = nil_uuid()@;
        assert(entries_fit(d)) by { assert forall|i: int| 0 <= i < d.len() implies entry_fits(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        lemma_entries_out(k, d, ks, st0, pos0, st, pos);
        let s1 = VGroup { entries: st.entries + entries_back(d), ..st }; let s2 = VGroup { entries: st.entries + entries_back(s), ..st };
        assert(entry_fits(s[s.len() - 1]));
        let n = entry_tree(x, ks, p); let v = entry_back(x, up, fresh_entry()); let pos2 = entry_end(x, ks, p);
        assert(s2.entries =~= s1.entries.push(v));
        group_names(); lemma_entry(x, ks, up, fresh_entry(), p);
        assert forall|ev: Seq<Ev>| (run(entry_r(ks, true, up), "Entry"@, ev, fresh_entry(), p) matches Some((y, e, q)) && y == v && q == pos2) implies #[trigger] group_r(ks)(s1, "Entry"@, marks(n), ev, p) == Some((s2, run(entry_r(ks, true, up), "Entry"@, ev, fresh_entry(), p).unwrap().1, pos2)) by { lemma_entry_run(ev, fresh_entry(), ks, true, up, p); }
        section(group_r(ks), n, s1, p, s2, pos2, entry_r(ks, true, up), fresh_entry(), v);
        assert(k + entries_out(s, ks, pos).0 =~= (k + t).push(n));
        lemma_push(group_r(ks), "Group"@, k + t, n, st0, pos0, s1, p, s2, pos2); lemma_push_named(k + t, n);
    }
}
/// A group as it is read back, before and after its entries and groups are told.
pub open spec fn group_raw(g: Group, st: VGroup) -> VGroup decreases g, g.groups@.len() + 1 { VGroup { entries: st.entries + entries_back(g.entries@), groups: st.groups + groups_back(g, g.groups@.len()), ..headed_group(g, st) } }
pub open spec fn group_back(g: Group) -> VGroup decreases g, g.groups@.len() + 2 { adopted(group_raw(g, fresh_group(nil_uuid()@))) }
pub open spec fn groups_back(g: Group, n: nat) -> Seq<VGroup> decreases g, n { if n == 0 || n > g.groups@.len() { seq![] } else { groups_back(g, (n - 1) as nat).push(group_back(g.groups@[n - 1])) } }
pub proof fn lemma_groups_out(k: Seq<Tree>, g: Group, n: nat, ks: Ks, st0: VGroup, pos0: int, st: VGroup, pos: int)
    requires takes_all(group_r(ks), "Group"@, k, st0, pos0, st, pos), all_named(k), groups_fit(g, n), n <= g.groups@.len()
    ensures
        takes_all(group_r(ks), "Group"@, k + groups_out(g, n, ks, pos).0, st0, pos0, VGroup { groups: st.groups + groups_back(g, n), ..st }, groups_out(g, n, ks, pos).1),
        all_named(k + groups_out(g, n, ks, pos).0),
    decreases g, n
{
    hide(fresh_group); hide(group_step); hide(group_from); hide(group_head); hide(adopted);
    if n == 0 { assert(k + groups_out(g, n, ks, pos).0 =~= k); assert(st.groups + groups_back(g, n) =~= st.groups); } else {
        let m = (n - 1) as nat; let x = g.groups@[n - 1]; let (t, p) = groups_out(g, m, ks, pos); let f = fresh_group(nil_uuid()@);
        lemma_groups_out(k, g, m, ks, st0, pos0, st, pos);
        let s1 = VGroup { groups: st.groups + groups_back(g, m), ..st }; let s2 = VGroup { groups: st.groups + groups_back(g, n), ..st };
        lemma_group(x, ks, f, p);
        let c = group_tree(x, ks, p); let v = group_raw(x, f); let pos2 = group_end(x, ks, p);
        group_names();
        assert(s2.groups =~= s1.groups.push(group_back(x)));
        assert forall|ev: Seq<Ev>| (run(group_r(ks), "Group"@, ev, f, p) matches Some((y, e, q)) && y == v && q == pos2) implies #[trigger] group_r(ks)(s1, "Group"@, marks(c), ev, p) == Some((s2, run(group_r(ks), "Group"@, ev, f, p).unwrap().1, pos2)) by { group_takes_group(ev, s1, marks(c), ks, p); }
        section_whole(group_r(ks), c, s1, p, s2, pos2, group_r(ks), f, v);
        assert(k + groups_out(g, n, ks, pos).0 =~= (k + t).push(c));
        lemma_push_whole(group_r(ks), "Group"@, k + t, c, st0, pos0, s1, p, s2, pos2); lemma_push_named(k + t, c);
    }
}
pub proof fn group_takes_group(ev: Seq<Ev>, st: VGroup, a: Attrs, ks: Ks, pos: int)
    ensures group_r(ks)(st, "Group"@, a, ev, pos) == (match run(group_r(ks), "Group"@, ev, fresh_group(nil_uuid()@), pos) { Some((x, e, p)) => Some((VGroup { groups: st.groups.push(adopted(x)), ..st }, e, p)), None => None })
{ hide(fresh_group); hide(adopted); group_names(); lemma_group_run(ev, fresh_group(nil_uuid()@), ks, pos); }
pub proof fn lemma_group(g: Group, ks: Ks, st: VGroup, pos: int)
    requires group_fits(g)
    ensures
        takes_all(group_r(ks), "Group"@, kids(group_tree(g, ks, pos)), st, pos, group_raw(g, st), group_end(g, ks, pos)), named(group_tree(g, ks, pos)),
    decreases g, g.groups@.len() + 1
{
    hide(fresh_group); hide(group_step); hide(group_from); hide(group_head); hide(adopted); hide(headed_group);
    group_names(); lemma_group_head(g, ks, st, pos);
    let h = headed_group(g, st); let k = group_head(g); let (t, p) = entries_out(g.entries@, ks, pos);
    lemma_entries_out(k, g.entries@, ks, st, pos, h, pos);
    let h2 = VGroup { entries: h.entries + entries_back(g.entries@), ..h };
    lemma_groups_out(k + t, g, g.groups@.len(), ks, st, pos, h2, p);
    lemma_headed(g, st);
}
pub proof fn lemma_headed(g: Group, st: VGroup) ensures headed_group(g, st).entries == st.entries, headed_group(g, st).groups == st.groups {}

} // verus!
} // roundtrip_group
pub mod roundtrip_data { // format/roundtrip_data.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*; use crate::format::roundtrip_parts::*; use crate::format::roundtrip_values::*; use crate::format::roundtrip_entry::*; use crate::format::roundtrip_group::*;
verus! {
// ---- the tables of a database ----
/// Data, added one by one.
pub open spec fn datas_in<K>(m: Map<K, Vec<u8>>, o: Seq<K>, b: Map<K, Seq<u8>>) -> Map<K, Seq<u8>> decreases o.len() {
    if o.len() == 0 { b } else { datas_in(m, o.drop_last(), b).insert(o.last(), m[o.last()]@) }
}
/// Texts, added one by one.
pub open spec fn texts_in(m: Map<String, String>, o: Seq<String>, b: Map<String, Seq<char>>) -> Map<String, Seq<char>> decreases o.len() {
    if o.len() == 0 { b } else { texts_in(m, o.drop_last(), b).insert(o.last(), m[o.last()]@) }
}

pub proof fn table_names()
    ensures
        plain_name("Binaries"@), "Binaries"@.len() == 8,
        plain_name("Binary"@), "Binary"@.len() == 6,
        plain_name("Compressed"@), "Compressed"@.len() == 10, "Compressed"@[1] == 'o',
        plain_name("CustomData"@), "CustomData"@.len() == 10, "CustomData"@[1] == 'u',
        plain_name("CustomIcons"@), "CustomIcons"@.len() == 11,
        plain_name("ID"@), "ID"@.len() == 2,
        plain_name("Icon"@), "Icon"@.len() == 4, "Icon"@[1] == 'c',
        plain_name("Item"@), "Item"@.len() == 4, "Item"@[1] == 't',
{
    assert(plain_name("Binaries"@)) by { reveal_strlit("Binaries"); } reveal_strlit("Binaries");
    assert(plain_name("Binary"@)) by { reveal_strlit("Binary"); } reveal_strlit("Binary");
    assert(plain_name("Compressed"@)) by { reveal_strlit("Compressed"); } reveal_strlit("Compressed");
    assert(plain_name("CustomData"@)) by { reveal_strlit("CustomData"); } reveal_strlit("CustomData");
    assert(plain_name("CustomIcons"@)) by { reveal_strlit("CustomIcons"); } reveal_strlit("CustomIcons");
    assert(plain_name("ID"@)) by { reveal_strlit("ID"); } reveal_strlit("ID");
    assert(plain_name("Icon"@)) by { reveal_strlit("Icon"); } reveal_strlit("Icon");
    assert(plain_name("Item"@)) by { reveal_strlit("Item"); } reveal_strlit("Item");
}


pub open spec fn pool_r() -> Step<Map<BinaryId, Seq<u8>>> { |st: Map<BinaryId, Seq<u8>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match pool_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_pool_run(ev: Seq<Ev>, st: Map<BinaryId, Seq<u8>>, pos: int)
    ensures run(pool_r(), "Binaries"@, ev, st, pos) == (match pool_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match pool_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_pool_run(e, t, pos); }, None => {} },
            _ => lemma_pool_run(ev.skip(1), st, pos),
        }
    }
}


pub proof fn pool_takes(i: BinaryId, d: Seq<u8>, st: Map<BinaryId, Seq<u8>>, pos: int)
    ensures takes(pool_r(), pool_tree(i, d), st, pos, st.insert(i, d), pos), named(pool_tree(i, d))
{
    hide(zipped); hide(bin); hide(plain_name); table_names(); broadcast use crate::vx::lemma_string_of;
    let a = Seq::<(Seq<char>, Seq<char>)>::empty().push(("ID"@, i.0@)).push(("Compressed"@, "True"@));
    lemma_marks(i.0@); assert(a =~= seq![("ID"@, i.0@), ("Compressed"@, "True"@)]);
    yields_zip("Binary"@, a, d);
    take::<RZip, Map<BinaryId, Seq<u8>>>(pool_r(), pool_tree(i, d), st, pos, st.insert(i, d), d);
}
pub proof fn lemma_pool(m: Map<BinaryId, Vec<u8>>, o: Seq<BinaryId>, st: Map<BinaryId, Seq<u8>>, pos: int)
    ensures takes_all(pool_r(), "Binaries"@, pool_trees(m, o), st, pos, datas_in(m, o, st), pos), all_named(pool_trees(m, o))
    decreases o.len()
{
    hide(pool_tree);
    if o.len() == 0 { lemma_none(pool_r(), "Binaries"@, st, pos); assert(pool_trees(m, o) =~= Seq::empty()); } else {
        let d = o.drop_last(); let x = o.last(); let n = pool_tree(x, m[x]@);
        lemma_pool(m, d, st, pos); assert(pool_trees(m, o) =~= pool_trees(m, d).push(n));
        pool_takes(x, m[x]@, datas_in(m, d, st), pos); table_names(); assert(tag(n) == "Binary"@) by { reveal(pool_tree); }
        lemma_push(pool_r(), "Binaries"@, pool_trees(m, d), n, st, pos, datas_in(m, d, st), pos, datas_in(m, o, st), pos); lemma_push_named(pool_trees(m, d), n);
    }
}


pub open spec fn items_r() -> Step<Map<String, Seq<char>>> { |st: Map<String, Seq<char>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match items_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_items_run(ev: Seq<Ev>, st: Map<String, Seq<char>>, pos: int)
    ensures run(items_r(), "CustomData"@, ev, st, pos) == (match items_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match items_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_items_run(e, t, pos); }, None => {} },
            _ => lemma_items_run(ev.skip(1), st, pos),
        }
    }
}


pub open spec fn pictures_r() -> Step<Map<CustomIconUuid, Seq<u8>>> { |st: Map<CustomIconUuid, Seq<u8>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match pictures_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_pictures_run(ev: Seq<Ev>, st: Map<CustomIconUuid, Seq<u8>>, pos: int)
    ensures run(pictures_r(), "CustomIcons"@, ev, st, pos) == (match pictures_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match pictures_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_pictures_run(e, t, pos); }, None => {} },
            _ => lemma_pictures_run(ev.skip(1), st, pos),
        }
    }
}


pub proof fn items_takes(k: String, v: Seq<char>, st: Map<String, Seq<char>>, pos: int)
    ensures takes(items_r(), item_tree(k@, v), st, pos, st.insert(k, v), pos), named(item_tree(k@, v))
{
    hide(item_step); table_names(); broadcast use {crate::vx::lemma_string_of, crate::vx::uuid::lemma_uuid_for};
    let t = item_tree(k@, v); let s2 = st.insert(k, v); let z = Two { a: Some(k@), b: Some(v) }; let n0 = none::<Seq<char>, Seq<char>>();
    lemma_item(k@, v, pos);
    assert forall|ev: Seq<Ev>| (run(item_r(), tag(t), ev, n0, pos) matches Some((x, e, p)) && x == z && p == pos) implies #[trigger] items_r()(st, tag(t), marks(t), ev, pos) == Some((s2, run(item_r(), tag(t), ev, n0, pos).unwrap().1, pos)) by { lemma_item_run(ev, n0, pos); }
    section(items_r(), t, st, pos, s2, pos, item_r(), n0, z);
}
pub proof fn lemma_items(m: Map<String, String>, o: Seq<String>, st: Map<String, Seq<char>>, pos: int)
    ensures takes_all(items_r(), "CustomData"@, item_trees(m, o), st, pos, texts_in(m, o, st), pos), all_named(item_trees(m, o))
    decreases o.len()
{
    if o.len() == 0 { lemma_none(items_r(), "CustomData"@, st, pos); assert(item_trees(m, o) =~= Seq::empty()); } else {
        let d = o.drop_last(); let x = o.last(); let n = item_tree(x@, m[x]@);
        lemma_items(m, d, st, pos); assert(item_trees(m, o) =~= item_trees(m, d).push(n));
        items_takes(x, m[x]@, texts_in(m, d, st), pos); table_names();
        lemma_push(items_r(), "CustomData"@, item_trees(m, d), n, st, pos, texts_in(m, d, st), pos, texts_in(m, o, st), pos); lemma_push_named(item_trees(m, d), n);
    }
}


pub proof fn pictures_takes(k: CustomIconUuid, v: Seq<u8>, st: Map<CustomIconUuid, Seq<u8>>, pos: int)
    ensures takes(pictures_r(), picture_tree(k, v), st, pos, st.insert(k, v), pos), named(picture_tree(k, v))
{
    hide(picture_step); table_names(); broadcast use {crate::vx::lemma_string_of, crate::vx::uuid::lemma_uuid_for};
    let t = picture_tree(k, v); let s2 = st.insert(k, v); let z = Two { a: Some(k.0@), b: Some(v) }; let n0 = none::<Seq<u8>, Seq<u8>>();
    lemma_picture(k, v, pos);
    assert forall|ev: Seq<Ev>| (run(picture_r(), tag(t), ev, n0, pos) matches Some((x, e, p)) && x == z && p == pos) implies #[trigger] pictures_r()(st, tag(t), marks(t), ev, pos) == Some((s2, run(picture_r(), tag(t), ev, n0, pos).unwrap().1, pos)) by { lemma_picture_run(ev, n0, pos); }
    section(pictures_r(), t, st, pos, s2, pos, picture_r(), n0, z);
}
pub proof fn lemma_pictures(m: Map<CustomIconUuid, Vec<u8>>, o: Seq<CustomIconUuid>, st: Map<CustomIconUuid, Seq<u8>>, pos: int)
    ensures takes_all(pictures_r(), "CustomIcons"@, picture_trees(m, o), st, pos, datas_in(m, o, st), pos), all_named(picture_trees(m, o))
    decreases o.len()
{
    if o.len() == 0 { lemma_none(pictures_r(), "CustomIcons"@, st, pos); assert(picture_trees(m, o) =~= Seq::empty()); } else {
        let d = o.drop_last(); let x = o.last(); let n = picture_tree(x, m[x]@);
        lemma_pictures(m, d, st, pos); assert(picture_trees(m, o) =~= picture_trees(m, d).push(n));
        pictures_takes(x, m[x]@, datas_in(m, d, st), pos); table_names();
        lemma_push(pictures_r(), "CustomIcons"@, picture_trees(m, d), n, st, pos, datas_in(m, d, st), pos, datas_in(m, o, st), pos); lemma_push_named(picture_trees(m, d), n);
    }
}

// ---- the meta data ----

pub open spec fn meta_r() -> Step<VData> { |st: VData, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| match meta_step(st, n, a, ev) { Some((t, e)) => Some((t, e, pos)), None => None } }
pub proof fn lemma_meta_run(ev: Seq<Ev>, st: VData, pos: int)
    ensures run(meta_r(), "Meta"@, ev, st, pos) == (match meta_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match meta_step(st, n, a, ev.skip(1)) { Some((t, e)) => if e.len() < ev.len() { lemma_meta_run(e, t, pos); }, None => {} },
            _ => lemma_meta_run(ev.skip(1), st, pos),
        }
    }
}

pub proof fn meta_names()
    ensures
        plain_name("Binaries"@), "Binaries"@.len() == 8,
        plain_name("Color"@), "Color"@.len() == 5,
        plain_name("CustomData"@), "CustomData"@.len() == 10, "CustomData"@[0] == 'C',
        plain_name("CustomIcons"@), "CustomIcons"@.len() == 11,
        plain_name("DatabaseDescription"@), "DatabaseDescription"@.len() == 19, "DatabaseDescription"@[0] == 'D', "DatabaseDescription"@[8] == 'D',
        plain_name("DatabaseDescriptionChanged"@), "DatabaseDescriptionChanged"@.len() == 26, "DatabaseDescriptionChanged"@[0] == 'D',
        plain_name("DatabaseName"@), "DatabaseName"@.len() == 12,
        plain_name("DatabaseNameChanged"@), "DatabaseNameChanged"@.len() == 19, "DatabaseNameChanged"@[0] == 'D', "DatabaseNameChanged"@[8] == 'N',
        plain_name("DefaultUserName"@), "DefaultUserName"@.len() == 15, "DefaultUserName"@[0] == 'D',
        plain_name("DefaultUserNameChanged"@), "DefaultUserNameChanged"@.len() == 22, "DefaultUserNameChanged"@[0] == 'D',
        plain_name("EntryTemplatesGroup"@), "EntryTemplatesGroup"@.len() == 19, "EntryTemplatesGroup"@[0] == 'E',
        plain_name("EntryTemplatesGroupChanged"@), "EntryTemplatesGroupChanged"@.len() == 26, "EntryTemplatesGroupChanged"@[0] == 'E',
        plain_name("Generator"@), "Generator"@.len() == 9,
        plain_name("HeaderHash"@), "HeaderHash"@.len() == 10, "HeaderHash"@[0] == 'H',
        plain_name("HistoryMaxItems"@), "HistoryMaxItems"@.len() == 15, "HistoryMaxItems"@[0] == 'H',
        plain_name("HistoryMaxSize"@), "HistoryMaxSize"@.len() == 14, "HistoryMaxSize"@[0] == 'H',
        plain_name("LastSelectedGroup"@), "LastSelectedGroup"@.len() == 17, "LastSelectedGroup"@[0] == 'L',
        plain_name("LastTopVisibleGroup"@), "LastTopVisibleGroup"@.len() == 19, "LastTopVisibleGroup"@[0] == 'L',
        plain_name("MaintenanceHistoryDays"@), "MaintenanceHistoryDays"@.len() == 22, "MaintenanceHistoryDays"@[0] == 'M',
        plain_name("MasterKeyChangeForce"@), "MasterKeyChangeForce"@.len() == 20,
        plain_name("MasterKeyChangeRec"@), "MasterKeyChangeRec"@.len() == 18,
        plain_name("MasterKeyChanged"@), "MasterKeyChanged"@.len() == 16, "MasterKeyChanged"@[1] == 'a',
        plain_name("MemoryProtection"@), "MemoryProtection"@.len() == 16, "MemoryProtection"@[1] == 'e',
        plain_name("Meta"@), "Meta"@.len() == 4,
        plain_name("RecycleBinChanged"@), "RecycleBinChanged"@.len() == 17, "RecycleBinChanged"@[0] == 'R', "RecycleBinChanged"@[10] == 'C',
        plain_name("RecycleBinEnabled"@), "RecycleBinEnabled"@.len() == 17, "RecycleBinEnabled"@[0] == 'R', "RecycleBinEnabled"@[10] == 'E',
        plain_name("RecycleBinUUID"@), "RecycleBinUUID"@.len() == 14, "RecycleBinUUID"@[0] == 'R',
{
    assert(plain_name("Binaries"@)) by { reveal_strlit("Binaries"); } reveal_strlit("Binaries");
    assert(plain_name("Color"@)) by { reveal_strlit("Color"); } reveal_strlit("Color");
    assert(plain_name("CustomData"@)) by { reveal_strlit("CustomData"); } reveal_strlit("CustomData");
    assert(plain_name("CustomIcons"@)) by { reveal_strlit("CustomIcons"); } reveal_strlit("CustomIcons");
    assert(plain_name("DatabaseDescription"@)) by { reveal_strlit("DatabaseDescription"); } reveal_strlit("DatabaseDescription");
    assert(plain_name("DatabaseDescriptionChanged"@)) by { reveal_strlit("DatabaseDescriptionChanged"); } reveal_strlit("DatabaseDescriptionChanged");
    assert(plain_name("DatabaseName"@)) by { reveal_strlit("DatabaseName"); } reveal_strlit("DatabaseName");
    assert(plain_name("DatabaseNameChanged"@)) by { reveal_strlit("DatabaseNameChanged"); } reveal_strlit("DatabaseNameChanged");
    assert(plain_name("DefaultUserName"@)) by { reveal_strlit("DefaultUserName"); } reveal_strlit("DefaultUserName");
    assert(plain_name("DefaultUserNameChanged"@)) by { reveal_strlit("DefaultUserNameChanged"); } reveal_strlit("DefaultUserNameChanged");
    assert(plain_name("EntryTemplatesGroup"@)) by { reveal_strlit("EntryTemplatesGroup"); } reveal_strlit("EntryTemplatesGroup");
    assert(plain_name("EntryTemplatesGroupChanged"@)) by { reveal_strlit("EntryTemplatesGroupChanged"); } reveal_strlit("EntryTemplatesGroupChanged");
    assert(plain_name("Generator"@)) by { reveal_strlit("Generator"); } reveal_strlit("Generator");
    assert(plain_name("HeaderHash"@)) by { reveal_strlit("HeaderHash"); } reveal_strlit("HeaderHash");
    assert(plain_name("HistoryMaxItems"@)) by { reveal_strlit("HistoryMaxItems"); } reveal_strlit("HistoryMaxItems");
    assert(plain_name("HistoryMaxSize"@)) by { reveal_strlit("HistoryMaxSize"); } reveal_strlit("HistoryMaxSize");
    assert(plain_name("LastSelectedGroup"@)) by { reveal_strlit("LastSelectedGroup"); } reveal_strlit("LastSelectedGroup");
    assert(plain_name("LastTopVisibleGroup"@)) by { reveal_strlit("LastTopVisibleGroup"); } reveal_strlit("LastTopVisibleGroup");
    assert(plain_name("MaintenanceHistoryDays"@)) by { reveal_strlit("MaintenanceHistoryDays"); } reveal_strlit("MaintenanceHistoryDays");
    assert(plain_name("MasterKeyChangeForce"@)) by { reveal_strlit("MasterKeyChangeForce"); } reveal_strlit("MasterKeyChangeForce");
    assert(plain_name("MasterKeyChangeRec"@)) by { reveal_strlit("MasterKeyChangeRec"); } reveal_strlit("MasterKeyChangeRec");
    assert(plain_name("MasterKeyChanged"@)) by { reveal_strlit("MasterKeyChanged"); } reveal_strlit("MasterKeyChanged");
    assert(plain_name("MemoryProtection"@)) by { reveal_strlit("MemoryProtection"); } reveal_strlit("MemoryProtection");
    assert(plain_name("Meta"@)) by { reveal_strlit("Meta"); } reveal_strlit("Meta");
    assert(plain_name("RecycleBinChanged"@)) by { reveal_strlit("RecycleBinChanged"); } reveal_strlit("RecycleBinChanged");
    assert(plain_name("RecycleBinEnabled"@)) by { reveal_strlit("RecycleBinEnabled"); } reveal_strlit("RecycleBinEnabled");
    assert(plain_name("RecycleBinUUID"@)) by { reveal_strlit("RecycleBinUUID"); } reveal_strlit("RecycleBinUUID");
}

pub proof fn meta_takes_Binaries(d: Database, st: VData, pos: int)
    ensures takes(meta_r(), node("Binaries"@, pool_trees(d.binaries@, key_order(d.binaries))), st, pos, VData { tables: VTables { binaries: datas_in(d.binaries@, key_order(d.binaries), Map::empty()), ..st.tables }, ..st }, pos), named(node("Binaries"@, pool_trees(d.binaries@, key_order(d.binaries))))
{
    hide(pool_step); hide(plain_name); meta_names();
    let t = node("Binaries"@, pool_trees(d.binaries@, key_order(d.binaries))); let v = datas_in(d.binaries@, key_order(d.binaries), Map::empty()); let s2 = VData { tables: VTables { binaries: v, ..st.tables }, ..st }; let n0 = Map::<BinaryId, Seq<u8>>::empty();
    lemma_pool(d.binaries@, key_order(d.binaries), n0, pos);
    assert forall|ev: Seq<Ev>| (run(pool_r(), tag(t), ev, n0, pos) matches Some((x, e, p)) && x == v && p == pos) implies #[trigger] meta_r()(st, tag(t), marks(t), ev, pos) == Some((s2, run(pool_r(), tag(t), ev, n0, pos).unwrap().1, pos)) by { lemma_pool_run(ev, n0, pos); }
    section(meta_r(), t, st, pos, s2, pos, pool_r(), n0, v);
}

pub proof fn meta_takes_CustomData(d: Database, st: VData, pos: int)
    ensures takes(meta_r(), node("CustomData"@, item_trees(d.custom_data@, key_order(d.custom_data))), st, pos, VData { tables: VTables { custom_data: texts_in(d.custom_data@, key_order(d.custom_data), Map::empty()), ..st.tables }, ..st }, pos), named(node("CustomData"@, item_trees(d.custom_data@, key_order(d.custom_data))))
{
    hide(items_step); hide(plain_name); meta_names();
    let t = node("CustomData"@, item_trees(d.custom_data@, key_order(d.custom_data))); let v = texts_in(d.custom_data@, key_order(d.custom_data), Map::empty()); let s2 = VData { tables: VTables { custom_data: v, ..st.tables }, ..st }; let n0 = Map::<String, Seq<char>>::empty();
    lemma_items(d.custom_data@, key_order(d.custom_data), n0, pos);
    assert forall|ev: Seq<Ev>| (run(items_r(), tag(t), ev, n0, pos) matches Some((x, e, p)) && x == v && p == pos) implies #[trigger] meta_r()(st, tag(t), marks(t), ev, pos) == Some((s2, run(items_r(), tag(t), ev, n0, pos).unwrap().1, pos)) by { lemma_items_run(ev, n0, pos); }
    section(meta_r(), t, st, pos, s2, pos, items_r(), n0, v);
}

pub proof fn meta_takes_CustomIcons(d: Database, st: VData, pos: int)
    ensures takes(meta_r(), node("CustomIcons"@, picture_trees(d.custom_icons@, key_order(d.custom_icons))), st, pos, VData { tables: VTables { custom_icons: datas_in(d.custom_icons@, key_order(d.custom_icons), Map::empty()), ..st.tables }, ..st }, pos), named(node("CustomIcons"@, picture_trees(d.custom_icons@, key_order(d.custom_icons))))
{
    hide(pictures_step); hide(plain_name); meta_names();
    let t = node("CustomIcons"@, picture_trees(d.custom_icons@, key_order(d.custom_icons))); let v = datas_in(d.custom_icons@, key_order(d.custom_icons), Map::empty()); let s2 = VData { tables: VTables { custom_icons: v, ..st.tables }, ..st }; let n0 = Map::<CustomIconUuid, Seq<u8>>::empty();
    lemma_pictures(d.custom_icons@, key_order(d.custom_icons), n0, pos);
    assert forall|ev: Seq<Ev>| (run(pictures_r(), tag(t), ev, n0, pos) matches Some((x, e, p)) && x == v && p == pos) implies #[trigger] meta_r()(st, tag(t), marks(t), ev, pos) == Some((s2, run(pictures_r(), tag(t), ev, n0, pos).unwrap().1, pos)) by { lemma_pictures_run(ev, n0, pos); }
    section(meta_r(), t, st, pos, s2, pos, pictures_r(), n0, v);
}

pub proof fn meta_takes_MemoryProtection(d: Database, st: VData, pos: int)
    ensures takes(meta_r(), protection_tree(d), st, pos, VData { protect: vprotect(d), ..st }, pos), named(protection_tree(d))
{
    hide(protection_step); hide(plain_name); meta_names();
    let t = protection_tree(d); let v = vprotect(d); let s2 = VData { protect: v, ..st }; let n0 = st.protect;
    lemma_protection(d, n0, pos);
    assert forall|ev: Seq<Ev>| (run(protection_r(), tag(t), ev, n0, pos) matches Some((x, e, p)) && x == v && p == pos) implies #[trigger] meta_r()(st, tag(t), marks(t), ev, pos) == Some((s2, run(protection_r(), tag(t), ev, n0, pos).unwrap().1, pos)) by { lemma_protection_run(ev, n0, pos); }
    section(meta_r(), t, st, pos, s2, pos, protection_r(), n0, v);
}

pub proof fn meta_takes_Color(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), color_tree("Color"@, d.color), st, pos, VData { limits: VLimits { color: d.color, ..st.limits }, ..st }, pos), named(color_tree("Color"@, d.color))
{

    meta_names(); yields_color("Color"@, d.color);
    take::<RColor, VData>(meta_r(), color_tree("Color"@, d.color), st, pos, VData { limits: VLimits { color: d.color, ..st.limits }, ..st }, d.color);
}

pub proof fn meta_takes_DatabaseDescription(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("DatabaseDescription"@, d.description@), st, pos, VData { names: VNames { description: d.description@, ..st.names }, ..st }, pos), named(leaf("DatabaseDescription"@, d.description@))
{

    meta_names(); yields_text("DatabaseDescription"@, seq![], d.description@);
    take::<RText, VData>(meta_r(), leaf("DatabaseDescription"@, d.description@), st, pos, VData { names: VNames { description: d.description@, ..st.names }, ..st }, d.description@);
}

pub proof fn meta_takes_DatabaseDescriptionChanged(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), time_leaf("DatabaseDescriptionChanged"@, d.description_changed), st, pos, VData { names: VNames { description_changed: d.description_changed, ..st.names }, ..st }, pos), named(time_leaf("DatabaseDescriptionChanged"@, d.description_changed))
{

    meta_names(); yields_time("DatabaseDescriptionChanged"@, seq![], d.description_changed);
    take::<RTime, VData>(meta_r(), time_leaf("DatabaseDescriptionChanged"@, d.description_changed), st, pos, VData { names: VNames { description_changed: d.description_changed, ..st.names }, ..st }, d.description_changed);
}

pub proof fn meta_takes_DatabaseName(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("DatabaseName"@, d.name@), st, pos, VData { names: VNames { name: d.name@, ..st.names }, ..st }, pos), named(leaf("DatabaseName"@, d.name@))
{

    meta_names(); yields_text("DatabaseName"@, seq![], d.name@);
    take::<RText, VData>(meta_r(), leaf("DatabaseName"@, d.name@), st, pos, VData { names: VNames { name: d.name@, ..st.names }, ..st }, d.name@);
}

pub proof fn meta_takes_DatabaseNameChanged(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), time_leaf("DatabaseNameChanged"@, d.name_changed), st, pos, VData { names: VNames { name_changed: d.name_changed, ..st.names }, ..st }, pos), named(time_leaf("DatabaseNameChanged"@, d.name_changed))
{

    meta_names(); yields_time("DatabaseNameChanged"@, seq![], d.name_changed);
    take::<RTime, VData>(meta_r(), time_leaf("DatabaseNameChanged"@, d.name_changed), st, pos, VData { names: VNames { name_changed: d.name_changed, ..st.names }, ..st }, d.name_changed);
}

pub proof fn meta_takes_DefaultUserName(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("DefaultUserName"@, d.def_username@), st, pos, VData { names: VNames { def_username: d.def_username@, ..st.names }, ..st }, pos), named(leaf("DefaultUserName"@, d.def_username@))
{

    meta_names(); yields_text("DefaultUserName"@, seq![], d.def_username@);
    take::<RText, VData>(meta_r(), leaf("DefaultUserName"@, d.def_username@), st, pos, VData { names: VNames { def_username: d.def_username@, ..st.names }, ..st }, d.def_username@);
}

pub proof fn meta_takes_DefaultUserNameChanged(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), time_leaf("DefaultUserNameChanged"@, d.def_username_changed), st, pos, VData { names: VNames { def_username_changed: d.def_username_changed, ..st.names }, ..st }, pos), named(time_leaf("DefaultUserNameChanged"@, d.def_username_changed))
{

    meta_names(); yields_time("DefaultUserNameChanged"@, seq![], d.def_username_changed);
    take::<RTime, VData>(meta_r(), time_leaf("DefaultUserNameChanged"@, d.def_username_changed), st, pos, VData { names: VNames { def_username_changed: d.def_username_changed, ..st.names }, ..st }, d.def_username_changed);
}

pub proof fn meta_takes_EntryTemplatesGroup(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("EntryTemplatesGroup"@, b64(d.entry_templates_group_uuid.0@)), st, pos, VData { places: VPlaces { entry_templates_group_uuid: d.entry_templates_group_uuid.0@, ..st.places }, ..st }, pos), named(leaf("EntryTemplatesGroup"@, b64(d.entry_templates_group_uuid.0@)))
{

    meta_names(); yields_id("EntryTemplatesGroup"@, seq![], d.entry_templates_group_uuid.0);
    take::<RId, VData>(meta_r(), leaf("EntryTemplatesGroup"@, b64(d.entry_templates_group_uuid.0@)), st, pos, VData { places: VPlaces { entry_templates_group_uuid: d.entry_templates_group_uuid.0@, ..st.places }, ..st }, d.entry_templates_group_uuid.0@);
}

pub proof fn meta_takes_EntryTemplatesGroupChanged(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), time_leaf("EntryTemplatesGroupChanged"@, d.entry_templates_group_changed), st, pos, VData { places: VPlaces { entry_templates_group_changed: d.entry_templates_group_changed, ..st.places }, ..st }, pos), named(time_leaf("EntryTemplatesGroupChanged"@, d.entry_templates_group_changed))
{

    meta_names(); yields_time("EntryTemplatesGroupChanged"@, seq![], d.entry_templates_group_changed);
    take::<RTime, VData>(meta_r(), time_leaf("EntryTemplatesGroupChanged"@, d.entry_templates_group_changed), st, pos, VData { places: VPlaces { entry_templates_group_changed: d.entry_templates_group_changed, ..st.places }, ..st }, d.entry_templates_group_changed);
}

pub proof fn meta_takes_Generator(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("Generator"@, common::GENERATOR_NAME@), st, pos, VData { names: VNames { generator: common::GENERATOR_NAME@, ..st.names }, ..st }, pos), named(leaf("Generator"@, common::GENERATOR_NAME@))
{

    meta_names(); yields_text("Generator"@, seq![], common::GENERATOR_NAME@);
    take::<RText, VData>(meta_r(), leaf("Generator"@, common::GENERATOR_NAME@), st, pos, VData { names: VNames { generator: common::GENERATOR_NAME@, ..st.names }, ..st }, common::GENERATOR_NAME@);
}

pub proof fn meta_takes_HeaderHash(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("HeaderHash"@, b64(hash)), st, pos, VData { tables: VTables { header_hash: Some(hash), ..st.tables }, ..st }, pos), named(leaf("HeaderHash"@, b64(hash)))
{

    meta_names(); yields_bin("HeaderHash"@, seq![], hash);
    take::<RBin, VData>(meta_r(), leaf("HeaderHash"@, b64(hash)), st, pos, VData { tables: VTables { header_hash: Some(hash), ..st.tables }, ..st }, hash);
}

pub proof fn meta_takes_HistoryMaxItems(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("HistoryMaxItems"@, dec_i32(d.history_max_items)), st, pos, VData { limits: VLimits { history_max_items: d.history_max_items, ..st.limits }, ..st }, pos), named(leaf("HistoryMaxItems"@, dec_i32(d.history_max_items)))
{

    meta_names(); yields_num("HistoryMaxItems"@, seq![], d.history_max_items);
    take::<RNum, VData>(meta_r(), leaf("HistoryMaxItems"@, dec_i32(d.history_max_items)), st, pos, VData { limits: VLimits { history_max_items: d.history_max_items, ..st.limits }, ..st }, d.history_max_items);
}

pub proof fn meta_takes_HistoryMaxSize(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("HistoryMaxSize"@, dec_i32(d.history_max_size)), st, pos, VData { limits: VLimits { history_max_size: d.history_max_size, ..st.limits }, ..st }, pos), named(leaf("HistoryMaxSize"@, dec_i32(d.history_max_size)))
{

    meta_names(); yields_num("HistoryMaxSize"@, seq![], d.history_max_size);
    take::<RNum, VData>(meta_r(), leaf("HistoryMaxSize"@, dec_i32(d.history_max_size)), st, pos, VData { limits: VLimits { history_max_size: d.history_max_size, ..st.limits }, ..st }, d.history_max_size);
}

pub proof fn meta_takes_LastSelectedGroup(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("LastSelectedGroup"@, b64(d.last_selected_group.0@)), st, pos, VData { places: VPlaces { last_selected_group: d.last_selected_group.0@, ..st.places }, ..st }, pos), named(leaf("LastSelectedGroup"@, b64(d.last_selected_group.0@)))
{

    meta_names(); yields_id("LastSelectedGroup"@, seq![], d.last_selected_group.0);
    take::<RId, VData>(meta_r(), leaf("LastSelectedGroup"@, b64(d.last_selected_group.0@)), st, pos, VData { places: VPlaces { last_selected_group: d.last_selected_group.0@, ..st.places }, ..st }, d.last_selected_group.0@);
}

pub proof fn meta_takes_LastTopVisibleGroup(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("LastTopVisibleGroup"@, b64(d.last_top_visible_group.0@)), st, pos, VData { places: VPlaces { last_top_visible_group: d.last_top_visible_group.0@, ..st.places }, ..st }, pos), named(leaf("LastTopVisibleGroup"@, b64(d.last_top_visible_group.0@)))
{

    meta_names(); yields_id("LastTopVisibleGroup"@, seq![], d.last_top_visible_group.0);
    take::<RId, VData>(meta_r(), leaf("LastTopVisibleGroup"@, b64(d.last_top_visible_group.0@)), st, pos, VData { places: VPlaces { last_top_visible_group: d.last_top_visible_group.0@, ..st.places }, ..st }, d.last_top_visible_group.0@);
}

pub proof fn meta_takes_MaintenanceHistoryDays(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("MaintenanceHistoryDays"@, dec_i32(d.maintenance_history_days)), st, pos, VData { limits: VLimits { maintenance_history_days: d.maintenance_history_days, ..st.limits }, ..st }, pos), named(leaf("MaintenanceHistoryDays"@, dec_i32(d.maintenance_history_days)))
{

    meta_names(); yields_num("MaintenanceHistoryDays"@, seq![], d.maintenance_history_days);
    take::<RNum, VData>(meta_r(), leaf("MaintenanceHistoryDays"@, dec_i32(d.maintenance_history_days)), st, pos, VData { limits: VLimits { maintenance_history_days: d.maintenance_history_days, ..st.limits }, ..st }, d.maintenance_history_days);
}

pub proof fn meta_takes_MasterKeyChangeForce(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("MasterKeyChangeForce"@, dec_i32(d.master_key_change_force)), st, pos, VData { limits: VLimits { master_key_change_force: d.master_key_change_force, ..st.limits }, ..st }, pos), named(leaf("MasterKeyChangeForce"@, dec_i32(d.master_key_change_force)))
{

    meta_names(); yields_num("MasterKeyChangeForce"@, seq![], d.master_key_change_force);
    take::<RNum, VData>(meta_r(), leaf("MasterKeyChangeForce"@, dec_i32(d.master_key_change_force)), st, pos, VData { limits: VLimits { master_key_change_force: d.master_key_change_force, ..st.limits }, ..st }, d.master_key_change_force);
}

pub proof fn meta_takes_MasterKeyChangeRec(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("MasterKeyChangeRec"@, dec_i32(d.master_key_change_rec)), st, pos, VData { limits: VLimits { master_key_change_rec: d.master_key_change_rec, ..st.limits }, ..st }, pos), named(leaf("MasterKeyChangeRec"@, dec_i32(d.master_key_change_rec)))
{

    meta_names(); yields_num("MasterKeyChangeRec"@, seq![], d.master_key_change_rec);
    take::<RNum, VData>(meta_r(), leaf("MasterKeyChangeRec"@, dec_i32(d.master_key_change_rec)), st, pos, VData { limits: VLimits { master_key_change_rec: d.master_key_change_rec, ..st.limits }, ..st }, d.master_key_change_rec);
}

pub proof fn meta_takes_MasterKeyChanged(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), time_leaf("MasterKeyChanged"@, d.master_key_changed), st, pos, VData { limits: VLimits { master_key_changed: d.master_key_changed, ..st.limits }, ..st }, pos), named(time_leaf("MasterKeyChanged"@, d.master_key_changed))
{

    meta_names(); yields_time("MasterKeyChanged"@, seq![], d.master_key_changed);
    take::<RTime, VData>(meta_r(), time_leaf("MasterKeyChanged"@, d.master_key_changed), st, pos, VData { limits: VLimits { master_key_changed: d.master_key_changed, ..st.limits }, ..st }, d.master_key_changed);
}

pub proof fn meta_takes_RecycleBinChanged(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), time_leaf("RecycleBinChanged"@, d.recycle_bin_changed), st, pos, VData { places: VPlaces { recycle_bin_changed: d.recycle_bin_changed, ..st.places }, ..st }, pos), named(time_leaf("RecycleBinChanged"@, d.recycle_bin_changed))
{

    meta_names(); yields_time("RecycleBinChanged"@, seq![], d.recycle_bin_changed);
    take::<RTime, VData>(meta_r(), time_leaf("RecycleBinChanged"@, d.recycle_bin_changed), st, pos, VData { places: VPlaces { recycle_bin_changed: d.recycle_bin_changed, ..st.places }, ..st }, d.recycle_bin_changed);
}

pub proof fn meta_takes_RecycleBinEnabled(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("RecycleBinEnabled"@, bool_text(Some(d.recycle_bin_enabled))), st, pos, VData { places: VPlaces { recycle_bin_enabled: d.recycle_bin_enabled, ..st.places }, ..st }, pos), named(leaf("RecycleBinEnabled"@, bool_text(Some(d.recycle_bin_enabled))))
{

    meta_names(); yields_bool("RecycleBinEnabled"@, seq![], d.recycle_bin_enabled);
    take::<RBool, VData>(meta_r(), leaf("RecycleBinEnabled"@, bool_text(Some(d.recycle_bin_enabled))), st, pos, VData { places: VPlaces { recycle_bin_enabled: d.recycle_bin_enabled, ..st.places }, ..st }, d.recycle_bin_enabled);
}

pub proof fn meta_takes_RecycleBinUUID(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes(meta_r(), leaf("RecycleBinUUID"@, b64(d.recycle_bin_uuid.0@)), st, pos, VData { places: VPlaces { recycle_bin_uuid: d.recycle_bin_uuid.0@, ..st.places }, ..st }, pos), named(leaf("RecycleBinUUID"@, b64(d.recycle_bin_uuid.0@)))
{

    meta_names(); yields_id("RecycleBinUUID"@, seq![], d.recycle_bin_uuid.0);
    take::<RId, VData>(meta_r(), leaf("RecycleBinUUID"@, b64(d.recycle_bin_uuid.0@)), st, pos, VData { places: VPlaces { recycle_bin_uuid: d.recycle_bin_uuid.0@, ..st.places }, ..st }, d.recycle_bin_uuid.0@);
}


/// The database as it is read back.
pub open spec fn data_back(d: Database, hash: Seq<u8>, root: Option<VGroup>) -> VData {
    VData {
        names: VNames { name: d.name@, name_changed: d.name_changed, description: d.description@, description_changed: d.description_changed, def_username: d.def_username@, def_username_changed: d.def_username_changed, generator: common::GENERATOR_NAME@ },
        limits: VLimits { history_max_items: d.history_max_items, history_max_size: d.history_max_size, maintenance_history_days: d.maintenance_history_days, master_key_change_force: d.master_key_change_force, master_key_change_rec: d.master_key_change_rec, master_key_changed: d.master_key_changed, color: d.color },
        places: VPlaces { entry_templates_group_changed: d.entry_templates_group_changed, entry_templates_group_uuid: d.entry_templates_group_uuid.0@, last_selected_group: d.last_selected_group.0@, last_top_visible_group: d.last_top_visible_group.0@, recycle_bin_changed: d.recycle_bin_changed, recycle_bin_enabled: d.recycle_bin_enabled, recycle_bin_uuid: d.recycle_bin_uuid.0@ },
        protect: vprotect(d),
        tables: VTables { binaries: datas_in(d.binaries@, key_order(d.binaries), Map::empty()), custom_data: texts_in(d.custom_data@, key_order(d.custom_data), Map::empty()), custom_icons: datas_in(d.custom_icons@, key_order(d.custom_icons), Map::empty()), header_hash: Some(hash) },
        root,
    }
}
#[verifier::rlimit(100)]
pub proof fn lemma_meta(d: Database, hash: Seq<u8>, st: VData, pos: int)
    ensures takes_all(meta_r(), "Meta"@, meta_kids(d, hash), st, pos, data_back(d, hash, st.root), pos), all_named(meta_kids(d, hash))
{
    hide(meta_r); hide(datas_in); hide(texts_in); hide(pool_trees); hide(item_trees); hide(picture_trees); hide(vprotect);
    meta_names();
    let k0 = Seq::<Tree>::empty(); let s0 = st;
    lemma_none(meta_r(), "Meta"@, s0, pos); lemma_none_named();
    let t1 = node("Binaries"@, pool_trees(d.binaries@, key_order(d.binaries))); let s1 = VData { tables: VTables { binaries: datas_in(d.binaries@, key_order(d.binaries), Map::empty()), ..s0.tables }, ..s0 }; let k1 = k0.push(t1);
    meta_takes_Binaries(d, s0, pos);
    lemma_push(meta_r(), "Meta"@, k0, t1, st, pos, s0, pos, s1, pos); lemma_push_named(k0, t1);
    let t2 = color_tree("Color"@, d.color); let s2 = VData { limits: VLimits { color: d.color, ..s1.limits }, ..s1 }; let k2 = k1.push(t2);
    meta_takes_Color(d, hash, s1, pos);
    lemma_push(meta_r(), "Meta"@, k1, t2, st, pos, s1, pos, s2, pos); lemma_push_named(k1, t2);
    let t3 = node("CustomData"@, item_trees(d.custom_data@, key_order(d.custom_data))); let s3 = VData { tables: VTables { custom_data: texts_in(d.custom_data@, key_order(d.custom_data), Map::empty()), ..s2.tables }, ..s2 }; let k3 = k2.push(t3);
    meta_takes_CustomData(d, s2, pos);
    lemma_push(meta_r(), "Meta"@, k2, t3, st, pos, s2, pos, s3, pos); lemma_push_named(k2, t3);
    let t4 = node("CustomIcons"@, picture_trees(d.custom_icons@, key_order(d.custom_icons))); let s4 = VData { tables: VTables { custom_icons: datas_in(d.custom_icons@, key_order(d.custom_icons), Map::empty()), ..s3.tables }, ..s3 }; let k4 = k3.push(t4);
    meta_takes_CustomIcons(d, s3, pos);
    lemma_push(meta_r(), "Meta"@, k3, t4, st, pos, s3, pos, s4, pos); lemma_push_named(k3, t4);
    let t5 = leaf("DatabaseDescription"@, d.description@); let s5 = VData { names: VNames { description: d.description@, ..s4.names }, ..s4 }; let k5 = k4.push(t5);
    meta_takes_DatabaseDescription(d, hash, s4, pos);
    lemma_push(meta_r(), "Meta"@, k4, t5, st, pos, s4, pos, s5, pos); lemma_push_named(k4, t5);
    let t6 = time_leaf("DatabaseDescriptionChanged"@, d.description_changed); let s6 = VData { names: VNames { description_changed: d.description_changed, ..s5.names }, ..s5 }; let k6 = k5.push(t6);
    meta_takes_DatabaseDescriptionChanged(d, hash, s5, pos);
    lemma_push(meta_r(), "Meta"@, k5, t6, st, pos, s5, pos, s6, pos); lemma_push_named(k5, t6);
    let t7 = leaf("DatabaseName"@, d.name@); let s7 = VData { names: VNames { name: d.name@, ..s6.names }, ..s6 }; let k7 = k6.push(t7);
    meta_takes_DatabaseName(d, hash, s6, pos);
    lemma_push(meta_r(), "Meta"@, k6, t7, st, pos, s6, pos, s7, pos); lemma_push_named(k6, t7);
    let t8 = time_leaf("DatabaseNameChanged"@, d.name_changed); let s8 = VData { names: VNames { name_changed: d.name_changed, ..s7.names }, ..s7 }; let k8 = k7.push(t8);
    meta_takes_DatabaseNameChanged(d, hash, s7, pos);
    lemma_push(meta_r(), "Meta"@, k7, t8, st, pos, s7, pos, s8, pos); lemma_push_named(k7, t8);
    let t9 = leaf("DefaultUserName"@, d.def_username@); let s9 = VData { names: VNames { def_username: d.def_username@, ..s8.names }, ..s8 }; let k9 = k8.push(t9);
    meta_takes_DefaultUserName(d, hash, s8, pos);
    lemma_push(meta_r(), "Meta"@, k8, t9, st, pos, s8, pos, s9, pos); lemma_push_named(k8, t9);
    let t10 = time_leaf("DefaultUserNameChanged"@, d.def_username_changed); let s10 = VData { names: VNames { def_username_changed: d.def_username_changed, ..s9.names }, ..s9 }; let k10 = k9.push(t10);
    meta_takes_DefaultUserNameChanged(d, hash, s9, pos);
    lemma_push(meta_r(), "Meta"@, k9, t10, st, pos, s9, pos, s10, pos); lemma_push_named(k9, t10);
    let t11 = leaf("EntryTemplatesGroup"@, b64(d.entry_templates_group_uuid.0@)); let s11 = VData { places: VPlaces { entry_templates_group_uuid: d.entry_templates_group_uuid.0@, ..s10.places }, ..s10 }; let k11 = k10.push(t11);
    meta_takes_EntryTemplatesGroup(d, hash, s10, pos);
    lemma_push(meta_r(), "Meta"@, k10, t11, st, pos, s10, pos, s11, pos); lemma_push_named(k10, t11);
    let t12 = time_leaf("EntryTemplatesGroupChanged"@, d.entry_templates_group_changed); let s12 = VData { places: VPlaces { entry_templates_group_changed: d.entry_templates_group_changed, ..s11.places }, ..s11 }; let k12 = k11.push(t12);
    meta_takes_EntryTemplatesGroupChanged(d, hash, s11, pos);
    lemma_push(meta_r(), "Meta"@, k11, t12, st, pos, s11, pos, s12, pos); lemma_push_named(k11, t12);
    let t13 = leaf("Generator"@, common::GENERATOR_NAME@); let s13 = VData { names: VNames { generator: common::GENERATOR_NAME@, ..s12.names }, ..s12 }; let k13 = k12.push(t13);
    meta_takes_Generator(d, hash, s12, pos);
    lemma_push(meta_r(), "Meta"@, k12, t13, st, pos, s12, pos, s13, pos); lemma_push_named(k12, t13);
    let t14 = leaf("HeaderHash"@, b64(hash)); let s14 = VData { tables: VTables { header_hash: Some(hash), ..s13.tables }, ..s13 }; let k14 = k13.push(t14);
    meta_takes_HeaderHash(d, hash, s13, pos);
    lemma_push(meta_r(), "Meta"@, k13, t14, st, pos, s13, pos, s14, pos); lemma_push_named(k13, t14);
    let t15 = leaf("HistoryMaxItems"@, dec_i32(d.history_max_items)); let s15 = VData { limits: VLimits { history_max_items: d.history_max_items, ..s14.limits }, ..s14 }; let k15 = k14.push(t15);
    meta_takes_HistoryMaxItems(d, hash, s14, pos);
    lemma_push(meta_r(), "Meta"@, k14, t15, st, pos, s14, pos, s15, pos); lemma_push_named(k14, t15);
    let t16 = leaf("HistoryMaxSize"@, dec_i32(d.history_max_size)); let s16 = VData { limits: VLimits { history_max_size: d.history_max_size, ..s15.limits }, ..s15 }; let k16 = k15.push(t16);
    meta_takes_HistoryMaxSize(d, hash, s15, pos);
    lemma_push(meta_r(), "Meta"@, k15, t16, st, pos, s15, pos, s16, pos); lemma_push_named(k15, t16);
    let t17 = leaf("LastSelectedGroup"@, b64(d.last_selected_group.0@)); let s17 = VData { places: VPlaces { last_selected_group: d.last_selected_group.0@, ..s16.places }, ..s16 }; let k17 = k16.push(t17);
    meta_takes_LastSelectedGroup(d, hash, s16, pos);
    lemma_push(meta_r(), "Meta"@, k16, t17, st, pos, s16, pos, s17, pos); lemma_push_named(k16, t17);
    let t18 = leaf("LastTopVisibleGroup"@, b64(d.last_top_visible_group.0@)); let s18 = VData { places: VPlaces { last_top_visible_group: d.last_top_visible_group.0@, ..s17.places }, ..s17 }; let k18 = k17.push(t18);
    meta_takes_LastTopVisibleGroup(d, hash, s17, pos);
    lemma_push(meta_r(), "Meta"@, k17, t18, st, pos, s17, pos, s18, pos); lemma_push_named(k17, t18);
    let t19 = leaf("MaintenanceHistoryDays"@, dec_i32(d.maintenance_history_days)); let s19 = VData { limits: VLimits { maintenance_history_days: d.maintenance_history_days, ..s18.limits }, ..s18 }; let k19 = k18.push(t19);
    meta_takes_MaintenanceHistoryDays(d, hash, s18, pos);
    lemma_push(meta_r(), "Meta"@, k18, t19, st, pos, s18, pos, s19, pos); lemma_push_named(k18, t19);
    let t20 = leaf("MasterKeyChangeForce"@, dec_i32(d.master_key_change_force)); let s20 = VData { limits: VLimits { master_key_change_force: d.master_key_change_force, ..s19.limits }, ..s19 }; let k20 = k19.push(t20);
    meta_takes_MasterKeyChangeForce(d, hash, s19, pos);
    lemma_push(meta_r(), "Meta"@, k19, t20, st, pos, s19, pos, s20, pos); lemma_push_named(k19, t20);
    let t21 = leaf("MasterKeyChangeRec"@, dec_i32(d.master_key_change_rec)); let s21 = VData { limits: VLimits { master_key_change_rec: d.master_key_change_rec, ..s20.limits }, ..s20 }; let k21 = k20.push(t21);
    meta_takes_MasterKeyChangeRec(d, hash, s20, pos);
    lemma_push(meta_r(), "Meta"@, k20, t21, st, pos, s20, pos, s21, pos); lemma_push_named(k20, t21);
    let t22 = time_leaf("MasterKeyChanged"@, d.master_key_changed); let s22 = VData { limits: VLimits { master_key_changed: d.master_key_changed, ..s21.limits }, ..s21 }; let k22 = k21.push(t22);
    meta_takes_MasterKeyChanged(d, hash, s21, pos);
    lemma_push(meta_r(), "Meta"@, k21, t22, st, pos, s21, pos, s22, pos); lemma_push_named(k21, t22);
    let t23 = protection_tree(d); let s23 = VData { protect: vprotect(d), ..s22 }; let k23 = k22.push(t23);
    meta_takes_MemoryProtection(d, s22, pos);
    lemma_push(meta_r(), "Meta"@, k22, t23, st, pos, s22, pos, s23, pos); lemma_push_named(k22, t23);
    let t24 = time_leaf("RecycleBinChanged"@, d.recycle_bin_changed); let s24 = VData { places: VPlaces { recycle_bin_changed: d.recycle_bin_changed, ..s23.places }, ..s23 }; let k24 = k23.push(t24);
    meta_takes_RecycleBinChanged(d, hash, s23, pos);
    lemma_push(meta_r(), "Meta"@, k23, t24, st, pos, s23, pos, s24, pos); lemma_push_named(k23, t24);
    let t25 = leaf("RecycleBinEnabled"@, bool_text(Some(d.recycle_bin_enabled))); let s25 = VData { places: VPlaces { recycle_bin_enabled: d.recycle_bin_enabled, ..s24.places }, ..s24 }; let k25 = k24.push(t25);
    meta_takes_RecycleBinEnabled(d, hash, s24, pos);
    lemma_push(meta_r(), "Meta"@, k24, t25, st, pos, s24, pos, s25, pos); lemma_push_named(k24, t25);
    let t26 = leaf("RecycleBinUUID"@, b64(d.recycle_bin_uuid.0@)); let s26 = VData { places: VPlaces { recycle_bin_uuid: d.recycle_bin_uuid.0@, ..s25.places }, ..s25 }; let k26 = k25.push(t26);
    meta_takes_RecycleBinUUID(d, hash, s25, pos);
    lemma_push(meta_r(), "Meta"@, k25, t26, st, pos, s25, pos, s26, pos); lemma_push_named(k25, t26);
}

} // verus!
} // roundtrip_data
pub mod roundtrip_file { // format/roundtrip_file.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*; use crate::format::roundtrip_parts::*; use crate::format::roundtrip_values::*; use crate::format::roundtrip_entry::*; use crate::format::roundtrip_group::*; use crate::format::roundtrip_data::*;
verus! {
// ---- the document ----
pub proof fn file_names()
    ensures
        plain_name("Group"@), "Group"@.len() == 5,
        plain_name("KeePassFile"@), "KeePassFile"@.len() == 11,
        plain_name("Meta"@), "Meta"@.len() == 4, "Meta"@[0] == 'M',
        plain_name("Root"@), "Root"@.len() == 4, "Root"@[0] == 'R',
{
    assert(plain_name("Group"@)) by { reveal_strlit("Group"); } reveal_strlit("Group");
    assert(plain_name("KeePassFile"@)) by { reveal_strlit("KeePassFile"); } reveal_strlit("KeePassFile");
    assert(plain_name("Meta"@)) by { reveal_strlit("Meta"); } reveal_strlit("Meta");
    assert(plain_name("Root"@)) by { reveal_strlit("Root"); } reveal_strlit("Root");
}


pub open spec fn root_r(ks: Ks) -> Step<Option<VGroup>> { |st: Option<VGroup>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| root_step(st, n, a, ev, ks, pos) }
pub proof fn lemma_root_run(ev: Seq<Ev>, st: Option<VGroup>, ks: Ks, pos: int)
    ensures run(root_r(ks), "Root"@, ev, st, pos) == root_from(ev, st, ks, pos)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match root_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_root_run(e, t, ks, p); }, None => {} },
            _ => lemma_root_run(ev.skip(1), st, ks, pos),
        }
    }
}


pub open spec fn file_r(ks: Ks) -> Step<VData> { |st: VData, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| file_step(st, n, a, ev, ks, pos) }
pub proof fn lemma_file_run(ev: Seq<Ev>, st: VData, ks: Ks, pos: int)
    ensures run(file_r(ks), "KeePassFile"@, ev, st, pos) == file_from(ev, st, ks, pos)
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match file_step(st, n, a, ev.skip(1), ks, pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_file_run(e, t, ks, p); }, None => {} },
            _ => lemma_file_run(ev.skip(1), st, ks, pos),
        }
    }
}


pub open spec fn root_node(d: Database, ks: Ks) -> Tree { node("Root"@, Seq::<Tree>::empty().push(group_tree(d.root_group, ks, 0))) }
pub open spec fn meta_node(d: Database, hash: Seq<u8>) -> Tree { node("Meta"@, meta_kids(d, hash)) }
pub proof fn root_takes_group(g: Group, ks: Ks, st: Option<VGroup>, pos: int)
    requires group_fits(g)
    ensures takes_whole(root_r(ks), group_tree(g, ks, pos), st, pos, Some(group_back(g)), group_end(g, ks, pos)), named(group_tree(g, ks, pos))
{
    hide(fresh_group); hide(group_step); hide(group_from); hide(group_head); hide(adopted); hide(plain_name); file_names();
    let f = fresh_group(nil_uuid()@); let c = group_tree(g, ks, pos); let v = group_raw(g, f); let pos2 = group_end(g, ks, pos); let s2 = Some(group_back(g));
    lemma_group(g, ks, f, pos);
    assert forall|ev: Seq<Ev>| (run(group_r(ks), "Group"@, ev, f, pos) matches Some((y, e, q)) && y == v && q == pos2) implies #[trigger] root_r(ks)(st, "Group"@, marks(c), ev, pos) == Some((s2, run(group_r(ks), "Group"@, ev, f, pos).unwrap().1, pos2)) by { lemma_group_run(ev, f, ks, pos); }
    section_whole(root_r(ks), c, st, pos, s2, pos2, group_r(ks), f, v);
}
pub proof fn file_takes_root(d: Database, ks: Ks, st: VData)
    requires group_fits(d.root_group)
    ensures takes(file_r(ks), root_node(d, ks), st, 0, VData { root: Some(group_back(d.root_group)), ..st }, group_end(d.root_group, ks, 0)), named(root_node(d, ks))
{
    hide(group_tree); hide(group_back); hide(meta_from); hide(plain_name); hide(group_end); hide(root_step); file_names();
    let g = d.root_group; let t = root_node(d, ks); let b = Some(group_back(g)); let s2 = VData { root: b, ..st }; let k0 = Seq::<Tree>::empty(); let n0 = st.root; let pos2 = group_end(g, ks, 0);
    lemma_none(root_r(ks), "Root"@, n0, 0); lemma_none_named();
    root_takes_group(g, ks, n0, 0);
    lemma_push_whole(root_r(ks), "Root"@, k0, group_tree(g, ks, 0), n0, 0, n0, 0, b, pos2); lemma_push_named(k0, group_tree(g, ks, 0));
    assert forall|ev: Seq<Ev>| (run(root_r(ks), tag(t), ev, n0, 0) matches Some((x, e, p)) && x == b && p == pos2) implies #[trigger] file_r(ks)(st, tag(t), marks(t), ev, 0) == Some((s2, run(root_r(ks), tag(t), ev, n0, 0).unwrap().1, pos2)) by { lemma_root_run(ev, n0, ks, 0); }
    section(file_r(ks), t, st, 0, s2, pos2, root_r(ks), n0, b);
}
pub proof fn file_takes_meta(d: Database, hash: Seq<u8>, ks: Ks, st: VData, pos: int)
    ensures takes(file_r(ks), meta_node(d, hash), st, pos, data_back(d, hash, st.root), pos), named(meta_node(d, hash))
{
    hide(meta_kids); hide(meta_step); hide(plain_name); hide(root_from); hide(data_back); file_names();
    let t = meta_node(d, hash); let s2 = data_back(d, hash, st.root);
    lemma_meta(d, hash, st, pos);
    assert forall|ev: Seq<Ev>| (run(meta_r(), tag(t), ev, st, pos) matches Some((x, e, p)) && x == s2 && p == pos) implies #[trigger] file_r(ks)(st, tag(t), marks(t), ev, pos) == Some((s2, run(meta_r(), tag(t), ev, st, pos).unwrap().1, pos)) by { lemma_meta_run(ev, st, pos); }
    section(file_r(ks), t, st, pos, s2, pos, meta_r(), st, s2);
}
pub open spec fn database_back(d: Database, hash: Seq<u8>) -> VData { data_back(d, hash, Some(group_back(d.root_group))) }
pub proof fn lemma_file(d: Database, hash: Seq<u8>, ks: Ks, st: VData)
    requires group_fits(d.root_group), st.root is None
    ensures takes_all(file_r(ks), "KeePassFile"@, kids(doc(d, hash, ks)), st, 0, database_back(d, hash), group_end(d.root_group, ks, 0)), named(doc(d, hash, ks))
{
    hide(meta_kids); hide(group_tree); hide(plain_name); hide(group_back); hide(group_end); hide(file_step); file_names();
    let k0 = Seq::<Tree>::empty(); let m = meta_node(d, hash); let r = root_node(d, ks); let s1 = data_back(d, hash, None); let s2 = database_back(d, hash); let p2 = group_end(d.root_group, ks, 0);
    lemma_none(file_r(ks), "KeePassFile"@, st, 0); lemma_none_named();
    file_takes_meta(d, hash, ks, st, 0);
    lemma_push(file_r(ks), "KeePassFile"@, k0, m, st, 0, st, 0, s1, 0); lemma_push_named(k0, m);
    file_takes_root(d, ks, s1);
    lemma_push(file_r(ks), "KeePassFile"@, k0.push(m), r, st, 0, s1, 0, s2, p2); lemma_push_named(k0.push(m), r);
    assert(doc(d, hash, ks) == node("KeePassFile"@, k0.push(m).push(r)));
}
pub proof fn lemma_doc_gap(g: Seq<Ev>, r: Seq<Ev>, st: VData, ks: Ks, pos: int)
    requires gap(g) ensures doc_from(g + r, st, ks, pos) == doc_from(r, st, ks, pos) decreases g.len()
{
    if g.len() == 0 { assert(g + r =~= r); } else {
        assert(gap(g.skip(1))) by { assert forall|i: int| 0 <= i < g.skip(1).len() implies ((#[trigger] g.skip(1)[i]) is Other || (g.skip(1)[i] matches Ev::Text(s) && blank(s))) by { assert(g.skip(1)[i] == g[i + 1]); } }
        lemma_doc_gap(g.skip(1), r, st, ks, pos);
        assert((g + r).skip(1) =~= g.skip(1) + r); assert((g + r)[0] == g[0]);
    }
}
/// C01, C08: reading what is written for a database gives the database back, every protected value in the place it was written at.
pub proof fn document_round_trip(xml: Seq<u8>, d: Database, hash: Seq<u8>, key: Seq<u8>)
    requires stands_for(xml, d, hash, key), xml.len() < 0x4000_0000
    ensures document(xml, key) == Some(database_back(d, hash))
{
    hide(meta_kids); hide(group_tree); hide(plain_name); hide(group_back); hide(group_end); hide(file_step); hide(named); hide(clean); file_names();
    let ks = keystream(key); let t = doc(d, hash, ks); let st = fresh_data(); let n = "KeePassFile"@; let s2 = database_back(d, hash);
    lemma_file(d, hash, ks, st);
    assert(blank("\t"@)) by { reveal_strlit("\t"); let w = seq![' ', '\t', '\n', '\r']; assert(w[1] == '\t'); assert forall|i: int| 0 <= i < "\t"@.len() implies w.contains(#[trigger] "\t"@[i]) by {} }
    crate::vx::xml::ax_written(layout(), t, true, true);
    let ev = events(xml, true, true);
    let (a, b, c) = choose|a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>| #[trigger] gap(a) && #[trigger] shown(b, t) && #[trigger] gap(c) && ev == a + b + c + seq![Ev::EndDoc];
    let z = seq![Ev::EndDoc]; let r = c + z;
    assert(ev =~= a + (b + r));
    lemma_doc_gap(a, b + r, st, ks, 0);
    lemma_shown_start(b, t);
    let w = b + r;
    assert(w.skip(1) =~= b.skip(1) + r);
    lemma_node(file_r(ks), t, b, r, st, 0, s2, group_end(d.root_group, ks, 0));
    lemma_file_run(b.skip(1) + r, st, ks, 0);
    lemma_doc_gap(c, z, s2, ks, group_end(d.root_group, ks, 0));
}

} // verus!
} // roundtrip_file
pub mod roundtrip_same { // format/roundtrip_same.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*; use crate::format::roundtrip_parts::*; use crate::format::roundtrip_values::*; use crate::format::roundtrip_entry::*; use crate::format::roundtrip_group::*; use crate::format::roundtrip_data::*; use crate::format::roundtrip_file::*;
verus! {

use crate::types::database::vbase;
use crate::types::string_key::{is_key_of, lemma_key_for, lemma_standard_names};
use crate::vx::ax_key_order;
// ---- what is read back against what was saved ----
/// All keys of a map, each once.
pub open spec fn covers<K, V>(o: Seq<K>, m: Map<K, V>) -> bool { o.no_duplicates() && forall|k: K| #![trigger o.contains(k)] #![trigger m.contains_key(k)] o.contains(k) <==> m.contains_key(k) }
pub proof fn lemma_order<K, V>(m: HashMap<K, V>) ensures covers(key_order(m), m@) { ax_key_order(m); }
pub proof fn lemma_datas_in<K>(m: Map<K, Vec<u8>>, o: Seq<K>)
    ensures forall|k: K| #![trigger datas_in(m, o, Map::empty()).contains_key(k)] (datas_in(m, o, Map::empty()).contains_key(k) <==> o.contains(k)) && (o.contains(k) ==> datas_in(m, o, Map::empty())[k] == m[k]@)
    decreases o.len()
{
    if o.len() > 0 {
        let d = o.drop_last(); lemma_datas_in(m, d);
        assert forall|k: K| #![trigger datas_in(m, o, Map::empty()).contains_key(k)] (datas_in(m, o, Map::empty()).contains_key(k) <==> o.contains(k)) && (o.contains(k) ==> datas_in(m, o, Map::empty())[k] == m[k]@) by {
            assert(datas_in(m, d, Map::empty()).contains_key(k) <==> d.contains(k)); lemma_last(o, k);
        }
    }
}
pub proof fn lemma_last<K>(o: Seq<K>, k: K) requires o.len() > 0 ensures o.contains(k) <==> (o.drop_last().contains(k) || k == o.last()) {
    let d = o.drop_last();
    if o.contains(k) { let i = choose|i: int| 0 <= i < o.len() && o[i] == k; if i < d.len() { assert(d[i] == k); } }
    if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(o[i] == k); }
    assert(o[o.len() - 1] == o.last());
}
pub proof fn lemma_texts_in(m: Map<String, String>, o: Seq<String>)
    ensures forall|k: String| #![trigger texts_in(m, o, Map::empty()).contains_key(k)] (texts_in(m, o, Map::empty()).contains_key(k) <==> o.contains(k)) && (o.contains(k) ==> texts_in(m, o, Map::empty())[k] == m[k]@)
    decreases o.len()
{
    if o.len() > 0 {
        let d = o.drop_last(); lemma_texts_in(m, d);
        assert forall|k: String| #![trigger texts_in(m, o, Map::empty()).contains_key(k)] (texts_in(m, o, Map::empty()).contains_key(k) <==> o.contains(k)) && (o.contains(k) ==> texts_in(m, o, Map::empty())[k] == m[k]@) by {
            assert(texts_in(m, d, Map::empty()).contains_key(k) <==> d.contains(k)); lemma_last(o, k);
        }
    }
}
pub proof fn lemma_bins_in(m: Map<BinaryKey, BinaryValue>, o: Seq<BinaryKey>)
    ensures forall|k: BinaryKey| #![trigger bins_in(m, o, Map::empty()).contains_key(k)] (bins_in(m, o, Map::empty()).contains_key(k) <==> o.contains(k)) && (o.contains(k) ==> bins_in(m, o, Map::empty())[k] == vbin(m[k]))
    decreases o.len()
{
    if o.len() > 0 {
        let d = o.drop_last(); lemma_bins_in(m, d);
        assert forall|k: BinaryKey| #![trigger bins_in(m, o, Map::empty()).contains_key(k)] (bins_in(m, o, Map::empty()).contains_key(k) <==> o.contains(k)) && (o.contains(k) ==> bins_in(m, o, Map::empty())[k] == vbin(m[k])) by {
            assert(bins_in(m, d, Map::empty()).contains_key(k) <==> d.contains(k)); lemma_last(o, k);
        }
    }
}
/// C01: binaries, custom icons: the same keys and values.
pub proof fn datas_come_back<K>(m: HashMap<K, Vec<u8>>) ensures datas_in(m@, key_order(m), Map::empty()) == vdatas(m@) {
    reveal(vdatas); lemma_order(m); lemma_datas_in(m@, key_order(m)); assert(datas_in(m@, key_order(m), Map::empty()) =~= vdatas(m@));
}
/// C01: custom data: the same keys and values.
pub proof fn texts_come_back(m: HashMap<String, String>) ensures texts_in(m@, key_order(m), Map::empty()) == vtexts(m@) {
    reveal(vtexts); lemma_order(m); lemma_texts_in(m@, key_order(m)); assert(texts_in(m@, key_order(m), Map::empty()) =~= vtexts(m@));
}
/// C01: the binaries of an entry: the same keys and values.
pub proof fn binaries_come_back(m: HashMap<BinaryKey, BinaryValue>) ensures bins_in(m@, key_order(m), Map::empty()) == vbins(m@) {
    lemma_order(m); lemma_bins_in(m@, key_order(m)); assert(bins_in(m@, key_order(m), Map::empty()) =~= vbins(m@));
}
/// The name a string comes back under: its own, unless it is a standard one in other letters.
pub open spec fn own_name(k: StringKey) -> bool { k matches StringKey::Other(t) ==> !is_standard(t@) }
pub open spec fn name_back(k: StringKey) -> StringKey { key_for(key_text(k)) }
pub proof fn lemma_name_back(k: StringKey)
    ensures is_key_of(name_back(k), key_text(k)), own_name(k) ==> name_back(k) == k
{
    let s = key_text(k); crate::vx::ax_string_of(s); let l = lower(s);
    let w = if l == "notes"@ { StringKey::Notes } else if l == "password"@ { StringKey::Password } else if l == "title"@ { StringKey::Title } else if l == "url"@ { StringKey::Url } else if l == "username"@ { StringKey::Username } else { StringKey::Other(crate::vx::string_of(s)) };
    assert(is_key_of(w, s));
    if own_name(k) { crate::types::string_key::string_key_round_trip(k, name_back(k)); }
}
/// What strings come back as: under each name that one of them comes back under, the value of one that does.
pub open spec fn renamed(m: Map<StringKey, StringValue>, b: Map<StringKey, VStr>) -> bool {
    &&& forall|k: StringKey| #[trigger] m.contains_key(k) ==> b.contains_key(name_back(k))
    &&& forall|n: StringKey| #[trigger] b.contains_key(n) ==> exists|k: StringKey| #[trigger] m.contains_key(k) && name_back(k) == n && b[n] == vstr(m[k])
}
pub open spec fn strings_back(m: HashMap<StringKey, StringValue>) -> Map<StringKey, VStr> { strs_in(m@, key_order(m), Map::empty()) }
pub proof fn lemma_strs_in(m: Map<StringKey, StringValue>, o: Seq<StringKey>)
    ensures
        forall|k: StringKey| #[trigger] o.contains(k) ==> strs_in(m, o, Map::empty()).contains_key(name_back(k)),
        forall|n: StringKey| #[trigger] strs_in(m, o, Map::empty()).contains_key(n) ==> exists|k: StringKey| #[trigger] o.contains(k) && name_back(k) == n && strs_in(m, o, Map::empty())[n] == vstr(m[k]),
    decreases o.len()
{
    if o.len() > 0 {
        let d = o.drop_last(); lemma_strs_in(m, d); let b = strs_in(m, o, Map::empty()); let c = strs_in(m, d, Map::empty());
        assert forall|k: StringKey| #[trigger] o.contains(k) implies b.contains_key(name_back(k)) by { lemma_last(o, k); }
        assert forall|n: StringKey| #[trigger] b.contains_key(n) implies exists|k: StringKey| #[trigger] o.contains(k) && name_back(k) == n && b[n] == vstr(m[k]) by {
            if n == name_back(o.last()) { assert(o.contains(o.last())); } else {
                assert(c.contains_key(n));
                let k = choose|k: StringKey| #[trigger] d.contains(k) && name_back(k) == n && c[n] == vstr(m[k]);
                lemma_last(o, k); assert(o.contains(k));
            }
        }
    }
}
/// C01: strings come back under their own names, the standard ones in other letters under the standard names.
pub proof fn strings_come_back(m: HashMap<StringKey, StringValue>)
    ensures renamed(m@, strings_back(m)), (forall|k: StringKey| #[trigger] m@.contains_key(k) ==> own_name(k)) ==> strings_back(m) == vstrs(m@)
{
    lemma_order(m); let o = key_order(m); lemma_strs_in(m@, o); let b = strings_back(m);
    assert forall|n: StringKey| #[trigger] b.contains_key(n) implies exists|k: StringKey| #[trigger] m@.contains_key(k) && name_back(k) == n && b[n] == vstr(m@[k]) by {
        let k = choose|k: StringKey| #[trigger] o.contains(k) && name_back(k) == n && b[n] == vstr(m@[k]); assert(m@.contains_key(k));
    }
    assert forall|k: StringKey| #[trigger] m@.contains_key(k) implies b.contains_key(name_back(k)) by { assert(o.contains(k)); }
    if forall|k: StringKey| #[trigger] m@.contains_key(k) ==> own_name(k) { lemma_own_names(m@, b); }
}
proof fn lemma_own_names(m: Map<StringKey, StringValue>, b: Map<StringKey, VStr>)
    requires
        forall|k: StringKey| #[trigger] m.contains_key(k) ==> own_name(k),
        forall|n: StringKey| #[trigger] b.contains_key(n) ==> exists|k: StringKey| #[trigger] m.contains_key(k) && name_back(k) == n && b[n] == vstr(m[k]),
        forall|k: StringKey| #[trigger] m.contains_key(k) ==> b.contains_key(name_back(k)),
    ensures b == vstrs(m)
{
    hide(vstr);
    assert forall|k: StringKey| #[trigger] m.contains_key(k) implies b.contains_key(k) by { lemma_name_back(k); }
    assert forall|n: StringKey| #[trigger] b.contains_key(n) implies m.contains_key(n) && b[n] == vstr(m[n]) by {
        let k = choose|k: StringKey| #[trigger] m.contains_key(k) && name_back(k) == n && b[n] == vstr(m[k]); lemma_name_back(k);
    }
    assert(b =~= vstrs(m));
}
/// An entry as the property wants it back: its strings under the names above; in a history, without a history and in no group.
pub open spec fn past_kept(e: Entry) -> VEntry { VEntry { strings: strings_back(e.strings), history: seq![], within: nil_uuid()@, ..ventry(e) } }
pub open spec fn entry_kept(e: Entry, up: Seq<u8>) -> VEntry { VEntry { history: e.history@.map_values(|x: Entry| past_kept(x)), within: up, ..past_kept(e) } }
/// A group as the property wants it back: everything in it, told that it is in it.
pub open spec fn group_kept(g: Group, up: Seq<u8>) -> VGroup decreases g, g.groups@.len() + 1 {
    VGroup { entries: g.entries@.map_values(|e: Entry| entry_kept(e, g.uuid.0@)), groups: subs_kept(g, g.groups@.len()), within: up, ..vgroup(g) }
}
pub open spec fn subs_kept(g: Group, n: nat) -> Seq<VGroup> decreases g, n {
    if n == 0 || n > g.groups@.len() { seq![] } else { subs_kept(g, (n - 1) as nat).push(group_kept(g.groups@[n - 1], g.uuid.0@)) }
}
pub proof fn lemma_past_kept(e: Entry) ensures past_back(e, nil_uuid()@, fresh_entry()) == past_kept(e) {
    binaries_come_back(e.binaries);
    assert(Seq::<VAssoc>::empty() + vassocs(e.associations@) =~= vassocs(e.associations@));
}
pub proof fn lemma_entry_kept(e: Entry) ensures entry_back(e, nil_uuid()@, fresh_entry()) == entry_kept(e, nil_uuid()@) {
    lemma_past_kept(e); let u = nil_uuid()@;
    assert(seq![] + pasts_back(e.history@, u) =~= e.history@.map_values(|x: Entry| past_kept(x))) by {
        assert forall|i: int| 0 <= i < e.history@.len() implies #[trigger] pasts_back(e.history@, u)[i] == past_kept(e.history@[i]) by { lemma_past_kept(e.history@[i]); }
    }
}
pub proof fn lemma_subs_kept(g: Group, n: nat)
    requires n <= g.groups@.len()
    ensures groups_back(g, n).len() == n, subs_kept(g, n).len() == n, forall|i: int| 0 <= i < n ==> (VGroup { within: g.uuid.0@, ..#[trigger] groups_back(g, n)[i] }) == subs_kept(g, n)[i]
    decreases g, n
{
    if n > 0 {
        let x = g.groups@[n - 1]; lemma_subs_kept(g, (n - 1) as nat); group_comes_back(x);
        let a = groups_back(g, (n - 1) as nat); let b = subs_kept(g, (n - 1) as nat);
        assert forall|i: int| 0 <= i < n implies (VGroup { within: g.uuid.0@, ..#[trigger] groups_back(g, n)[i] }) == subs_kept(g, n)[i] by {
            if i < n - 1 { assert(groups_back(g, n)[i] == a[i]); assert(subs_kept(g, n)[i] == b[i]); } else { assert(groups_back(g, n)[i] == group_back(x)); assert(subs_kept(g, n)[i] == group_kept(x, g.uuid.0@)); assert((VGroup { within: g.uuid.0@, ..group_kept(x, nil_uuid()@) }) == group_kept(x, g.uuid.0@)); }
        }
    }
}
/// C01: a group comes back with all its entries and groups, in order.
pub proof fn group_comes_back(g: Group)
    ensures group_back(g) == group_kept(g, nil_uuid()@)
    decreases g, g.groups@.len() + 1
{
    let f = fresh_group(nil_uuid()@); let r = group_raw(g, f); let u = g.uuid.0@; let a = group_back(g); let b = group_kept(g, nil_uuid()@);
    assert(a.entries =~= b.entries) by {
        assert forall|i: int| 0 <= i < g.entries@.len() implies #[trigger] a.entries[i] == b.entries[i] by { assert(r.entries[i] == entries_back(g.entries@)[i]); lemma_entry_kept(g.entries@[i]); }
    }
    lemma_subs_kept(g, g.groups@.len());
    assert(r.groups =~= groups_back(g, g.groups@.len()));
    assert(a.groups =~= b.groups);
}
/// C01: the meta data of a database comes back, the generator as the name of this program.
pub proof fn meta_data_come_back(d: Database, hash: Seq<u8>, root: Option<VGroup>)
    ensures data_back(d, hash, root) == (VData { names: VNames { generator: common::GENERATOR_NAME@, ..vbase(d, Some(hash), root).names }, ..vbase(d, Some(hash), root) })
{ datas_come_back(d.binaries); texts_come_back(d.custom_data); datas_come_back(d.custom_icons); }
/// A database as the property wants it back, as far as the document tells.
pub open spec fn kept(d: Database, hash: Seq<u8>) -> VData {
    let v = vbase(d, Some(hash), Some(group_kept(d.root_group, nil_uuid()@)));
    VData { names: VNames { generator: "rust-kpdb"@, ..v.names }, ..v }
}
/// C01: what is written for a database reads back as that database.
pub proof fn document_comes_back(xml: Seq<u8>, d: Database, hash: Seq<u8>, key: Seq<u8>)
    requires stands_for(xml, d, hash, key), xml.len() < 0x4000_0000
    ensures document(xml, key) == Some(kept(d, hash))
{
    hide(group_back); hide(group_kept); hide(document); hide(vbase); hide(data_back); hide(stands_for);
    document_round_trip(xml, d, hash, key); group_comes_back(d.root_group);
    meta_data_come_back(d, hash, Some(group_back(d.root_group)));
}

} // verus!
} // roundtrip_same
pub mod roundtrip_bytes { // format/roundtrip_bytes.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*; use crate::format::roundtrip_parts::*; use crate::format::roundtrip_values::*; use crate::format::roundtrip_entry::*; use crate::format::roundtrip_group::*; use crate::format::roundtrip_data::*; use crate::format::roundtrip_file::*; use crate::format::roundtrip_same::*;
verus! {

use crate::types::database::{vbase, reading, opens, refuses, headed, holds, signature};
use crate::format::kdb2_writer::{file, head, sized, Secrets, field_bytes, comment_bytes, version_bytes, data_blocks, block_bytes, final_block, pieces, chain, stored};
use crate::format::kdb2_reader::{inner, Inner, header, Header, Fields, field, fixed_size, blocks, joined, zeros, decompressed, key_of, missing, aes_id, described, says};
use crate::types::transformed_key::master;
use crate::vx::byteorder::{le_bytes, le_nat};
use crate::vx::{cbc_enc, cbc_dec, pad32, sha256, cut};
use crate::vx::flate2::gunzip;
// ---- numbers ----
pub open spec fn span(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * span((n - 1) as nat) } }
pub proof fn lemma_le(v: nat, n: nat) requires v < span(n) ensures le_bytes(v, n).len() == n, le_nat(le_bytes(v, n)) == v decreases n {
    if n > 0 {
        assert(v / 256 < span((n - 1) as nat)) by (nonlinear_arith) requires v < 256 * span((n - 1) as nat);
        lemma_le(v / 256, (n - 1) as nat); let b = le_bytes(v, n); assert(b.skip(1) =~= le_bytes(v / 256, (n - 1) as nat)); assert(b[0] as nat == v % 256);
    }
}
pub proof fn lemma_spans() ensures span(2) == 0x1_0000, span(4) == 0x1_0000_0000, span(8) == 0x1_0000_0000_0000_0000 { reveal_with_fuel(span, 9); }
// ---- the header ----
/// A field that is written is read.
pub proof fn lemma_field(id: u8, d: Seq<u8>, r: Seq<u8>, f: Fields)
    requires
        0 < id <= 10, d.len() <= 0xffff, fixed_size(id) matches Some(n) ==> d.len() == n,
        id == 2 ==> d == aes_id(), id == 3 ==> le_nat(d) <= 1, id == 10 ==> le_nat(d) == 2,
    ensures header(field_bytes(id, d) + r, f) == (match header(r, f.insert(id, d)) { Header::Done(g, k) => Header::Done(g, k + (3 + d.len() as int)), b => b })
{
    let s = field_bytes(id, d) + r; let l = le_bytes(d.len(), 2); lemma_spans(); lemma_le(d.len(), 2);
    assert(s.skip(1).take(2) =~= l); assert(s.skip(1).subrange(2, 2 + d.len() as int) =~= d); assert(s.skip(3 + d.len() as int) =~= r); assert(s[0] == id);
}
pub proof fn lemma_field_end(r: Seq<u8>, f: Fields) ensures header(field_bytes(0, seq![]) + r, f) == Header::Done(f, 3)
{
    let d = Seq::<u8>::empty(); let s = field_bytes(0, d) + r; lemma_spans(); lemma_le(0, 2);
    assert(s.skip(1).take(2) =~= le_bytes(0, 2)); assert(s.skip(1).subrange(2, 2) =~= d); assert(s[0] == 0);
}
/// The fields of a saved file.
pub open spec fn fields_of(d: Database, x: Secrets) -> Fields {
    let f = match d.comment { Some(c) => Map::<u8, Seq<u8>>::empty().insert(1u8, c.0@), None => Map::<u8, Seq<u8>>::empty() };
    f.insert(2u8, aes_id()).insert(3u8, le_bytes(if d.compression is GZip { 1 } else { 0 }, 4)).insert(4u8, x.master_seed).insert(5u8, x.transform_seed)
        .insert(6u8, le_bytes(d.transform_rounds.0 as nat, 8)).insert(7u8, x.master_iv).insert(8u8, x.stream_key).insert(10u8, le_bytes(2, 4)).insert(9u8, x.start)
}
/// The fields a header ends with, from the back.
pub open spec fn tail(a: Seq<u8>, r: Seq<u8>) -> Seq<u8> { a + r }
pub open spec fn fields_bytes(d: Database, x: Secrets, r: Seq<u8>) -> Seq<u8> {
    comment_bytes(d.comment) + (field_bytes(2, aes_id()) + (field_bytes(3, le_bytes(if d.compression is GZip { 1 } else { 0 }, 4)) + (field_bytes(4, x.master_seed)
        + (field_bytes(5, x.transform_seed) + (field_bytes(6, le_bytes(d.transform_rounds.0 as nat, 8)) + (field_bytes(7, x.master_iv) + (field_bytes(8, x.stream_key)
        + (field_bytes(10, le_bytes(2, 4)) + (field_bytes(9, x.start) + (field_bytes(0, seq![]) + r))))))))))
}
proof fn add3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn lemma_head(d: Database, x: Secrets, r: Seq<u8>)
    ensures head(d, x) + r == signature() + (version_bytes(d.version) + fields_bytes(d, x, r))
{
    hide(field_bytes); hide(le_bytes); hide(comment_bytes); hide(version_bytes);
    let s = crate::format::kdb2_writer::signature();
    let v = version_bytes(d.version); let c = comment_bytes(d.comment);
    let f2 = field_bytes(2, aes_id()); let f3 = field_bytes(3, le_bytes(if d.compression is GZip { 1 } else { 0 }, 4)); let f4 = field_bytes(4, x.master_seed); let f5 = field_bytes(5, x.transform_seed);
    let f6 = field_bytes(6, le_bytes(d.transform_rounds.0 as nat, 8)); let f7 = field_bytes(7, x.master_iv); let f8 = field_bytes(8, x.stream_key); let f10 = field_bytes(10, le_bytes(2, 4)); let f9 = field_bytes(9, x.start); let f0 = field_bytes(0, seq![]);
    let a0 = Seq::<u8>::empty() + s.take(4) + s.skip(4);
    assert(a0 =~= signature());
    let a1 = a0 + v; let a2 = a1 + c; let a3 = a2 + f2; let a4 = a3 + f3; let a5 = a4 + f4; let a6 = a5 + f5; let a7 = a6 + f6; let a8 = a7 + f7; let a9 = a8 + f8; let a10 = a9 + f10; let a11 = a10 + f9;
    let r0 = f0 + r; let r9 = f9 + r0; let r10 = f10 + r9; let r8 = f8 + r10; let r7 = f7 + r8; let r6 = f6 + r7; let r5 = f5 + r6; let r4 = f4 + r5; let r3 = f3 + r4; let r2 = f2 + r3; let rc = c + r2; let rv = v + rc;
    add3(a11, f0, r); add3(a10, f9, r0); add3(a9, f10, r9); add3(a8, f8, r10); add3(a7, f7, r8); add3(a6, f6, r7); add3(a5, f5, r6); add3(a4, f4, r5); add3(a3, f3, r4); add3(a2, f2, r3); add3(a1, c, r2); add3(a0, v, rc);
    assert(head(d, x) == a11 + f0);
}
pub open spec fn short(d: Database) -> bool { d.comment matches Some(c) ==> c.0@.len() <= 0xffff }
pub open spec fn fields_len(d: Database) -> int { (match d.comment { Some(c) => 3 + c.0@.len() as int, None => 0 }) + 206 }
/// The header of a saved file is read as it was written.
pub proof fn lemma_fields(d: Database, x: Secrets, r: Seq<u8>)
    requires sized(x), short(d)
    ensures header(fields_bytes(d, x, r), Map::empty()) == Header::Done(fields_of(d, x), fields_len(d))
{
    hide(field_bytes); hide(header); hide(le_bytes); lemma_spans();
    let z = le_bytes(if d.compression is GZip { 1 } else { 0 }, 4); let n = le_bytes(d.transform_rounds.0 as nat, 8); let t = le_bytes(2, 4);
    lemma_le(if d.compression is GZip { 1 } else { 0 }, 4); lemma_le(d.transform_rounds.0 as nat, 8); lemma_le(2, 4);
    let f1 = match d.comment { Some(c) => Map::<u8, Seq<u8>>::empty().insert(1u8, c.0@), None => Map::<u8, Seq<u8>>::empty() };
    let f2 = f1.insert(2u8, aes_id()); let f3 = f2.insert(3u8, z); let f4 = f3.insert(4u8, x.master_seed); let f5 = f4.insert(5u8, x.transform_seed); let f6 = f5.insert(6u8, n);
    let f7 = f6.insert(7u8, x.master_iv); let f8 = f7.insert(8u8, x.stream_key); let f10 = f8.insert(10u8, t); let f9 = f10.insert(9u8, x.start);
    let r0 = field_bytes(0, seq![]) + r; let r9 = field_bytes(9, x.start) + r0; let r10 = field_bytes(10, t) + r9; let r8 = field_bytes(8, x.stream_key) + r10; let r7 = field_bytes(7, x.master_iv) + r8; let r6 = field_bytes(6, n) + r7;
    let r5 = field_bytes(5, x.transform_seed) + r6; let r4 = field_bytes(4, x.master_seed) + r5; let r3 = field_bytes(3, z) + r4; let r2 = field_bytes(2, aes_id()) + r3;
    lemma_field_end(r, f9); lemma_field(9, x.start, r0, f10); lemma_field(10, t, r9, f8); lemma_field(8, x.stream_key, r10, f7); lemma_field(7, x.master_iv, r8, f6); lemma_field(6, n, r7, f5);
    lemma_field(5, x.transform_seed, r6, f4); lemma_field(4, x.master_seed, r5, f3); lemma_field(3, z, r4, f2); lemma_field(2, aes_id(), r3, f1);
    match d.comment { Some(c) => { lemma_field(1, c.0@, r2, Map::empty()); }, None => { assert(comment_bytes(d.comment) + r2 =~= r2); } }
}
// ---- the blocks ----
/// Pieces put together from the front.
pub open spec fn whole(bs: Seq<Seq<u8>>) -> Seq<u8> decreases bs.len() { if bs.len() == 0 { seq![] } else { bs[0] + whole(bs.skip(1)) } }
pub proof fn lemma_cut(d: Seq<u8>, n: int) requires n > 0 ensures whole(cut(d, n)) == d, forall|i: int| 0 <= i < cut(d, n).len() ==> 0 < (#[trigger] cut(d, n)[i]).len() <= n decreases d.len() {
    if d.len() == 0 { assert(d =~= seq![]); }
    else if d.len() <= n { let c = cut(d, n); assert(c.skip(1) =~= seq![]); assert(whole(c.skip(1)) =~= seq![]); assert(c[0] + Seq::<u8>::empty() =~= d); }
    else {
        let e = cut(d.skip(n), n); let c = cut(d, n); lemma_cut(d.skip(n), n);
        assert(c.skip(1) =~= e); assert(d.take(n) + d.skip(n) =~= d);
        assert forall|i: int| 0 <= i < c.len() implies 0 < (#[trigger] c[i]).len() <= n by { if i > 0 { assert(c[i] == e[i - 1]); } }
    }
}
/// Blocks and the final block, from the front.
pub open spec fn rest_of(i: nat, bs: Seq<Seq<u8>>) -> Seq<u8> decreases bs.len() { if bs.len() == 0 { final_block(i) } else { block_bytes(i, bs[0]) + rest_of(i + 1, bs.skip(1)) } }
pub proof fn lemma_from_front(p: Seq<Seq<u8>>, i: nat)
    requires i <= p.len() ensures data_blocks(p) + final_block(p.len()) == data_blocks(p.take(i as int)) + rest_of(i, p.skip(i as int)) decreases p.len() - i
{
    if i == p.len() { assert(p.take(i as int) =~= p); assert(p.skip(i as int) =~= seq![]); } else {
        lemma_from_front(p, i + 1);
        let a = p.take(i as int); let b = p.take((i + 1) as int); let q = p.skip(i as int);
        assert(b.drop_last() =~= a); assert(q.skip(1) =~= p.skip((i + 1) as int)); assert(b.last() == p[i as int] && q[0] == p[i as int]);
        add3(data_blocks(a), block_bytes(i, p[i as int]), rest_of(i + 1, p.skip((i + 1) as int)));
    }
}
pub proof fn lemma_blocks(i: nat, bs: Seq<Seq<u8>>)
    requires forall|j: int| 0 <= j < bs.len() ==> 0 < (#[trigger] bs[j]).len() <= 0xffff_ffff, i + bs.len() <= 0xffff_ffff
    ensures blocks(rest_of(i, bs), i) == Ok::<Seq<u8>, crate::format::kdb2_reader::Why>(whole(bs))
    decreases bs.len()
{
    hide(le_bytes); hide(le_nat); broadcast use crate::rust_crypto::sha2::ax_sha256_len; lemma_spans(); lemma_le(i, 4);
    let s = rest_of(i, bs);
    if bs.len() == 0 {
        lemma_le(0, 4);
        assert(s.take(4) =~= le_bytes(i, 4)); assert(s.subrange(4, 36) =~= zeros(32)); assert(s.subrange(36, 40) =~= le_bytes(0, 4));
    } else {
        let d = bs[0]; let r = bs.skip(1); let t = rest_of(i + 1, r); lemma_le(d.len(), 4);
        assert forall|j: int| 0 <= j < r.len() implies 0 < (#[trigger] r[j]).len() <= 0xffff_ffff by { assert(r[j] == bs[j + 1]); }
        lemma_blocks(i + 1, r);
        assert(s.take(4) =~= le_bytes(i, 4)); assert(s.subrange(4, 36) =~= sha256(d)); assert(s.subrange(36, 40) =~= le_bytes(d.len(), 4)); assert(s.subrange(40, 40 + d.len() as int) =~= d); assert(s.skip(40 + d.len() as int) =~= t);
    }
}
/// The blocks a document is stored in are read back.
pub proof fn lemma_chain(c: Seq<u8>) requires pieces(c).len() <= 0xffff_ffff ensures blocks(chain(c), 0) == Ok::<Seq<u8>, crate::format::kdb2_reader::Why>(c)
{
    hide(data_blocks); hide(final_block); hide(cut);
    let p = pieces(c); lemma_cut(c, 0xffff_ffff); lemma_from_front(p, 0); lemma_blocks(0, p);
    assert(p.take(0) =~= seq![]); assert(data_blocks(p.take(0)) =~= seq![]) by { reveal(data_blocks); } assert(p.skip(0) =~= p); assert(Seq::<u8>::empty() + rest_of(0, p) =~= rest_of(0, p));
}
// ---- the file ----
pub open spec fn inner_of(d: Database, x: Secrets, xml: Seq<u8>) -> Inner { Inner { fields: fields_of(d, x), size: 4 + fields_len(d), xml } }
pub proof fn lemma_le_kinds(d: Database, x: Secrets)
    ensures
        missing(fields_of(d, x)) is None, le_nat(fields_of(d, x)[6]) == d.transform_rounds.0, (le_nat(fields_of(d, x)[3]) == 1) == (d.compression is GZip),
        fields_of(d, x)[4] == x.master_seed, fields_of(d, x)[5] == x.transform_seed, fields_of(d, x)[7] == x.master_iv, fields_of(d, x)[8] == x.stream_key, fields_of(d, x)[9] == x.start,
        match d.comment { Some(c) => fields_of(d, x).contains_key(1) && fields_of(d, x)[1] == c.0@, None => !fields_of(d, x).contains_key(1) },
{
    hide(le_bytes); hide(le_nat); lemma_spans(); lemma_le(d.transform_rounds.0 as nat, 8); lemma_le(0, 4); lemma_le(1, 4);
}
/// What is in a saved file after the signatures, for its key.
pub proof fn lemma_inner(d: Database, x: Secrets, xml: Seq<u8>, s: Seq<u8>)
    requires sized(x), short(d), pieces(stored(d.compression, xml)).len() <= 0xffff_ffff, file(d, x, xml) == signature() + s
    ensures
        inner(s, pad32(d.composite_key.0@)) == Ok::<Inner, crate::format::kdb2_reader::Why>(inner_of(d, x, xml)),
        s.take(2) == le_bytes(d.version.minor as nat, 2), s.subrange(2, 4) == le_bytes(d.version.major as nat, 2), file(d, x, xml).take(8 + inner_of(d, x, xml).size) == head(d, x),
{
    hide(fields_of); hide(header); hide(fields_bytes); hide(head); hide(pieces); hide(blocks); hide(chain); hide(le_bytes); hide(master); hide(fixed_size); hide(missing);
    let k = pad32(d.composite_key.0@); let m = master(k, x.transform_seed, d.transform_rounds.0 as nat, x.master_seed); let c = stored(d.compression, xml); let p = x.start + chain(c); let e = cbc_enc(m, x.master_iv, p);
    let v = version_bytes(d.version); let b = fields_bytes(d, x, e);
    lemma_head(d, x, e); lemma_fields(d, x, e); lemma_le_kinds(d, x); lemma_spans(); lemma_le(d.version.minor as nat, 2); lemma_le(d.version.major as nat, 2);
    lemma_head(d, x, seq![]); lemma_fields(d, x, seq![]); lemma_bytes_len(d, x, e); lemma_bytes_len(d, x, seq![]);
    let w = signature() + (v + b);
    assert(s =~= v + b) by { assert(s =~= (signature() + s).skip(8)); assert(w.skip(8) =~= v + b); }
    assert(s.skip(4) =~= b); assert(s.take(2) =~= le_bytes(d.version.minor as nat, 2)); assert(s.subrange(2, 4) =~= le_bytes(d.version.major as nat, 2));
    assert(head(d, x) + Seq::<u8>::empty() =~= head(d, x));
    assert(head(d, x).len() == 12 + fields_len(d));
    assert(s.skip(4 + fields_len(d)) =~= e) by { assert(s =~= (head(d, x) + e).skip(8)); }
    assert((head(d, x) + e).take(12 + fields_len(d)) =~= head(d, x));
    crate::rust_crypto::symmetriccipher::lemma_cbc(m, x.master_iv, p);
    assert(p.take(32) =~= x.start); assert(p.skip(32) =~= chain(c));
    lemma_chain(c); crate::vx::flate2::ax_gz(xml);
}
pub proof fn lemma_bytes_len(d: Database, x: Secrets, r: Seq<u8>) requires sized(x), short(d) ensures fields_bytes(d, x, r).len() == fields_len(d) + r.len() {
    hide(le_bytes); lemma_spans(); lemma_le(if d.compression is GZip { 1 } else { 0 }, 4); lemma_le(d.transform_rounds.0 as nat, 8); lemma_le(2, 4);
    lemma_le(16, 2); lemma_le(4, 2); lemma_le(32, 2); lemma_le(8, 2); lemma_le(0, 2);
    if let Some(c) = d.comment { lemma_le(c.0@.len(), 2); }
}
/// A saved file: what saving ensures of what it wrote, within the sizes the parsers take.
pub open spec fn saved_file(s: Seq<u8>, d: Database) -> bool {
    exists|x: Secrets, xml: Seq<u8>| s == #[trigger] file(d, x, xml) && stands_for(xml, d, sha256(head(d, x)), sha256(x.stream_key)) && sized(x) && xml.len() < 0x4000_0000 && pieces(stored(d.compression, xml)).len() <= 0xffff_ffff
}
/// C01: opening what was saved, with the same key, does not fail, and gives the database back.
pub proof fn save_then_open(s: Seq<u8>, d: Database, b: Database, e: Error)
    requires saved_file(s, d), short(d)
    ensures
        !refuses(s, pad32(d.composite_key.0@), e),
        opens(s, pad32(d.composite_key.0@), b) ==> {
            &&& b.db_type is Kdb2 && b.version == d.version && b.compression == d.compression && b.transform_rounds == d.transform_rounds
            &&& b.master_cipher == d.master_cipher && b.stream_cipher == d.stream_cipher
            &&& match d.comment { Some(c) => b.comment matches Some(z) && z.0@ == c.0@, None => b.comment is None }
            &&& exists|hash: Seq<u8>| vbase(b, Some(hash), Some(vgroup(b.root_group))) == #[trigger] kept(d, hash)
        },
{
    hide(file); hide(fields_of); hide(stands_for); hide(kept); hide(document); hide(vbase); hide(head); hide(inner); hide(le_bytes); hide(le_nat); hide(pieces); hide(stored);
    let (x, xml) = choose|x: Secrets, xml: Seq<u8>| s == #[trigger] file(d, x, xml) && stands_for(xml, d, sha256(head(d, x)), sha256(x.stream_key)) && sized(x) && xml.len() < 0x4000_0000 && pieces(stored(d.compression, xml)).len() <= 0xffff_ffff;
    let hash = sha256(head(d, x)); let key = pad32(d.composite_key.0@); let n = inner_of(d, x, xml);
    document_comes_back(xml, d, hash, sha256(x.stream_key));
    lemma_file_signed(d, x, xml); let t = s.skip(8);
    assert(s =~= signature() + t);
    lemma_inner(d, x, xml, t); lemma_le_kinds(d, x);
    assert(s.take(8) =~= signature()); assert(s.take(4) =~= signature().take(4)); assert(s.subrange(4, 8) =~= signature().skip(4));
    lemma_spans(); lemma_le(d.version.minor as nat, 2); lemma_le(d.version.major as nat, 2);
    assert(kept(d, hash).tables.header_hash == Some(hash)) by { reveal(kept); reveal(vbase); }
    assert(reading(s, key) == Some((n, kept(d, hash))));
    if opens(s, key, b) {
        assert(kept(d, hash).root is Some) by { reveal(kept); reveal(vbase); }
        let m = choose|m: MetaData| #[trigger] described(m, s.skip(8), n, s.take(8)) && b.comment == m.comment && b.compression == m.compression
            && b.master_cipher == m.master_cipher && b.stream_cipher == m.stream_cipher && b.transform_rounds == m.transform_rounds && b.version == m.version;
        assert(vbase(b, Some(hash), Some(vgroup(b.root_group))) == kept(d, hash));
    }
}
pub proof fn lemma_file_signed(d: Database, x: Secrets, xml: Seq<u8>) ensures file(d, x, xml).len() >= 8, file(d, x, xml).take(8) == signature() {
    hide(fields_bytes); hide(chain); hide(stored); hide(head); hide(master); hide(version_bytes);
    let e = cbc_enc(master(pad32(d.composite_key.0@), x.transform_seed, d.transform_rounds.0 as nat, x.master_seed), x.master_iv, x.start + chain(stored(d.compression, xml)));
    lemma_head(d, x, e); assert((signature() + (version_bytes(d.version) + fields_bytes(d, x, e))).take(8) =~= signature());
}

} // verus!
} // roundtrip_bytes
pub mod roundtrip_key { // format/roundtrip_key.rs
use vstd::prelude::*;
use crate::vx::xml::{Ev, Attrs, Tree, events, flat, flats, tag, marks, gap, shown, shown_all, named, all_named, clean, reads_as, weight, plain_name, plain_marks};
use crate::vx::blank;
use crate::vx::{lower, ax_lower_ascii, xored, key_order, valid_utf8};
use crate::vx::chrono::{DateTime, Utc};
use crate::vx::uuid::{Uuid, nil_uuid};
use crate::vx::fmt::{debug_text, dec_i32};
use crate::vx::base64::{b64, unb64};
use crate::vx::flate2::gz;
use crate::types::{Color, CustomIconUuid, Icon, Obfuscation};
use crate::types::color::color_text;
use crate::types::icon::icon_num;
use crate::types::obfuscation::obf_num;
use crate::types::string_key::{key_text, key_for, is_standard};
use crate::crypto::salsa20::keystream;
use std::collections::HashMap;
use crate::format::xml::{Ks, VStr, VBin, vstr, vbin, attr_val, flag};
use crate::format::xml::{Got, Got2, text, string, value, bin, bin_opt, zipped, boolean, bool_opt, color_opt, datetime, int32, icon, obfuscation, uuid, uuid_opt, white, bool_text, color_tree, icon_tree};
use crate::format::kdb2_xml_writer::*;
use crate::format::kdb2_xml_reader::*;
use crate::types::*;
use crate::common;
use crate::format::roundtrip::*; use crate::format::roundtrip_parts::*; use crate::format::roundtrip_values::*; use crate::format::roundtrip_entry::*; use crate::format::roundtrip_group::*; use crate::format::roundtrip_data::*; use crate::format::roundtrip_file::*; use crate::format::roundtrip_same::*; use crate::format::roundtrip_bytes::*;
verus! {

use crate::format::kf_reader::{data_from, version_from, keys_from, file_from, key_file};
use crate::format::kf_writer::{key_tree, saved};
use crate::types::KeyFileType;
use crate::vx::hex::{is_hex, unhex, hex_text, digit};
use crate::vx::fmt::hex_char;
use crate::vx::utf8;
use crate::vx::xml::{solid, is_text};
use crate::vx::xml::writer::emit;
// ---- key files ----

pub proof fn key_names()
    ensures
        plain_name("Data"@), "Data"@.len() == 4, "Data"@[0] == 'D',
        plain_name("Key"@), "Key"@.len() == 3,
        plain_name("KeyFile"@), "KeyFile"@.len() == 7, "KeyFile"@[0] == 'K',
        plain_name("Meta"@), "Meta"@.len() == 4, "Meta"@[0] == 'M',
        plain_name("Version"@), "Version"@.len() == 7, "Version"@[0] == 'V',
{
    assert(plain_name("Data"@)) by { reveal_strlit("Data"); } reveal_strlit("Data");
    assert(plain_name("Key"@)) by { reveal_strlit("Key"); } reveal_strlit("Key");
    assert(plain_name("KeyFile"@)) by { reveal_strlit("KeyFile"); } reveal_strlit("KeyFile");
    assert(plain_name("Meta"@)) by { reveal_strlit("Meta"); } reveal_strlit("Meta");
    assert(plain_name("Version"@)) by { reveal_strlit("Version"); } reveal_strlit("Version");
}


pub open spec fn kdata_r() -> Step<Option<Seq<u8>>> { |st: Option<Seq<u8>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| if n == "Data"@ { match bin(ev) { Some((v, e)) => Some((Some(v), e, pos)), None => None } } else { Some((st, ev, pos)) } }
pub open spec fn kmeta_r() -> Step<()> { |st: (), n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int| if n == "Version"@ { match string(ev) { Some((v, e)) => if v == "1.00"@ { Some(((), e, pos)) } else { None }, None => None } } else { Some(((), ev, pos)) } }
pub open spec fn kfile_r() -> Step<Option<Seq<u8>>> { |st: Option<Seq<u8>>, n: Seq<char>, a: Attrs, ev: Seq<Ev>, pos: int|
    if n == "Key"@ { match data_from(ev, None) { Some((Some(k), e)) => Some((Some(k), e, pos)), _ => None } }
    else if n == "Meta"@ { match version_from(ev) { Some(e) => Some((st, e, pos)), None => None } }
    else { Some((st, ev, pos)) } }


pub proof fn lemma_kdata_run(ev: Seq<Ev>, st: Option<Seq<u8>>, pos: int)
    ensures run(kdata_r(), "Key"@, ev, st, pos) == (match data_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match kdata_r()(st, n, a, ev.skip(1), pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_kdata_run(e, t, p); }, None => {} },
            _ => lemma_kdata_run(ev.skip(1), st, pos),
        }
    }
}

pub proof fn lemma_kmeta_run(ev: Seq<Ev>, st: (), pos: int)
    ensures run(kmeta_r(), "Meta"@, ev, st, pos) == (match version_from(ev) { Some(e) => Some(((), e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match kmeta_r()(st, n, a, ev.skip(1), pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_kmeta_run(e, t, p); }, None => {} },
            _ => lemma_kmeta_run(ev.skip(1), st, pos),
        }
    }
}

pub proof fn lemma_kfile_run(ev: Seq<Ev>, st: Option<Seq<u8>>, pos: int)
    ensures run(kfile_r(), "KeyFile"@, ev, st, pos) == (match keys_from(ev, st) { Some((t, e)) => Some((t, e, pos)), None => None })
    decreases ev.len()
{
    if ev.len() > 0 {
        match ev[0] {
            Ev::Start(n, a) => match kfile_r()(st, n, a, ev.skip(1), pos) { Some((t, e, p)) => if e.len() < ev.len() { lemma_kfile_run(e, t, p); }, None => {} },
            _ => lemma_kfile_run(ev.skip(1), st, pos),
        }
    }
}

pub open spec fn kdata_tree(k: Seq<u8>) -> Tree { Tree::Node("Key"@, seq![], Seq::<Tree>::empty().push(Tree::Leaf("Data"@, seq![], b64(k)))) }
pub open spec fn kmeta_tree() -> Tree { Tree::Node("Meta"@, seq![], Seq::<Tree>::empty().push(Tree::Leaf("Version"@, seq![], "1.00"@))) }
pub proof fn kfile_takes_meta(st: Option<Seq<u8>>)
    ensures takes(kfile_r(), kmeta_tree(), st, 0, st, 0), named(kmeta_tree())
{
    hide(plain_name); key_names(); let t = kmeta_tree(); let l = Tree::Leaf("Version"@, seq![], "1.00"@); let k0 = Seq::<Tree>::empty();
    lemma_none(kmeta_r(), "Meta"@, (), 0); lemma_none_named();
    yields_text("Version"@, seq![], "1.00"@);
    take::<RText, ()>(kmeta_r(), l, (), 0, (), "1.00"@);
    lemma_push(kmeta_r(), "Meta"@, k0, l, (), 0, (), 0, (), 0); lemma_push_named(k0, l);
    assert forall|ev: Seq<Ev>| (run(kmeta_r(), tag(t), ev, (), 0) matches Some((x, e, p)) && x == () && p == 0) implies #[trigger] kfile_r()(st, tag(t), marks(t), ev, 0) == Some((st, run(kmeta_r(), tag(t), ev, (), 0).unwrap().1, 0int)) by { lemma_kmeta_run(ev, (), 0); }
    section(kfile_r(), t, st, 0, st, 0, kmeta_r(), (), ());
}
pub proof fn kfile_takes_key(k: Seq<u8>, st: Option<Seq<u8>>)
    ensures takes(kfile_r(), kdata_tree(k), st, 0, Some(k), 0), named(kdata_tree(k))
{
    hide(plain_name); key_names(); let t = kdata_tree(k); let l = Tree::Leaf("Data"@, seq![], b64(k)); let k0 = Seq::<Tree>::empty(); let n0: Option<Seq<u8>> = None; let n1 = Some(k);
    lemma_none(kdata_r(), "Key"@, n0, 0); lemma_none_named();
    yields_bin("Data"@, seq![], k);
    take::<RBin, Option<Seq<u8>>>(kdata_r(), l, n0, 0, n1, k);
    lemma_push(kdata_r(), "Key"@, k0, l, n0, 0, n0, 0, n1, 0); lemma_push_named(k0, l);
    assert forall|ev: Seq<Ev>| (run(kdata_r(), tag(t), ev, n0, 0) matches Some((x, e, p)) && x == n1 && p == 0) implies #[trigger] kfile_r()(st, tag(t), marks(t), ev, 0) == Some((n1, run(kdata_r(), tag(t), ev, n0, 0).unwrap().1, 0int)) by { lemma_kdata_run(ev, n0, 0); }
    section(kfile_r(), t, st, 0, n1, 0, kdata_r(), n0, n1);
}
pub proof fn lemma_key_tree(k: Seq<u8>)
    ensures takes_all(kfile_r(), "KeyFile"@, kids(key_tree(k)), None, 0, Some(k), 0), named(key_tree(k)), tag(key_tree(k)) == "KeyFile"@, key_tree(k) is Node
{
    hide(plain_name); key_names(); let k0 = Seq::<Tree>::empty(); let n0: Option<Seq<u8>> = None; let m = kmeta_tree(); let d = kdata_tree(k);
    lemma_none(kfile_r(), "KeyFile"@, n0, 0); lemma_none_named();
    kfile_takes_meta(n0); lemma_push(kfile_r(), "KeyFile"@, k0, m, n0, 0, n0, 0, n0, 0); lemma_push_named(k0, m);
    kfile_takes_key(k, n0); lemma_push(kfile_r(), "KeyFile"@, k0.push(m), d, n0, 0, n0, 0, Some(k), 0); lemma_push_named(k0.push(m), d);
    assert(key_tree(k) == Tree::Node("KeyFile"@, seq![], k0.push(m).push(d)));
}
pub proof fn lemma_key_text(k: Seq<u8>)
    requires k.len() == 32
    ensures clean(key_tree(k)), solid(key_tree(k)), crate::vx::xml::weight(key_tree(k)) > 64
{
    key_names(); let s = b64(k); crate::vx::base64::ax_b64(k); lemma_b64(k);
    let k0 = Seq::<Tree>::empty(); let v = Tree::Leaf("Version"@, seq![], "1.00"@); let d = Tree::Leaf("Data"@, seq![], s); let m = kmeta_tree(); let e = kdata_tree(k);
    assert(is_text("1.00"@) && !blank("1.00"@) && "1.00"@.len() == 4) by { reveal_strlit("1.00"); lemma_not_blank("1.00"@, 0); }
    assert(is_text(s)) by { assert forall|i: int| 0 <= i < s.len() implies crate::vx::xml::xml_char(#[trigger] s[i]) by { assert(crate::vx::base64::b64_char(s[i])); } }
    assert(k0.push(v).drop_last() =~= k0); assert(k0.push(d).drop_last() =~= k0); assert(k0.push(m).drop_last() =~= k0); assert(k0.push(m).push(e).drop_last() =~= k0.push(m));
    assert(key_tree(k) == Tree::Node("KeyFile"@, seq![], k0.push(m).push(e)));
    reveal_with_fuel(clean, 6); reveal_with_fuel(crate::vx::xml::cleans, 6); reveal_with_fuel(solid, 6); reveal_with_fuel(crate::vx::xml::all_solid, 6); reveal_with_fuel(crate::vx::xml::weight, 6); reveal_with_fuel(crate::vx::xml::weights, 6);
    assert(clean(v) && clean(d) && clean(m) && clean(e)); assert(solid(v) && solid(d) && solid(m) && solid(e));
    assert(s.len() == 44);
    assert(crate::vx::xml::weight(e) == 3 + (4 + 4 + 44));
    assert(crate::vx::xml::weight(m) == 4 + (7 + 7 + 4));
}
pub proof fn lemma_file_gap(g: Seq<Ev>, r: Seq<Ev>, st: Option<Seq<u8>>)
    requires gap(g) ensures file_from(g + r, st) == file_from(r, st) decreases g.len()
{
    if g.len() == 0 { assert(g + r =~= r); } else {
        assert(gap(g.skip(1))) by { assert forall|i: int| 0 <= i < g.skip(1).len() implies ((#[trigger] g.skip(1)[i]) is Other || (g.skip(1)[i] matches Ev::Text(s) && blank(s))) by { assert(g.skip(1)[i] == g[i + 1]); } }
        lemma_file_gap(g.skip(1), r, st);
        assert((g + r).skip(1) =~= g.skip(1) + r); assert((g + r)[0] == g[0]);
    }
}
pub proof fn lemma_hex(k: Seq<u8>)
    ensures utf8(hex_text(k)).len() == 2 * k.len(), is_hex(utf8(hex_text(k))), unhex(utf8(hex_text(k))) == k,
        forall|i: int| 0 <= i < 2 * k.len() ==> (48 <= #[trigger] utf8(hex_text(k))[i] <= 57 || 97 <= utf8(hex_text(k))[i] <= 102),
{
    let t = hex_text(k); let u = utf8(t);
    assert forall|i: int| 0 <= i < t.len() implies 0 <= (#[trigger] t[i]) as u32 <= 127 by { }
    assert(vstd::utf8::is_ascii_chars(t));
    vstd::utf8::is_ascii_chars_encode_utf8(t);
    assert forall|i: int| 0 <= i < u.len() implies digit(#[trigger] u[i]) == (if i % 2 == 0 { k[i / 2] as int / 16 } else { k[i / 2] as int % 16 }) && (48 <= u[i] <= 57 || 97 <= u[i] <= 102) by { assert(u[i] == t[i] as u8); }
    assert(unhex(u) =~= k);
}
/// C14: a key file with a key of 32 bytes, saved and opened, gives the same key and type; in
/// hexadecimal it is 64 lower-case digits.
pub proof fn key_file_round_trip(kind: KeyFileType, k: Seq<u8>)
    requires k.len() == 32, saved(kind, k).len() < 0x4000_0000
    ensures
        key_file(saved(kind, k)) == Some((kind, k)),
        kind is Hex ==> saved(kind, k).len() == 64 && forall|i: int| 0 <= i < 64 ==> (48 <= #[trigger] saved(kind, k)[i] <= 57 || 97 <= saved(kind, k)[i] <= 102),
{
    hide(key_tree); hide(hex_text); hide(utf8);
    lemma_hex(k);
    if kind is Xml {
        let t = key_tree(k); let s = saved(kind, k); lemma_key_tree(k); lemma_key_text(k);
        crate::vx::xml::ax_written_len(layout(), t);
        assert(blank("\t"@)) by { reveal_strlit("\t"); let w = seq![' ', '\t', '\n', '\r']; assert(w[1] == '\t'); assert forall|i: int| 0 <= i < "\t"@.len() implies w.contains(#[trigger] "\t"@[i]) by {} }
        crate::vx::xml::ax_written(layout(), t, false, false);
        let ev = events(s, false, false); let none: Option<Seq<u8>> = None;
        let (a, b, c) = choose|a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>| #[trigger] gap(a) && #[trigger] shown(b, t) && #[trigger] gap(c) && ev == a + b + c + seq![Ev::EndDoc];
        let z = seq![Ev::EndDoc]; let r = c + z;
        assert(ev =~= a + (b + r));
        lemma_file_gap(a, b + r, none);
        lemma_shown_start(b, t);
        let w = b + r;
        assert(w.skip(1) =~= b.skip(1) + r);
        lemma_node(kfile_r(), t, b, r, none, 0, Some(k), 0);
        lemma_kfile_run(b.skip(1) + r, none, 0);
        lemma_file_gap(c, z, Some(k));
    }
}

} // verus!
} // roundtrip_key
