//! Random databases, their normal form, a field-by-field comparison, and an
//! independent rendering of a database as a KeePass document.
use crate::oracle::*;
use crate::rng::Rng;
use chrono::{DateTime, TimeZone, Utc};
use kpdb::*;
use secstr::SecStr;
use std::collections::HashMap;
use uuid::Uuid;

pub const TRICKY: &[&str] = &[
    "", " ", "\n", "\t", "  \t ", " a ", "\ta", "a\nb", "a\r\nb", "a\rb", "\r", "]]>", "<&>\"'", "&amp;", "&#65;",
    "<![CDATA[x]]>", "<!-- c -->", "null", "true", "0", "é", "ß", "İstanbul", "\u{10ffff}", "\u{85}", "\u{2028}",
    "\u{a0}", "\u{feff}x", "日本語", "🔑🔐", "%s%n", "a=b", "{PASSWORD}", "\\", "-", "+", "=", "#", "A", "a  b", "\u{7f}",
    "Meta", "Group", "Entry", "</Value>", "\u{d7ff}", "\u{e000}", "\u{fffd}",
];
pub const BAD: &[&str] = &["\u{0}", "\u{1}", "a\u{b}", "\u{1f}b", "x\u{fffe}y", "\u{ffff}", "\u{c}", "ok\u{8}"];

pub fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0..=2 => r.pick(TRICKY).to_string(),
        3 => {
            let n = r.range(1, 40);
            (0..n).map(|_| char::from_u32(r.range(0x20, 0x2ff) as u32).unwrap()).collect()
        }
        4 => {
            let a = r.pick(TRICKY).to_string();
            let b = r.pick(TRICKY).to_string();
            a + &b
        }
        5 if r.chance(8) => {
            let n = if r.chance(25) { r.range(65_000, 140_000) } else { r.range(500, 9000) } as usize;
            "lorem <ipsum> ".chars().cycle().take(n).collect()
        }
        _ => word(r),
    }
}
pub fn word(r: &mut Rng) -> String {
    let n = r.range(1, 12);
    (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'd', 'e', 'K', 'E', 'Y', '1', '-', 'z', 'Z'])).collect()
}
pub fn time(r: &mut Rng) -> DateTime<Utc> {
    if r.chance(10) {
        // the ends of the range, years of five and six digits, leap seconds
        let (a, b) = (DateTime::<Utc>::MIN_UTC, DateTime::<Utc>::MAX_UTC);
        let span = (b.timestamp() - a.timestamp()) as u64;
        return match r.below(6) {
            0 => a,
            1 => b,
            2 => {
                let d = 86400 * r.below(30000);
                Utc.timestamp_opt(d as i64 + 86399, 1_000_000_000 + r.below(1_000_000_000) as u32).unwrap()
            }
            _ => Utc.timestamp_opt(a.timestamp() + r.below(span) as i64, r.below(1_000_000_000) as u32).unwrap(),
        };
    }
    let secs = match r.below(6) {
        0 => r.below(86400 * 365) as i64,
        1 => -(r.below(60_000_000_000) as i64),
        2 => r.below(250_000_000_000) as i64,
        _ => 1_400_000_000 + r.below(400_000_000) as i64,
    };
    let ns = match r.below(5) {
        0 => r.below(1_000_000_000) as u32,
        1 => (r.below(1000) as u32) * 1_000_000,
        2 => (r.below(1_000_000) as u32) * 1000,
        _ => 0,
    };
    Utc.timestamp_opt(secs, ns).unwrap()
}
pub fn uuid(r: &mut Rng) -> Uuid {
    if r.chance(12) {
        Uuid::nil()
    } else {
        Uuid::from_bytes(r.arr16())
    }
}
pub fn color(r: &mut Rng) -> Option<Color> {
    if r.chance(3) {
        None
    } else {
        Some(Color { red: r.byte(), green: r.byte(), blue: if r.chance(2) { r.below(16) as u8 } else { r.byte() } })
    }
}
pub fn icon(r: &mut Rng) -> Icon {
    Icon::from_i32(r.below(69) as i32).unwrap_or(Icon::Key)
}
pub fn int(r: &mut Rng) -> i32 {
    match r.below(6) {
        0 => -1,
        1 => i32::MAX,
        2 => i32::MIN,
        3 => r.below(12) as i32,
        _ => r.u64() as i32,
    }
}
pub fn blob(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => r.range(60, 70),
        2 if r.chance(10) => r.range(4000, 9000),
        3 if r.chance(60) => r.range(65_530, 140_000),
        _ => r.range(1, 40),
    };
    r.bytes(n as usize)
}
fn opt_icon(r: &mut Rng) -> Option<CustomIconUuid> {
    if r.chance(2) {
        None
    } else {
        Some(CustomIconUuid(uuid(r)))
    }
}
pub const STD: [&str; 5] = ["notes", "password", "title", "url", "username"];
pub fn key_name(r: &mut Rng) -> StringKey {
    match r.below(9) {
        0 => StringKey::Notes,
        1 => StringKey::Password,
        2 => StringKey::Title,
        3 => StringKey::Url,
        4 => StringKey::Username,
        _ => {
            let t = text(r);
            if STD.contains(&t.to_lowercase().as_str()) {
                StringKey::Title
            } else {
                StringKey::Other(t)
            }
        }
    }
}
pub fn svalue(r: &mut Rng) -> StringValue {
    let t = text(r);
    if r.chance(2) {
        StringValue::Protected(SecStr::from(t))
    } else {
        StringValue::Plain(t)
    }
}
pub fn bvalue(r: &mut Rng) -> BinaryValue {
    match r.below(3) {
        0 => BinaryValue::Plain(blob(r)),
        1 => BinaryValue::Protected(SecStr::new(blob(r))),
        _ => BinaryValue::Ref(BinaryId(text(r))),
    }
}
/// A number below `n`, seldom a larger one.
fn few(r: &mut Rng, n: u64) -> u64 {
    if r.chance(150) { r.range(9, 30) } else { r.below(n) }
}
/// A few hundred small groups or entries, side by side or one inside the other.
fn many(r: &mut Rng, g: &mut Group) {
    let n = r.range(100, 300);
    match r.below(3) {
        0 => {
            for i in 0..n {
                let mut s = Group::default();
                s.name = format!("{}", i);
                g.groups.push(s);
            }
        }
        1 => {
            for i in 0..n {
                let mut e = Entry::default();
                e.usage_count = i as i32;
                g.entries.push(e);
            }
        }
        _ => {
            let mut s = Group::default();
            for i in 0..r.range(10, 60) {
                let mut o = Group::default();
                o.name = format!("{}", i);
                o.entries.push(Entry::default());
                o.groups.push(s);
                s = o;
            }
            g.groups.push(s);
        }
    }
}
pub fn entry(r: &mut Rng, hist: u64) -> Entry {
    let mut e = Entry::default();
    e.uuid = EntryUuid(uuid(r));
    e.parent = GroupUuid(uuid(r));
    for _ in 0..few(r, 3) {
        e.associations.push(Association { keystroke_sequence: text(r), window: text(r) });
    }
    e.auto_type_def_sequence = text(r);
    e.auto_type_enabled = r.chance(2);
    e.auto_type_obfuscation = if r.chance(2) { Obfuscation::None } else { Obfuscation::UseClipboard };
    e.background_color = color(r);
    e.foreground_color = color(r);
    for _ in 0..few(r, 4) {
        e.binaries.insert(BinaryKey(text(r)), bvalue(r));
    }
    e.creation_time = time(r);
    e.custom_icon_uuid = opt_icon(r);
    e.expires = r.chance(2);
    e.expiry_time = time(r);
    e.icon = icon(r);
    e.last_accessed = time(r);
    e.last_modified = time(r);
    e.location_changed = time(r);
    e.override_url = text(r);
    for _ in 0..few(r, 6) {
        e.strings.insert(key_name(r), svalue(r));
    }
    e.tags = text(r);
    e.usage_count = int(r);
    if hist > 0 {
        for _ in 0..few(r, 3) {
            let h = if r.chance(4) { hist - 1 } else { 0 };
            e.history.push(entry(r, h));
        }
    }
    e
}
pub fn group(r: &mut Rng, depth: u64) -> Group {
    let mut g = Group::default();
    g.uuid = GroupUuid(uuid(r));
    g.parent = GroupUuid(uuid(r));
    g.creation_time = time(r);
    g.custom_icon_uuid = opt_icon(r);
    g.def_auto_type_sequence = text(r);
    g.enable_auto_type = *r.pick(&[None, Some(true), Some(false)]);
    g.enable_searching = *r.pick(&[None, Some(true), Some(false)]);
    g.expires = r.chance(2);
    g.expiry_time = time(r);
    g.icon = icon(r);
    g.is_expanded = r.chance(2);
    g.last_accessed = time(r);
    g.last_modified = time(r);
    g.last_top_visible_entry = EntryUuid(uuid(r));
    g.location_changed = time(r);
    g.name = text(r);
    g.notes = text(r);
    g.usage_count = int(r);
    for _ in 0..r.below(4) {
        g.entries.push(entry(r, 2));
    }
    if depth > 0 {
        for _ in 0..r.below(4) {
            g.groups.push(group(r, depth - 1));
        }
    }
    g
}
pub fn key_file(r: &mut Rng) -> KeyFile {
    KeyFile {
        key: SecStr::new(r.bytes(32)),
        file_type: match r.below(3) {
            0 => KeyFileType::Binary,
            1 => KeyFileType::Hex,
            _ => KeyFileType::Xml,
        },
    }
}
pub use kpdb_types::KeyFileType;
mod kpdb_types {
    pub use kpdb::KeyFileType;
}
pub fn ckey(r: &mut Rng) -> CompositeKey {
    match r.below(3) {
        0 => CompositeKey::from_password(text(r)),
        1 => CompositeKey::from_key_file(key_file(r)),
        _ => CompositeKey::from_both(text(r), key_file(r)),
    }
}
pub fn database(r: &mut Rng) -> Database {
    let key = ckey(r);
    let mut d = Database::new(&key);
    d.comment = match r.below(5) {
        0 => Some(Comment(vec![])),
        1 => Some(Comment(r.bytes(5))),
        2 if r.chance(6) => {
            let n = 65535 - r.below(2) as usize;
            Some(Comment(r.bytes(n)))
        }
        _ => None,
    };
    d.compression = if r.chance(2) { Compression::None } else { Compression::GZip };
    d.transform_rounds = TransformRounds(r.below(4));
    d.version = if r.chance(2) {
        Version::new_kdb2()
    } else {
        Version { major: r.u64() as u16, minor: r.u64() as u16 }
    };
    for _ in 0..r.below(3) {
        d.binaries.insert(BinaryId(text(r)), blob(r));
    }
    d.color = color(r);
    for _ in 0..r.below(3) {
        d.custom_data.insert(text(r), text(r));
    }
    for _ in 0..r.below(3) {
        d.custom_icons.insert(CustomIconUuid(uuid(r)), blob(r));
    }
    d.def_username = text(r);
    d.def_username_changed = time(r);
    d.description = text(r);
    d.description_changed = time(r);
    d.entry_templates_group_changed = time(r);
    d.entry_templates_group_uuid = GroupUuid(uuid(r));
    d.generator = text(r);
    d.history_max_items = int(r);
    d.history_max_size = int(r);
    d.last_selected_group = GroupUuid(uuid(r));
    d.last_top_visible_group = GroupUuid(uuid(r));
    d.maintenance_history_days = int(r);
    d.master_key_change_force = int(r);
    d.master_key_change_rec = int(r);
    d.master_key_changed = time(r);
    d.name = text(r);
    d.name_changed = time(r);
    d.protect_notes = r.chance(2);
    d.protect_password = r.chance(2);
    d.protect_title = r.chance(2);
    d.protect_url = r.chance(2);
    d.protect_username = r.chance(2);
    d.recycle_bin_changed = time(r);
    d.recycle_bin_enabled = r.chance(2);
    d.recycle_bin_uuid = GroupUuid(uuid(r));
    let depth = r.below(4);
    d.root_group = group(r, depth);
    if r.chance(25) {
        many(r, &mut d.root_group);
    }
    if r.chance(3) {
        related(r, &mut d);
    }
    d
}
/// Makes the parts of a database refer to, repeat and resemble each other as
/// they do in a database that was in use.
fn related(r: &mut Rng, d: &mut Database) {
    let groups: Vec<GroupUuid> = d.root_group.iter().map(|g| g.uuid).collect();
    let entries: Vec<Entry> = d.root_group.iter().flat_map(|g| g.entries.iter().cloned()).collect();
    let icons: Vec<CustomIconUuid> = d.custom_icons.keys().cloned().collect();
    let ids: Vec<BinaryId> = d.binaries.keys().cloned().collect();
    let now = d.name_changed;
    for id in [&mut d.recycle_bin_uuid, &mut d.entry_templates_group_uuid, &mut d.last_selected_group, &mut d.last_top_visible_group] {
        if r.chance(2) {
            *id = *r.pick(&groups);
        }
    }
    let root = &mut d.root_group;
    visit(root, &mut |g| {
        if r.chance(3) {
            g.parent = *r.pick(&groups);
        }
        if r.chance(6) {
            g.uuid = *r.pick(&groups);
        }
        if r.chance(3) {
            g.creation_time = now;
            g.last_modified = now;
            g.last_accessed = now;
        }
        if !icons.is_empty() && r.chance(3) {
            g.custom_icon_uuid = Some(*r.pick(&icons));
        }
        if !entries.is_empty() && r.chance(2) {
            g.last_top_visible_entry = r.pick(&entries).uuid;
        }
        if !entries.is_empty() && r.chance(5) {
            g.entries.push(r.pick(&entries).clone());
        }
        for e in g.entries.iter_mut() {
            if r.chance(3) {
                e.parent = g.uuid;
            }
            if !icons.is_empty() && r.chance(3) {
                e.custom_icon_uuid = Some(*r.pick(&icons));
            }
            if !ids.is_empty() && r.chance(3) {
                e.binaries.insert(BinaryKey(word(r)), BinaryValue::Ref(r.pick(&ids).clone()));
            }
            // history as clients keep it: former states of the entry itself
            if r.chance(3) {
                for i in 0..r.range(1, 4) {
                    let mut h = e.clone();
                    h.history.clear();
                    h.parent = GroupUuid::nil();
                    if r.chance(2) {
                        h.last_modified = e.creation_time;
                        h.set_title(format!("former {}", i));
                    }
                    let at = r.below(e.history.len() as u64 + 1) as usize;
                    e.history.insert(at, h);
                }
            }
            if r.chance(3) {
                for h in e.history.iter_mut() {
                    h.uuid = e.uuid;
                }
            }
            if r.chance(4) {
                e.expires = true;
                e.expiry_time = e.creation_time;
            }
        }
    });
}
fn visit(g: &mut Group, f: &mut dyn FnMut(&mut Group)) {
    f(g);
    for s in g.groups.iter_mut() {
        visit(s, f);
    }
}

// ------------------------------------------------------------------ normal form
pub fn norm(mut d: Database) -> Database {
    d.generator = "rust-kpdb".into();
    norm_group(&mut d.root_group, GroupUuid(Uuid::nil()));
    d
}
fn norm_group(g: &mut Group, parent: GroupUuid) {
    g.parent = parent;
    let u = g.uuid;
    for e in g.entries.iter_mut() {
        norm_entry(e, u, true)
    }
    for s in g.groups.iter_mut() {
        norm_group(s, u)
    }
}
fn norm_entry(e: &mut Entry, parent: GroupUuid, active: bool) {
    e.parent = parent;
    if active {
        for h in e.history.iter_mut() {
            norm_entry(h, GroupUuid(Uuid::nil()), false)
        }
    } else {
        e.history.clear()
    }
}

// ------------------------------------------------------------------ comparison
fn clip(s: String) -> String {
    if s.len() > 160 {
        let mut n = 160;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}
macro_rules! cmp {
    ($p:expr, $a:expr, $b:expr, $($f:ident),*) => {
        $( if $a.$f != $b.$f {
            return Some(clip(format!("{}.{}: expected {:?} got {:?}", $p, stringify!($f), $a.$f, $b.$f)));
        } )*
    };
}
pub fn revealed(v: &StringValue) -> String {
    match v {
        StringValue::Plain(s) => format!("Plain({:?})", s),
        StringValue::Protected(s) => format!("Protected({:?})", String::from_utf8_lossy(s.unsecure())),
    }
}
pub fn diff_entry(p: &str, a: &Entry, b: &Entry) -> Option<String> {
    cmp!(
        p, a, b, uuid, parent, associations, auto_type_def_sequence, auto_type_enabled, auto_type_obfuscation,
        background_color, foreground_color, creation_time, custom_icon_uuid, expires, expiry_time, icon,
        last_accessed, last_modified, location_changed, override_url, tags, usage_count
    );
    for (k, v) in &a.strings {
        match b.strings.get(k) {
            Some(w) if w == v => {}
            w => {
                return Some(clip(format!("{}.strings[{:?}]: expected {} got {:?}", p, k, revealed(v), w.map(revealed))))
            }
        }
    }
    if a.strings.len() != b.strings.len() {
        return Some(clip(format!("{}.strings: expected {} strings, got {}", p, a.strings.len(), b.strings.len())));
    }
    cmp!(p, a, b, binaries);
    if a.history.len() != b.history.len() {
        return Some(format!("{}.history: expected {} entries, got {}", p, a.history.len(), b.history.len()));
    }
    for (i, (x, y)) in a.history.iter().zip(&b.history).enumerate() {
        if let Some(m) = diff_entry(&format!("{}.history[{}]", p, i), x, y) {
            return Some(m);
        }
    }
    None
}
pub fn diff_group(p: &str, a: &Group, b: &Group) -> Option<String> {
    cmp!(
        p, a, b, uuid, parent, creation_time, custom_icon_uuid, def_auto_type_sequence, enable_auto_type,
        enable_searching, expires, expiry_time, icon, is_expanded, last_accessed, last_modified,
        last_top_visible_entry, location_changed, name, notes, usage_count
    );
    if a.entries.len() != b.entries.len() {
        return Some(format!("{}.entries: expected {} got {}", p, a.entries.len(), b.entries.len()));
    }
    if a.groups.len() != b.groups.len() {
        return Some(format!("{}.groups: expected {} got {}", p, a.groups.len(), b.groups.len()));
    }
    for (i, (x, y)) in a.entries.iter().zip(&b.entries).enumerate() {
        if let Some(m) = diff_entry(&format!("{}.entries[{}]", p, i), x, y) {
            return Some(m);
        }
    }
    for (i, (x, y)) in a.groups.iter().zip(&b.groups).enumerate() {
        if let Some(m) = diff_group(&format!("{}.groups[{}]", p, i), x, y) {
            return Some(m);
        }
    }
    None
}
pub fn diff(a: &Database, b: &Database) -> Option<String> {
    let p = "db";
    cmp!(
        p, a, b, comment, composite_key, compression, db_type, master_cipher, stream_cipher, transform_rounds, version,
        binaries, color, custom_data, custom_icons, def_username, def_username_changed, description,
        description_changed, entry_templates_group_changed, entry_templates_group_uuid, generator, history_max_items,
        history_max_size, last_selected_group, last_top_visible_group, maintenance_history_days,
        master_key_change_force, master_key_change_rec, master_key_changed, name, name_changed, protect_notes,
        protect_password, protect_title, protect_url, protect_username, recycle_bin_changed, recycle_bin_enabled,
        recycle_bin_uuid
    );
    diff_group("db.root_group", &a.root_group, &b.root_group).or_else(|| if a != b { Some("databases differ".into()) } else { None })
}

// ------------------------------------------------------------------ documents
/// A point in time that stands for "the time of reading" in expected databases.
pub fn sentinel() -> DateTime<Utc> {
    Utc.timestamp_opt(-62_000_000_000, 123).unwrap()
}
/// How to render: leave optional elements out (one in `drop`, 0 for never) and
/// vary spellings of values.
pub struct Build<'a> {
    pub r: &'a mut Rng,
    pub drop: u64,
    pub vary: bool,
}
fn stime(t: &DateTime<Utc>) -> String {
    // %S shows a leap second as 60 by itself
    let mut s = t.format("%Y-%m-%dT%H:%M:%S").to_string();
    let ns = t.timestamp_subsec_nanos() % 1_000_000_000;
    if ns != 0 {
        s.push_str(&format!(".{:09}", ns));
    }
    s + "Z"
}
impl<'a> Build<'a> {
    fn gone(&mut self) -> bool {
        self.drop > 0 && self.r.chance(self.drop)
    }
    fn t(&mut self, v: &mut Vec<X>, name: &str, f: &mut DateTime<Utc>) {
        if self.gone() {
            *f = sentinel();
        } else {
            v.push(tx(name, &stime(f)));
        }
    }
    fn s(&mut self, v: &mut Vec<X>, name: &str, f: &mut String) {
        if self.gone() {
            f.clear();
        } else {
            v.push(tx(name, f));
        }
    }
    fn i(&mut self, v: &mut Vec<X>, name: &str, f: &mut i32, def: i32) {
        if self.gone() {
            *f = def;
        } else {
            v.push(tx(name, &f.to_string()));
        }
    }
    fn bs(&mut self, b: bool) -> String {
        let c = if b { ["True", "true", "TRUE"] } else { ["False", "false", "FALSE"] };
        if self.vary {
            self.r.pick(&c).to_string()
        } else {
            c[0].to_string()
        }
    }
    fn b(&mut self, v: &mut Vec<X>, name: &str, f: &mut bool, def: bool) {
        if self.gone() {
            *f = def;
        } else {
            let s = self.bs(*f);
            v.push(tx(name, &s));
        }
    }
    fn bo(&mut self, v: &mut Vec<X>, name: &str, f: &mut Option<bool>) {
        if self.gone() {
            *f = None;
        } else {
            let s = match *f {
                Some(b) => self.bs(b),
                None => (if self.vary { *self.r.pick(&["null", "Null", ""]) } else { "null" }).to_string(),
            };
            v.push(tx(name, &s));
        }
    }
    fn u(&mut self, v: &mut Vec<X>, name: &str, f: &mut Uuid) {
        if self.gone() {
            *f = Uuid::nil();
        } else {
            v.push(tx(name, &b64(f.as_bytes())));
        }
    }
    fn uo(&mut self, v: &mut Vec<X>, name: &str, f: &mut Option<CustomIconUuid>) {
        if self.gone() {
            *f = None;
        } else {
            v.push(tx(name, &f.map(|u| b64(u.0.as_bytes())).unwrap_or_default()));
        }
    }
    fn c(&mut self, v: &mut Vec<X>, name: &str, f: &mut Option<Color>) {
        if self.gone() {
            *f = None;
        } else {
            let s = match f {
                None => String::new(),
                Some(c) => {
                    let s = format!("#{:02x}{:02x}{:02x}", c.red, c.green, c.blue);
                    if self.vary && self.r.chance(2) {
                        s.to_uppercase()
                    } else {
                        s
                    }
                }
            };
            v.push(tx(name, &s));
        }
    }
    fn ic(&mut self, v: &mut Vec<X>, name: &str, f: &mut Icon, def: Icon) {
        if self.gone() {
            *f = def;
        } else {
            v.push(tx(name, &(0..69).find(|i| Icon::from_i32(*i) == Ok(*f)).unwrap_or(-1).to_string()));
        }
    }
    /// Renders the database; fields whose element is left out get their default in `d`.
    pub fn db(&mut self, d: &mut Database, header_hash: Option<[u8; 32]>) -> X {
        let mut m = vec![];
        if self.gone() {
            d.binaries.clear();
        } else {
            let mut k = vec![];
            for (id, b) in &d.binaries {
                let (mode, data) = if !self.vary || self.r.chance(2) { (1, gz(b)) } else { (self.r.below(2) * 2, b.clone()) };
                let mut a = vec![("ID", id.0.as_str())];
                match mode {
                    1 => a.push(("Compressed", "True")),
                    2 => a.push(("Compressed", "False")),
                    _ => {}
                }
                if data.is_empty() {
                    k.push(ela("Binary", a, vec![]));
                } else {
                    k.push(ela("Binary", a, vec![X::Text(b64(&data))]));
                }
            }
            m.push(el("Binaries", k));
        }
        self.c(&mut m, "Color", &mut d.color);
        if self.gone() {
            d.custom_data.clear();
        } else {
            m.push(el("CustomData", d.custom_data.iter().map(|(k, v)| el("Item", vec![tx("Key", k), tx("Value", v)])).collect()));
        }
        if self.gone() {
            d.custom_icons.clear();
        } else {
            m.push(el(
                "CustomIcons",
                d.custom_icons.iter().map(|(k, v)| el("Icon", vec![tx("UUID", &b64(k.0.as_bytes())), tx("Data", &b64(v))])).collect(),
            ));
        }
        self.s(&mut m, "DatabaseDescription", &mut d.description);
        self.t(&mut m, "DatabaseDescriptionChanged", &mut d.description_changed);
        self.s(&mut m, "DatabaseName", &mut d.name);
        self.t(&mut m, "DatabaseNameChanged", &mut d.name_changed);
        self.s(&mut m, "DefaultUserName", &mut d.def_username);
        self.t(&mut m, "DefaultUserNameChanged", &mut d.def_username_changed);
        self.u(&mut m, "EntryTemplatesGroup", &mut d.entry_templates_group_uuid.0);
        self.t(&mut m, "EntryTemplatesGroupChanged", &mut d.entry_templates_group_changed);
        self.s(&mut m, "Generator", &mut d.generator);
        if let Some(h) = header_hash {
            m.push(tx("HeaderHash", &b64(&h)));
        }
        self.i(&mut m, "HistoryMaxItems", &mut d.history_max_items, 10);
        self.i(&mut m, "HistoryMaxSize", &mut d.history_max_size, 6291456);
        self.u(&mut m, "LastSelectedGroup", &mut d.last_selected_group.0);
        self.u(&mut m, "LastTopVisibleGroup", &mut d.last_top_visible_group.0);
        self.i(&mut m, "MaintenanceHistoryDays", &mut d.maintenance_history_days, 365);
        self.i(&mut m, "MasterKeyChangeForce", &mut d.master_key_change_force, -1);
        self.i(&mut m, "MasterKeyChangeRec", &mut d.master_key_change_rec, -1);
        self.t(&mut m, "MasterKeyChanged", &mut d.master_key_changed);
        if self.gone() {
            d.protect_notes = false;
            d.protect_password = true;
            d.protect_title = false;
            d.protect_url = false;
            d.protect_username = false;
        } else {
            let mut k = vec![];
            self.b(&mut k, "ProtectNotes", &mut d.protect_notes, false);
            self.b(&mut k, "ProtectPassword", &mut d.protect_password, true);
            self.b(&mut k, "ProtectTitle", &mut d.protect_title, false);
            self.b(&mut k, "ProtectURL", &mut d.protect_url, false);
            self.b(&mut k, "ProtectUserName", &mut d.protect_username, false);
            m.push(el("MemoryProtection", k));
        }
        self.t(&mut m, "RecycleBinChanged", &mut d.recycle_bin_changed);
        self.b(&mut m, "RecycleBinEnabled", &mut d.recycle_bin_enabled, true);
        self.u(&mut m, "RecycleBinUUID", &mut d.recycle_bin_uuid.0);
        let g = self.group(&mut d.root_group);
        el("KeePassFile", vec![el("Meta", m), el("Root", vec![g])])
    }
    pub fn group(&mut self, g: &mut Group) -> X {
        let mut k = vec![];
        self.u(&mut k, "UUID", &mut g.uuid.0);
        self.uo(&mut k, "CustomIconUUID", &mut g.custom_icon_uuid);
        self.s(&mut k, "DefaultAutoTypeSequence", &mut g.def_auto_type_sequence);
        self.bo(&mut k, "EnableAutoType", &mut g.enable_auto_type);
        self.bo(&mut k, "EnableSearching", &mut g.enable_searching);
        self.ic(&mut k, "IconID", &mut g.icon, Icon::Folder);
        self.b(&mut k, "IsExpanded", &mut g.is_expanded, true);
        self.u(&mut k, "LastTopVisibleEntry", &mut g.last_top_visible_entry.0);
        self.s(&mut k, "Name", &mut g.name);
        self.s(&mut k, "Notes", &mut g.notes);
        if self.gone() {
            g.creation_time = sentinel();
            g.expiry_time = sentinel();
            g.last_accessed = sentinel();
            g.last_modified = sentinel();
            g.location_changed = sentinel();
            g.expires = false;
            g.usage_count = 0;
        } else {
            let mut t = vec![];
            self.t(&mut t, "CreationTime", &mut g.creation_time);
            self.t(&mut t, "ExpiryTime", &mut g.expiry_time);
            self.b(&mut t, "Expires", &mut g.expires, false);
            self.t(&mut t, "LastAccessTime", &mut g.last_accessed);
            self.t(&mut t, "LastModificationTime", &mut g.last_modified);
            self.t(&mut t, "LocationChanged", &mut g.location_changed);
            self.i(&mut t, "UsageCount", &mut g.usage_count, 0);
            k.push(el("Times", t));
        }
        for e in g.entries.iter_mut() {
            k.push(self.entry(e, true));
        }
        for s in g.groups.iter_mut() {
            k.push(self.group(s));
        }
        el("Group", k)
    }
    pub fn entry(&mut self, e: &mut Entry, active: bool) -> X {
        let mut k = vec![];
        self.u(&mut k, "UUID", &mut e.uuid.0);
        if self.gone() {
            e.associations.clear();
            e.auto_type_def_sequence.clear();
            e.auto_type_enabled = true;
            e.auto_type_obfuscation = Obfuscation::None;
        } else {
            let mut a = vec![];
            if self.gone() {
                e.auto_type_obfuscation = Obfuscation::None;
            } else {
                a.push(tx("DataTransferObfuscation", if e.auto_type_obfuscation == Obfuscation::None { "0" } else { "1" }));
            }
            self.s(&mut a, "DefaultSequence", &mut e.auto_type_def_sequence);
            self.b(&mut a, "Enabled", &mut e.auto_type_enabled, true);
            for x in &e.associations {
                a.push(el("Association", vec![tx("KeystrokeSequence", &x.keystroke_sequence), tx("Window", &x.window)]));
            }
            k.push(el("AutoType", a));
        }
        self.c(&mut k, "BackgroundColor", &mut e.background_color);
        self.uo(&mut k, "CustomIconUUID", &mut e.custom_icon_uuid);
        self.c(&mut k, "ForegroundColor", &mut e.foreground_color);
        self.ic(&mut k, "IconID", &mut e.icon, Icon::Key);
        self.s(&mut k, "OverrideURL", &mut e.override_url);
        self.s(&mut k, "Tags", &mut e.tags);
        if self.gone() {
            e.creation_time = sentinel();
            e.expiry_time = sentinel();
            e.last_accessed = sentinel();
            e.last_modified = sentinel();
            e.location_changed = sentinel();
            e.expires = false;
            e.usage_count = 0;
        } else {
            let mut t = vec![];
            self.t(&mut t, "CreationTime", &mut e.creation_time);
            self.t(&mut t, "ExpiryTime", &mut e.expiry_time);
            self.b(&mut t, "Expires", &mut e.expires, false);
            self.t(&mut t, "LastAccessTime", &mut e.last_accessed);
            self.t(&mut t, "LastModificationTime", &mut e.last_modified);
            self.t(&mut t, "LocationChanged", &mut e.location_changed);
            self.i(&mut t, "UsageCount", &mut e.usage_count, 0);
            k.push(el("Times", t));
        }
        for (b, v) in &e.binaries {
            let val = match v {
                BinaryValue::Plain(d) => tx("Value", &b64(d)),
                BinaryValue::Protected(s) => {
                    let d = s.unsecure().to_vec();
                    ela("Value", vec![("Protected", "True")], if d.is_empty() { vec![] } else { vec![X::Prot(d)] })
                }
                BinaryValue::Ref(i) => ela("Value", vec![("Ref", i.0.as_str())], vec![]),
            };
            k.push(el("Binary", vec![tx("Key", &b.0), val]));
        }
        for (s, v) in &e.strings {
            let name = match s {
                StringKey::Notes => "Notes",
                StringKey::Password => "Password",
                StringKey::Title => "Title",
                StringKey::Url => "URL",
                StringKey::Username => "UserName",
                StringKey::Other(o) => o.as_str(),
            };
            let val = match v {
                StringValue::Plain(t) if self.r.chance(8) => ela("Value", vec![("ProtectInMemory", "False")], vec![X::Text(t.clone())]),
                StringValue::Plain(t) => tx("Value", t),
                // stored in clear, to be kept protected
                StringValue::Protected(p) if self.r.chance(4) && std::str::from_utf8(p.unsecure()).is_ok() => {
                    let t = String::from_utf8(p.unsecure().to_vec()).unwrap();
                    ela("Value", vec![("ProtectInMemory", "True")], if t.is_empty() { vec![] } else { vec![X::Text(t)] })
                }
                StringValue::Protected(p) => {
                    let d = p.unsecure().to_vec();
                    ela("Value", vec![("Protected", "True")], if d.is_empty() { vec![] } else { vec![X::Prot(d)] })
                }
            };
            k.push(el("String", vec![tx("Key", name), val]));
        }
        if active {
            if e.history.is_empty() && self.gone() {
            } else {
                let h = e.history.iter_mut().map(|h| self.entry(h, false)).collect();
                k.push(el("History", h));
            }
        }
        el("Entry", k)
    }
}
const SECTIONS: &[&str] = &[
    "KeePassFile", "Meta", "Root", "Group", "Entry", "History", "AutoType", "Association", "Times", "MemoryProtection",
    "Binaries", "CustomData", "Item", "CustomIcons", "Icon", "String",
];
fn is_section(x: &X) -> bool {
    match x {
        X::El { name, kids, attrs } => {
            SECTIONS.contains(&name.as_str()) || (name == "Binary" && attrs.is_empty() && kids.iter().any(|k| matches!(k, X::El { .. })))
        }
        _ => false,
    }
}
/// Shuffle children everywhere, keeping the order of children of the same name.
pub fn shuffle(x: &mut X, r: &mut Rng) {
    if let X::El { kids, .. } = x {
        if kids.len() > 1 {
            let names: Vec<String> = kids.iter().map(|k| k.name().to_string()).collect();
            let mut order = names.clone();
            r.shuffle(&mut order);
            let mut q: HashMap<String, std::collections::VecDeque<X>> = HashMap::new();
            for k in kids.drain(..) {
                q.entry(k.name().to_string()).or_default().push_back(k);
            }
            for n in order {
                let k = q.get_mut(&n).unwrap().pop_front().unwrap();
                kids.push(k);
            }
        }
        for k in kids.iter_mut() {
            shuffle(k, r);
        }
    }
}
/// Insert unknown text elements into sections, about one per `n` places.
pub fn unknowns(x: &mut X, r: &mut Rng, n: u64) {
    let sec = is_section(x);
    if let X::El { kids, .. } = x {
        for k in kids.iter_mut() {
            unknowns(k, r, n);
        }
        if sec {
            let mut i = 0;
            while i <= kids.len() {
                if r.chance(n) {
                    let name = *r.pick(&["Unknown", "Foo", "SettingsChanged", "X1", "PreviousParentGroup", "QualityCheck"]);
                    let e = match r.below(3) {
                        0 => el(name, vec![]),
                        1 => tx(name, "some text"),
                        _ => ela(name, vec![("Protected", "False"), ("a", "b")], vec![X::Text("dGV4dA==".into())]),
                    };
                    kids.insert(i, e);
                    i += 1;
                }
                i += 1;
            }
        }
    }
}
/// Replace the stand-in for "time of reading" by the time found, if it is between a and b.
pub fn fix_times(exp: &mut Database, got: &Database, a: DateTime<Utc>, b: DateTime<Utc>) {
    let s = sentinel();
    let f = |e: &mut DateTime<Utc>, g: DateTime<Utc>| {
        if *e == s && g >= a && g <= b {
            *e = g;
        }
    };
    f(&mut exp.def_username_changed, got.def_username_changed);
    f(&mut exp.description_changed, got.description_changed);
    f(&mut exp.entry_templates_group_changed, got.entry_templates_group_changed);
    f(&mut exp.master_key_changed, got.master_key_changed);
    f(&mut exp.name_changed, got.name_changed);
    f(&mut exp.recycle_bin_changed, got.recycle_bin_changed);
    fn ent(e: &mut Entry, g: &Entry, f: &dyn Fn(&mut DateTime<Utc>, DateTime<Utc>)) {
        f(&mut e.creation_time, g.creation_time);
        f(&mut e.expiry_time, g.expiry_time);
        f(&mut e.last_accessed, g.last_accessed);
        f(&mut e.last_modified, g.last_modified);
        f(&mut e.location_changed, g.location_changed);
        for (x, y) in e.history.iter_mut().zip(&g.history) {
            ent(x, y, f)
        }
    }
    fn grp(e: &mut Group, g: &Group, f: &dyn Fn(&mut DateTime<Utc>, DateTime<Utc>)) {
        f(&mut e.creation_time, g.creation_time);
        f(&mut e.expiry_time, g.expiry_time);
        f(&mut e.last_accessed, g.last_accessed);
        f(&mut e.last_modified, g.last_modified);
        f(&mut e.location_changed, g.location_changed);
        for (x, y) in e.entries.iter_mut().zip(&g.entries) {
            ent(x, y, f)
        }
        for (x, y) in e.groups.iter_mut().zip(&g.groups) {
            grp(x, y, f)
        }
    }
    grp(&mut exp.root_group, &got.root_group, &f);
}
