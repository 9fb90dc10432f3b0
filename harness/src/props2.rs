//! Properties about values in memory: C10, C11, C12, C15, C16.
use crate::gen::*;
use crate::rng::Rng;
use crate::{fail, Case, Res};
use kpdb::*;
use secstr::SecStr;
use uuid::Uuid;

/// Every group below and including `g`, level by level.
pub fn levels(g: &Group) -> Vec<&Group> {
    let mut out = vec![];
    let mut level = vec![g];
    while !level.is_empty() {
        let mut next = vec![];
        for g in &level {
            for s in &g.groups {
                next.push(s);
            }
        }
        out.append(&mut level);
        level = next;
    }
    out
}
/// A tree with a given number of groups, grown at random places.
pub fn tree(r: &mut Rng, n: u64) -> Group {
    fn nth<'a>(g: &'a mut Group, k: &mut u64) -> Option<&'a mut Group> {
        if *k == 0 {
            return Some(g);
        }
        *k -= 1;
        for s in g.groups.iter_mut() {
            if let Some(x) = nth(s, k) {
                return Some(x);
            }
        }
        None
    }
    let mut root = Group::new("r");
    for i in 1..n {
        let mut k = match r.below(4) {
            0 => 0,
            1 => i - 1,
            _ => r.below(i),
        };
        let mut g = Group::new(word(r));
        if r.chance(6) {
            g.uuid = root.uuid;
        }
        if let Some(p) = nth(&mut root, &mut k) {
            if r.chance(3) {
                p.groups.insert(0, g)
            } else {
                p.groups.push(g)
            }
        }
    }
    root
}

// ---------------------------------------------------------------- C10
pub fn c10(r: &mut Rng, n: u64) -> Res {
    let size = if n < 30 { n + 1 } else if r.chance(40) { r.range(200, 1500) } else { r.range(1, 60) };
    let mut root = tree(r, size);
    if n % 17 == 0 {
        // a chain
        root = Group::new("x");
        for _ in 0..size.min(200) {
            let mut p = Group::new("x");
            p.groups.push(root);
            root = p;
        }
    }
    let exp: Vec<*const Group> = levels(&root).into_iter().map(|g| g as *const Group).collect();
    let mut it = root.iter();
    let mut got = vec![];
    while let Some(g) = it.next() {
        got.push(g as *const Group);
        if got.len() > exp.len() {
            break;
        }
    }
    if got != exp {
        return fail(describe("iter", &exp, &got));
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return fail("iter goes on after its end".into());
        }
    }
    // from a subgroup
    let sub = levels(&root)[r.below(exp.len() as u64) as usize];
    let exp2: Vec<*const Group> = levels(sub).into_iter().map(|g| g as *const Group).collect();
    let got2: Vec<*const Group> = sub.iter().take(exp2.len() + 1).map(|g| g as *const Group).collect();
    if got2 != exp2 {
        return fail(describe("iter of a subgroup", &exp2, &got2));
    }
    let mut it = root.iter_mut();
    let mut got = vec![];
    while let Some(g) = it.next() {
        got.push(g as *mut Group as *const Group);
        if got.len() > exp.len() {
            break;
        }
    }
    if it.next().is_some() {
        return fail("iter_mut goes on after its end".into());
    }
    if got != exp {
        return fail(describe("iter_mut", &exp, &got));
    }
    // changing every group through the mutable traversal
    let names: Vec<String> = exp.iter().enumerate().map(|(i, _)| format!("n{}", i)).collect();
    for (i, g) in root.iter_mut().enumerate() {
        g.name = format!("n{}", i);
    }
    let now: Vec<String> = levels(&root).iter().map(|g| g.name.clone()).collect();
    if now != names {
        return fail("names given through iter_mut are not in breadth-first order".into());
    }
    Case::ok(format!("tree of {} groups", exp.len()))
}
fn describe(what: &str, exp: &[*const Group], got: &[*const Group]) -> String {
    let ids: Vec<i64> = got.iter().map(|p| exp.iter().position(|q| q == p).map(|x| x as i64).unwrap_or(-1)).collect();
    format!("{}: of {} groups in breadth-first order it yields numbers {:?}", what, exp.len(), &ids[..ids.len().min(60)])
}

// ---------------------------------------------------------------- C11
fn case_mix(r: &mut Rng, s: &str) -> String {
    s.chars()
        .flat_map(|c| -> Vec<char> {
            if c.is_ascii() && r.chance(2) {
                vec![if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }]
            } else {
                vec![c]
            }
        })
        .collect()
}
fn mixed(r: &mut Rng, pool: &[String]) -> String {
    let s = r.pick(pool).clone();
    case_mix(r, &s)
}
fn has(hay: &str, needle: &str) -> bool {
    let h = hay.to_lowercase();
    let n = needle.to_lowercase();
    let (h, n) = (h.as_bytes(), n.as_bytes());
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}
pub fn c11(r: &mut Rng, n: u64) -> Res {
    let mut d = Database::new(&CompositeKey::from_password("x"));
    let groups = r.range(1, 14);
    d.root_group = tree(r, if n % 7 == 0 { 1 } else { groups });
    let pool: Vec<String> = (0..6).map(|_| if r.chance(4) { text(r) } else { word(r) }).collect();
    let pool = &pool;
    let piece = |r: &mut Rng| -> String {
        let a: String = mixed(r, pool);
        match r.below(3) {
            0 => a,
            1 => format!("{}{}", a, word(r)),
            _ => format!("{} {}", word(r), a),
        }
    };
    let ids: Vec<Uuid> = (0..6).map(|_| Uuid::from_bytes(r.arr16())).collect();
    for g in d.root_group.iter_mut() {
        if r.chance(2) {
            g.name = piece(r);
        }
        if r.chance(2) {
            g.uuid = GroupUuid(*r.pick(&ids));
        }
        g.notes = piece(r);
        for _ in 0..r.below(4) {
            let mut e = Entry::new();
            for _ in 0..r.below(4) {
                let k = key_name(r);
                let v = piece(r);
                e.strings.insert(k, if r.chance(2) { StringValue::Plain(v) } else { StringValue::Protected(SecStr::from(v)) });
            }
            if r.chance(4) {
                e.strings.insert(StringKey::Other(piece(r)), StringValue::Plain(word(r)));
            }
            if r.chance(4) {
                let mut h = Entry::new();
                h.set_title(piece(r));
                e.history.push(h);
            }
            if r.chance(2) {
                e.uuid = EntryUuid(*r.pick(&ids));
            }
            e.tags = piece(r);
            e.override_url = piece(r);
            g.entries.push(e);
        }
    }
    let q = match r.below(8) {
        0 => String::new(),
        1 => r.pick(TRICKY).to_string(),
        2 => word(r)[..1].to_string(),
        _ => mixed(r, pool),
    };
    // expected
    let gs = levels(&d.root_group);
    let mut es: Vec<*const Entry> = vec![];
    for g in &gs {
        for e in &g.entries {
            if e.strings.values().any(|v| matches!(v, StringValue::Plain(s) if has(s, &q))) {
                es.push(e);
            }
        }
    }
    let gm: Vec<*const Group> = gs.iter().filter(|g| has(&g.name, &q)).map(|g| *g as *const Group).collect();
    let u = if r.chance(4) { Uuid::from_bytes(r.arr16()) } else { *r.pick(&ids) };
    let e1 = gs.iter().flat_map(|g| g.entries.iter()).find(|e| e.uuid == EntryUuid(u)).map(|e| e as *const Entry);
    let g1 = gs.iter().find(|g| g.uuid == GroupUuid(u)).map(|g| *g as *const Group);
    let before = d.clone();
    let what = |s: &str| format!("{}({:?}) on {} groups", s, q, levels(&before.root_group).len());
    let got: Vec<*const Entry> = d.find_entries(q.as_str()).into_iter().map(|e| e as *const Entry).collect();
    if got != es {
        return fail(format!("{}: {} entries expected, {} found (or in another order)", what("find_entries"), es.len(), got.len()));
    }
    let got: Vec<*const Entry> = d.find_entries_mut(q.clone()).into_iter().map(|e| e as *mut Entry as *const Entry).collect();
    if got != es {
        return fail(format!("{}: {} entries expected, {} found (or in another order)", what("find_entries_mut"), es.len(), got.len()));
    }
    let got: Vec<*const Group> = d.find_groups(q.as_str()).into_iter().map(|e| e as *const Group).collect();
    if got != gm {
        return fail(format!("{}: {} groups expected, {} found (or in another order)", what("find_groups"), gm.len(), got.len()));
    }
    let got: Vec<*const Group> = d.find_groups_mut(q.clone()).into_iter().map(|e| e as *mut Group as *const Group).collect();
    if got != gm {
        return fail(format!("{}: {} groups expected, {} found (or in another order)", what("find_groups_mut"), gm.len(), got.len()));
    }
    if d.get_entry(EntryUuid(u)).map(|e| e as *const Entry) != e1 {
        return fail(format!("get_entry({}) does not give the first match", u));
    }
    if d.get_entry_mut(EntryUuid(u)).map(|e| e as *mut Entry as *const Entry) != e1 {
        return fail(format!("get_entry_mut({}) does not give the first match", u));
    }
    if d.get_group(GroupUuid(u)).map(|e| e as *const Group) != g1 {
        return fail(format!("get_group({}) does not give the first match", u));
    }
    if d.get_group_mut(GroupUuid(u)).map(|e| e as *mut Group as *const Group) != g1 {
        return fail(format!("get_group_mut({}) does not give the first match", u));
    }
    if d != before {
        return fail("searching changed the database".into());
    }
    Case::ok(format!("query {:?}: {} entries, {} groups", q, es.len(), gm.len()))
}

// ---------------------------------------------------------------- C12
pub fn c12(r: &mut Rng, _n: u64) -> Res {
    let mut g = group(r, 2);
    let ids: Vec<Uuid> = (0..4).map(|_| if r.chance(6) { Uuid::nil() } else { Uuid::from_bytes(r.arr16()) }).collect();
    let mut model = g.clone();
    let steps = r.range(1, 14);
    let mut log = vec![];
    for _ in 0..steps {
        let u = if r.chance(8) { Uuid::from_bytes(r.arr16()) } else { *r.pick(&ids) };
        match r.below(4) {
            0 => {
                let mut e = entry(r, 1);
                e.uuid = EntryUuid(u);
                log.push("add_entry");
                g.add_entry(e.clone());
                model.entries.push(e);
            }
            1 => {
                let mut s = group(r, 1);
                s.uuid = GroupUuid(u);
                // something with the same identifier one level down must not matter
                if r.chance(2) {
                    let mut t = Group::new("deep");
                    t.uuid = GroupUuid(*r.pick(&ids));
                    s.groups.push(t);
                    let mut e = Entry::new();
                    e.uuid = EntryUuid(*r.pick(&ids));
                    s.entries.push(e);
                }
                log.push("add_group");
                g.add_group(s.clone());
                model.groups.push(s);
            }
            2 => {
                log.push("remove_entry");
                let mut exp = None;
                for i in 0..model.entries.len() {
                    if model.entries[i].uuid == EntryUuid(u) {
                        exp = Some(model.entries.remove(i));
                        break;
                    }
                }
                let got = g.remove_entry(EntryUuid(u));
                if got != exp {
                    return fail(format!("after {:?}: remove_entry({}) gives {:?}", log, u, got.map(|e| e.uuid)));
                }
            }
            _ => {
                log.push("remove_group");
                let mut exp = None;
                for i in 0..model.groups.len() {
                    if model.groups[i].uuid == GroupUuid(u) {
                        exp = Some(model.groups.remove(i));
                        break;
                    }
                }
                let got = g.remove_group(GroupUuid(u));
                if got != exp {
                    return fail(format!("after {:?}: remove_group({}) gives {:?}", log, u, got.map(|e| e.name)));
                }
            }
        }
        if g != model {
            return fail(format!("after {:?}: {}", log, diff_group("group", &model, &g).unwrap_or("the group differs".into())));
        }
    }
    Case::ok(format!("{:?}", log))
}

// ---------------------------------------------------------------- C15
const ICONS: [Icon; 69] = [
    Icon::Key, Icon::World, Icon::Warning, Icon::Server, Icon::MarkedDirectory, Icon::UserCommunication, Icon::Parts,
    Icon::Notepad, Icon::WorldSocket, Icon::Identity, Icon::PaperReady, Icon::Digicam, Icon::IRCommunication,
    Icon::MultipleKeys, Icon::Energy, Icon::Scanner, Icon::WorldStar, Icon::CDRom, Icon::Monitor, Icon::Email,
    Icon::Configuration, Icon::ClipboardReady, Icon::PaperNew, Icon::Screen, Icon::EnergyCareful, Icon::Inbox,
    Icon::Disk, Icon::Drive, Icon::QuickTime, Icon::EncryptedTerminal, Icon::Console, Icon::Printer, Icon::Icons,
    Icon::Run, Icon::Settings, Icon::WorldComputer, Icon::Archive, Icon::Banking, Icon::Smb, Icon::Clock,
    Icon::EmailSearch, Icon::PaperFlag, Icon::Memory, Icon::RecycleBin, Icon::Note, Icon::Expired, Icon::Info,
    Icon::Package, Icon::Folder, Icon::FolderOpen, Icon::FolderPackage, Icon::LockOpen, Icon::PaperLocked,
    Icon::Checked, Icon::Pen, Icon::Thumbnail, Icon::Book, Icon::Listing, Icon::UserKey, Icon::Tool, Icon::Home,
    Icon::Star, Icon::Tux, Icon::Feather, Icon::Apple, Icon::Wikipedia, Icon::Money, Icon::Certificate, Icon::Phone,
];
fn colour_of(s: &str) -> Option<(u8, u8, u8)> {
    let b = s.as_bytes();
    if b.len() != 7 || b[0] != b'#' || !b[1..].iter().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    let v = u32::from_str_radix(&s[1..], 16).ok()?;
    Some(((v >> 16) as u8, (v >> 8) as u8, v as u8))
}
fn named(s: &str) -> StringKey {
    match s.to_ascii_lowercase().as_str() {
        "notes" => StringKey::Notes,
        "password" => StringKey::Password,
        "title" => StringKey::Title,
        "url" => StringKey::Url,
        "username" => StringKey::Username,
        _ => StringKey::Other(s.to_string()),
    }
}
pub fn c15(r: &mut Rng, n: u64) -> Res {
    if n < 4096 {
        // every 24-bit colour once over the run of the first 4096 cases
        for k in 0..4096u32 {
            let v = n as u32 * 4096 + k;
            let c = Color { red: (v >> 16) as u8, green: (v >> 8) as u8, blue: v as u8 };
            let t = c.to_hex_string();
            if t != format!("#{:06x}", v) {
                return fail(format!("colour {:?} is written {:?}", c, t));
            }
            match Color::from_hex_string(&t) {
                Ok(ref d) if *d == c => {}
                o => return fail(format!("{:?} is read as {:?}", t, o)),
            }
        }
        if n > 0 {
            return Case::ok(format!("colours {:06x} to {:06x}", n * 4096, n * 4096 + 4095));
        }
    }
    if n % 16 == 0 {
        for (i, k) in ICONS.iter().enumerate() {
            if k.to_i32() != i as i32 {
                return fail(format!("icon {:?} has number {}", k, k.to_i32()));
            }
        }
        let base: i64 = if n == 0 { -70000 } else { r.u64() as i32 as i64 };
        for v in base..base + 140_000 {
            if v > i32::MAX as i64 {
                break;
            }
            let v = v as i32;
            match Icon::from_i32(v) {
                Ok(k) if (0..69).contains(&v) && k == ICONS[v as usize] => {}
                Err(_) if !(0..69).contains(&v) => {}
                o => return fail(format!("icon number {} is {:?}", v, o.map_err(|_| "refused"))),
            }
            match Obfuscation::from_i32(v) {
                Ok(Obfuscation::None) if v == 0 => {}
                Ok(Obfuscation::UseClipboard) if v == 1 => {}
                Err(_) if v != 0 && v != 1 => {}
                o => return fail(format!("obfuscation number {} is {:?}", v, o.map_err(|_| "refused"))),
            }
        }
        for i in 0..62 {
            for v in [1i64 << i, -(1i64 << i), (1i64 << i) - 1, (1i64 << i) + 68, 256 * i as i64, 256 * i as i64 + 1] {
                let v = v as i32;
                if Icon::from_i32(v).is_ok() != (0..69).contains(&v) || Obfuscation::from_i32(v).is_ok() != (v == 0 || v == 1) {
                    return fail(format!("number {} is misjudged", v));
                }
            }
        }
        if Obfuscation::None.to_i32() != 0 || Obfuscation::UseClipboard.to_i32() != 1 {
            return fail("obfuscation numbers".into());
        }
        return Case::ok(format!("numbers from {}", base));
    }
    // texts
    let mut last = String::new();
    for _ in 0..200 {
        let t: String = match r.below(5) {
            0 => text(r),
            1 => {
                let s = r.pick(&STD).to_string();
                let s = case_mix(r, &s);
                match r.below(4) {
                    0 => format!("{} ", s),
                    1 => s[1..].to_string(),
                    _ => s,
                }
            }
            2 => {
                let len = *r.pick(&[6u64, 7, 7, 7, 7, 8]);
                (0..len).map(|i| if i == 0 && !r.chance(6) { '#' } else { *r.pick(&['0', 'a', 'F', '9', 'g', '+', '-', ' ', 'é', '#', 'A', 'x', '🔑', '_']) }).collect()
            }
            _ => {
                let mut s: Vec<char> = format!("#{:06x}", r.below(1 << 24)).chars().collect();
                for c in s.iter_mut().skip(1) {
                    if r.chance(2) {
                        *c = c.to_ascii_uppercase();
                    }
                }
                if r.chance(2) {
                    let i = r.below(7) as usize;
                    s[i] = *r.pick(&['+', '-', 'g', 'G', ' ', '#', '０', '\u{0}', '@', '`', '/', ':']);
                }
                s.into_iter().collect()
            }
        };
        let got = Color::from_hex_string(&t).ok().map(|c| (c.red, c.green, c.blue));
        if got != colour_of(&t) {
            return fail(format!("colour text {:?} is read as {:?}", t, got));
        }
        let k = StringKey::from_string(&t);
        if k != named(&t) {
            return fail(format!("string name {:?} is read as {:?}", t, k));
        }
        if StringKey::Other(t.clone()).to_string() != t {
            return fail(format!("custom string name {:?} is written {:?}", t, StringKey::Other(t.clone()).to_string()));
        }
        last = t;
    }
    for (k, s) in [
        (StringKey::Notes, "Notes"), (StringKey::Password, "Password"), (StringKey::Title, "Title"),
        (StringKey::Url, "URL"), (StringKey::Username, "UserName"),
    ] {
        if k.to_string() != s || StringKey::from_string(s) != k {
            return fail(format!("string name {:?}", k));
        }
    }
    Case::ok(format!("texts such as {:?}", last))
}

// ---------------------------------------------------------------- C16
pub fn c16(r: &mut Rng, n: u64) -> Res {
    let mut e = entry(r, 1);
    let mut log = vec![];
    for _ in 0..r.range(1, 8) {
        let v = text(r);
        let mut model = e.clone();
        let plain = StringValue::Plain(v.clone());
        let prot = StringValue::Protected(SecStr::from(v.clone()));
        let (name, key) = match r.below(7) {
            0 => {
                e.set_notes(v.as_str());
                model.strings.insert(StringKey::Notes, plain);
                ("notes", StringKey::Notes)
            }
            1 => {
                e.set_password(v.as_str());
                model.strings.insert(StringKey::Password, prot);
                ("password", StringKey::Password)
            }
            2 => {
                e.set_title(v.clone());
                model.strings.insert(StringKey::Title, plain);
                ("title", StringKey::Title)
            }
            3 => {
                e.set_url(v.as_str());
                model.strings.insert(StringKey::Url, plain);
                ("url", StringKey::Url)
            }
            4 => {
                e.set_username(v.as_str());
                model.strings.insert(StringKey::Username, plain);
                ("username", StringKey::Username)
            }
            _ => {
                let k = key_name(r);
                e.set_other(k.clone(), v.as_str());
                if k == StringKey::Password {
                    // stored either way
                    let p = e.strings.get(&k).cloned();
                    model.strings.insert(k.clone(), p.unwrap_or(plain));
                } else {
                    model.strings.insert(k.clone(), plain);
                }
                ("other", k)
            }
        };
        log.push(name);
        if e != model {
            return fail(format!("set_{} to {:?}: {}", name, v, diff_entry("entry", &model, &e).unwrap_or("the entry differs".into())));
        }
        if e.other(key.clone()) != Some(v.as_str()) {
            return fail(format!("set_{} to {:?} reads back {:?}", name, v, e.other(key)));
        }
    }
    // readers
    if r.chance(3) {
        e.strings.insert(StringKey::Notes, StringValue::Protected(SecStr::new(vec![0xff, 0xfe])));
    }
    if r.chance(2) {
        // strings of one's own whose names resemble the standard ones, which may be missing
        let std = [
            (StringKey::Notes, "Notes"),
            (StringKey::Password, "Password"),
            (StringKey::Title, "Title"),
            (StringKey::Url, "URL"),
            (StringKey::Username, "UserName"),
        ];
        for (key, name) in std {
            let name = match r.below(4) {
                0 => name.to_lowercase(),
                1 => format!("{} ", name),
                _ => name.to_string(),
            };
            if r.chance(2) {
                e.strings.insert(StringKey::Other(name), StringValue::Plain(text(r)));
            }
            if r.chance(2) {
                e.strings.remove(&key);
            }
        }
    }
    let want = |k: &StringKey| -> Option<String> {
        match e.strings.get(k) {
            Some(StringValue::Plain(s)) => Some(s.clone()),
            Some(StringValue::Protected(s)) => String::from_utf8(s.unsecure().to_vec()).ok(),
            None => None,
        }
    };
    let own = |s: Option<&str>| s.map(|x| x.to_string());
    for (name, k, got) in [
        ("notes", StringKey::Notes, own(e.notes())),
        ("password", StringKey::Password, own(e.password())),
        ("title", StringKey::Title, own(e.title())),
        ("url", StringKey::Url, own(e.url())),
        ("username", StringKey::Username, own(e.username())),
    ] {
        if got != want(&k) || own(e.other(k.clone())) != got {
            return fail(format!("{} reads {:?}, stored is {:?}", name, got, e.strings.get(&k).map(revealed)));
        }
    }
    for k in e.strings.keys() {
        if own(e.other(k.clone())) != want(k) {
            return fail(format!("string {:?} is not read back", k));
        }
    }
    let absent = StringKey::Other(format!("absent {}", n));
    if e.other(absent).is_some() {
        return fail("a string that is absent is read".into());
    }
    // timestamps
    let mut g = group(r, 1);
    for _ in 0..6 {
        let (t, b, c) = (time(r), r.chance(2), int(r));
        let (mut me, mut mg) = (e.clone(), g.clone());
        macro_rules! both {
            ($set:ident, $get:ident, $v:expr) => {{
                e.$set($v);
                g.$set($v);
                me.$get = $v;
                mg.$get = $v;
                if Times::$get(&e) != $v || Times::$get(&g) != $v {
                    return fail(format!("{} does not read back {:?}", stringify!($set), $v));
                }
            }};
        }
        match r.below(7) {
            0 => both!(set_creation_time, creation_time, t),
            1 => both!(set_expires, expires, b),
            2 => both!(set_expiry_time, expiry_time, t),
            3 => both!(set_last_accessed, last_accessed, t),
            4 => both!(set_last_modified, last_modified, t),
            5 => both!(set_location_changed, location_changed, t),
            _ => both!(set_usage_count, usage_count, c),
        }
        if e != me {
            return fail(format!("a timestamp setter: {}", diff_entry("entry", &me, &e).unwrap_or("the entry differs".into())));
        }
        if g != mg {
            return fail(format!("a timestamp setter: {}", diff_group("group", &mg, &g).unwrap_or("the group differs".into())));
        }
        let eq = |a: &dyn Times, x: (chrono::DateTime<chrono::Utc>, bool, chrono::DateTime<chrono::Utc>), y: (chrono::DateTime<chrono::Utc>, chrono::DateTime<chrono::Utc>, chrono::DateTime<chrono::Utc>, i32)| {
            a.creation_time() == x.0 && a.expires() == x.1 && a.expiry_time() == x.2 && a.last_accessed() == y.0 && a.last_modified() == y.1 && a.location_changed() == y.2 && a.usage_count() == y.3
        };
        if !eq(&e, (e.creation_time, e.expires, e.expiry_time), (e.last_accessed, e.last_modified, e.location_changed, e.usage_count))
            || !eq(&g, (g.creation_time, g.expires, g.expiry_time), (g.last_accessed, g.last_modified, g.location_changed, g.usage_count))
        {
            return fail("a timestamp reader gives another field".into());
        }
    }
    Case::ok(format!("{:?}", log))
}
