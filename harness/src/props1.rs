//! Properties about whole files: C01 to C09, C13, C14, C17, C18.
use crate::gen::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::{fail, Case, Fail, Res};
use chrono::{Duration, Utc};
use kpdb::*;
use secstr::SecStr;
use std::io::{self, Cursor, Read, Write};
use uuid::Uuid;

pub fn save(d: &Database) -> std::result::Result<Vec<u8>, kpdb::Error> {
    let mut v = Vec::new();
    d.save(&mut v)?;
    Ok(v)
}
pub fn open(f: &[u8], k: &CompositeKey) -> kpdb::Result<Database> {
    Database::open(&mut Cursor::new(f.to_vec()), k)
}
pub fn kind(e: &kpdb::Error) -> String {
    format!("{:?}", e)
}

// ---------------------------------------------------------------- C01
fn minimal(r: &mut Rng) -> Database {
    let mut d = Database::new(&CompositeKey::from_password("a"));
    d.transform_rounds = TransformRounds(1);
    let t = time(r);
    for x in [
        &mut d.def_username_changed, &mut d.description_changed, &mut d.entry_templates_group_changed,
        &mut d.master_key_changed, &mut d.name_changed, &mut d.recycle_bin_changed,
    ] {
        *x = t;
    }
    d
}
/// Number of places a text can stand in a database.
const SLOTS: u64 = 24;
/// Puts a text into slot `i`; true if the text is stored in clear.
fn put(d: &mut Database, i: u64, s: &str) -> bool {
    let s = s.to_string();
    if d.root_group.entries.is_empty() {
        d.root_group.entries.push(Entry::new());
        d.root_group.entries[0].history.push(Entry::new());
        d.root_group.groups.push(Group::new("sub"));
    }
    let e = &mut d.root_group.entries[0];
    match i {
        0 => d.name = s,
        1 => d.description = s,
        2 => d.def_username = s,
        3 => {
            d.binaries.insert(BinaryId(s), vec![1, 2, 3]);
        }
        4 => {
            d.custom_data.insert(s, "v".into());
        }
        5 => {
            d.custom_data.insert("k".into(), s);
        }
        6 => d.root_group.name = s,
        7 => d.root_group.notes = s,
        8 => d.root_group.def_auto_type_sequence = s,
        9 => d.root_group.groups[0].name = s,
        10 => e.auto_type_def_sequence = s,
        11 => e.override_url = s,
        12 => e.tags = s,
        13 => e.associations.push(Association { keystroke_sequence: s, window: "w".into() }),
        14 => e.associations.push(Association { keystroke_sequence: "k".into(), window: s }),
        15 => {
            e.binaries.insert(BinaryKey(s), BinaryValue::Plain(vec![9]));
        }
        16 => {
            e.binaries.insert(BinaryKey("b".into()), BinaryValue::Ref(BinaryId(s)));
        }
        17 => {
            e.strings.insert(StringKey::Title, StringValue::Plain(s));
        }
        18 => {
            e.strings.insert(StringKey::Other(s), StringValue::Plain("v".into()));
        }
        19 => {
            e.strings.insert(StringKey::Notes, StringValue::Protected(SecStr::from(s)));
            return false;
        }
        20 => {
            e.history[0].strings.insert(StringKey::Url, StringValue::Plain(s));
        }
        21 => {
            e.history[0].strings.insert(StringKey::Other(s), StringValue::Protected(SecStr::from("p".to_string())));
        }
        22 => e.history[0].associations.push(Association { keystroke_sequence: s.clone(), window: s }),
        _ => {
            e.strings.insert(StringKey::Username, StringValue::Plain(s));
        }
    }
    true
}
fn roundtrip(d: &Database) -> Option<String> {
    let f = match save(d) {
        Ok(f) => f,
        Err(e) => return Some(format!("saving fails: {}", kind(&e))),
    };
    match open(&f, &d.composite_key) {
        Err(e) => Some(format!("the saved file does not open: {}", kind(&e))),
        Ok(g) => diff(&norm(d.clone()), &g).map(|m| format!("after save and open {}", m)),
    }
}
fn roundtrip_or_refuse(d: &Database) -> Option<String> {
    match save(d) {
        Err(_) => None,
        Ok(f) => match open(&f, &d.composite_key) {
            Err(e) => Some(format!("saving succeeds but the file does not open: {}", kind(&e))),
            Ok(g) => diff(&norm(d.clone()), &g).map(|m| format!("after save and open {}", m)),
        },
    }
}
/// Makes the document of an uncompressed database end on, or one byte beside, a multiple of a power of two.
fn aligned(r: &mut Rng, d: &mut Database) -> Option<usize> {
    d.compression = Compression::None;
    let f = save(d).ok()?;
    let len = parse_file(&f, &d.composite_key.unsecure()).ok()?.xml.len();
    let unit = 1usize << *r.pick(&[8u32, 12, 15, 16, 16, 17, 19, 20, 20]);
    let end = (len / unit + r.range(1, 2) as usize) * unit + *r.pick(&[0usize, 0, 0, 1, unit - 1]);
    d.description.push_str(&"x".repeat(end - len));
    Some(end)
}
pub fn c01(r: &mut Rng, n: u64) -> Res {
    let nt = TRICKY.len() as u64;
    let nb = BAD.len() as u64;
    if n < SLOTS * nt {
        let mut d = minimal(r);
        let (s, i) = (TRICKY[(n / SLOTS) as usize], n % SLOTS);
        put(&mut d, i, s);
        if let Some(m) = roundtrip(&d) {
            return fail(format!("text {:?} in slot {}: {}", s, i, m));
        }
        return Case::ok(format!("text slot {} = {:?}", i, s));
    }
    let n = n - SLOTS * nt;
    if n < SLOTS * nb {
        let mut d = minimal(r);
        let (s, i) = (BAD[(n / SLOTS) as usize], n % SLOTS);
        let clear = put(&mut d, i, s);
        let m = if clear { roundtrip_or_refuse(&d) } else { roundtrip(&d) };
        if let Some(m) = m {
            return fail(format!("text {:?} in slot {}: {}", s, i, m));
        }
        return Case::ok(format!("unrepresentable text slot {} = {:?}", i, s));
    }
    let n = n - SLOTS * nb;
    if n < 8 {
        let mut d = minimal(r);
        let len = [0usize, 1, 65534, 65535, 65536, 65537, 131072, 200000][n as usize];
        d.comment = Some(Comment(r.bytes(len)));
        let m = if len > 65535 { roundtrip_or_refuse(&d) } else { roundtrip(&d) };
        if let Some(m) = m {
            return fail(format!("comment of {} bytes: {}", len, m));
        }
        return Case::ok(format!("comment of {} bytes", len));
    }
    if n % 41 == 17 {
        let mut d = database(r);
        if let Some(len) = aligned(r, &mut d) {
            if let Some(m) = roundtrip(&d) {
                return fail(format!("document of {} bytes: {}", len, m));
            }
            return Case::ok(format!("document of {} bytes", len));
        }
    }
    if n < 12 {
        // protected value that is not text
        let mut d = minimal(r);
        d.root_group.entries.push(Entry::new());
        let bad: &[u8] = [&[0xffu8][..], &[0xc3][..], &[0xed, 0xa0, 0x80][..], &[b'a', 0x80][..]][n as usize - 8];
        d.root_group.entries[0].strings.insert(StringKey::Notes, StringValue::Protected(SecStr::new(bad.to_vec())));
        if let Some(m) = roundtrip_or_refuse(&d) {
            return fail(format!("protected string with bytes {}: {}", hexs(bad), m));
        }
        return Case::ok(format!("protected bytes {}", hexs(bad)));
    }
    if n < 16 {
        // documents larger than one block of other writers, incompressible
        let mut d = minimal(r);
        d.compression = if n % 2 == 0 { Compression::None } else { Compression::GZip };
        let sz = if n < 14 { 70_000 } else { 1_200_000 };
        d.custom_icons.insert(CustomIconUuid(Uuid::from_bytes(r.arr16())), r.bytes(sz));
        if let Some(m) = roundtrip(&d) {
            return fail(format!("icon of {} bytes: {}", sz, m));
        }
        return Case::ok(format!("icon of {} bytes", sz));
    }
    if n < 40 {
        // deep and wide trees
        let mut d = minimal(r);
        let depth = n - 15;
        let mut g = Group::new("leaf");
        g.notes = "x".into();
        for i in 0..depth {
            let mut p = Group::new(format!("g{}", i));
            p.custom_icon_uuid = if i % 2 == 0 { Some(CustomIconUuid(Uuid::from_bytes(r.arr16()))) } else { None };
            let mut e = Entry::new();
            e.set_title(format!("t{}", i));
            e.set_password(format!("p{}", i));
            p.add_entry(e);
            p.groups.push(g);
            if i % 3 == 0 {
                p.groups.push(Group::new("sib"));
            }
            g = p;
        }
        d.root_group = g;
        if let Some(m) = roundtrip(&d) {
            return fail(format!("tree of depth {}: {}", depth, m));
        }
        return Case::ok(format!("tree of depth {}", depth));
    }
    let d = database(r);
    let m = roundtrip(&d);
    if let Some(m) = m {
        return fail(m);
    }
    // opening a second time through another save
    if r.chance(4) {
        let f = save(&d).ok().unwrap_or_default();
        if let Ok(d2) = open(&f, &d.composite_key) {
            if let Some(m) = roundtrip(&d2) {
                return fail(format!("second round: {}", m));
            }
        }
    }
    Case::ok(format!("random database, {} groups at the root, name {:?}", d.root_group.groups.len(), d.name))
}

// ---------------------------------------------------------------- building files
pub struct Built {
    pub key: CompositeKey,
    pub ck: [u8; 32],
    pub spec: Spec,
    pub db: Database,
    pub x: X,
}
/// A file's ingredients and the database expected from it.
pub fn built(r: &mut Rng, drop: u64, vary: bool, hash: bool) -> Built {
    let mut db = database(r);
    let key = db.composite_key.clone();
    let ck = key.unsecure();
    let mut spec = Spec::random(r);
    spec.comment = db.comment.as_ref().map(|c| c.0.clone());
    spec.minor = db.version.minor;
    spec.major = db.version.major;
    db.transform_rounds = TransformRounds(spec.rounds);
    db.compression = if spec.compression == 1 { Compression::GZip } else { Compression::None };
    let h = sha256(&spec.header());
    let gen = db.generator.clone();
    let x = Build { r, drop, vary }.db(&mut db, if hash { Some(h) } else { None });
    let mut db2 = norm(db);
    if drop == 0 {
        db2.generator = gen;
    } else {
        db2.generator = x.find("Meta").unwrap().find("Generator").map(|g| g.text()).unwrap_or_default();
    }
    Built { key, ck, spec, db: db2, x }
}
impl Built {
    pub fn doc(&self, indent: bool) -> String {
        self.spec.doc(&self.x, indent)
    }
    pub fn file(&self) -> Vec<u8> {
        self.spec.file(&self.ck, self.doc(true).as_bytes(), &[])
    }
}
fn expect(b: &Built, f: &[u8]) -> Option<String> {
    let t0 = Utc::now() - Duration::seconds(2);
    match open(f, &b.key) {
        Err(e) => Some(format!("the file does not open: {}", kind(&e))),
        Ok(g) => {
            let t1 = Utc::now() + Duration::seconds(2);
            let mut exp = b.db.clone();
            fix_times(&mut exp, &g, t0, t1);
            diff(&exp, &g)
        }
    }
}

// ---------------------------------------------------------------- C02
pub fn c02(r: &mut Rng, n: u64) -> Res {
    let mut b = built(r, 0, false, true);
    if b.db.root_group.groups.len() > 2 {
        b.db.root_group.groups.truncate(2);
    }
    let doc = b.doc(false);
    let packed = b.spec.pack(doc.as_bytes());
    let cuts: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(packed.len() as u64) as usize).collect();
    let header = b.spec.header();
    let payload = b.spec.payload(&packed, &cuts);
    let whole = |pl: &[u8]| -> Vec<u8> { [header.clone(), b.spec.encrypt(&b.ck, pl)].concat() };
    let good = whole(&payload);
    // offsets of the blocks in the payload
    let mut offs = vec![];
    let mut j = 32;
    loop {
        let n = u32::from_le_bytes([payload[j + 36], payload[j + 37], payload[j + 38], payload[j + 39]]) as usize;
        offs.push((j, n));
        j += 40 + n;
        if n == 0 {
            break;
        }
    }
    let nblocks = offs.len() - 1;
    let (what, bad): (String, Vec<u8>) = match n % 21 {
        0 => {
            // the intact file must open, otherwise nothing below means anything
            return match open(&good, &b.key) {
                Ok(_) => Case::ok("intact file".into()),
                Err(e) => fail(format!("an intact file does not open: {}", kind(&e))),
            };
        }
        1 | 2 => {
            let i = r.below(header.len() as u64) as usize;
            let bit = 1u8 << r.below(8);
            let mut f = good.clone();
            if rounds_bytes(&f).contains(&i) {
                return Case::trivial();
            }
            f[i] ^= bit;
            (format!("header byte {} xor {:#04x}", i, bit), f)
        }
        3 => {
            let i = 8 + r.below(4) as usize;
            let mut f = good.clone();
            f[i] ^= 1 << r.below(8);
            (format!("version byte {} changed", i), f)
        }
        4 => {
            let i = header.len() + r.below((good.len() - header.len()) as u64) as usize;
            let mut f = good.clone();
            f[i] ^= 1 << r.below(8);
            (format!("encrypted byte {} changed", i - header.len()), f)
        }
        5 | 6 => {
            let i = if n % 2 == 0 { (n / 21 % 32) as usize } else { r.below(32) as usize };
            let mut p = payload.clone();
            p[i] ^= 1 << r.below(8);
            (format!("start byte {} of the payload changed", i), whole(&p))
        }
        7 => {
            let (o, _) = *r.pick(&offs);
            let i = r.below(4) as usize;
            let mut p = payload.clone();
            p[o + i] ^= 1 << r.below(8);
            (format!("id byte {} of the block at {} changed", i, o), whole(&p))
        }
        8 | 9 => {
            let k = r.below(offs.len() as u64) as usize;
            let (o, _) = offs[k];
            let i = if n % 2 == 0 { (n / 21 % 32) as usize } else { r.below(32) as usize };
            let mut p = payload.clone();
            p[o + 4 + i] ^= 1 << r.below(8);
            (format!("hash byte {} of block {} of {} changed", i, k, nblocks), whole(&p))
        }
        10 | 11 => {
            let k = r.below(nblocks as u64) as usize;
            let (o, s) = offs[k];
            let i = match r.below(3) {
                0 => 0,
                1 => s - 1,
                _ => r.below(s as u64) as usize,
            };
            let mut p = payload.clone();
            p[o + 40 + i] ^= 1 << r.below(8);
            (format!("data byte {} of block {} changed", i, k), whole(&p))
        }
        12 => {
            // final block with a hash of something, or of nothing
            let (o, _) = offs[nblocks];
            let mut p = payload.clone();
            let h = if r.chance(2) { sha256(b"") } else { r.arr32() };
            p[o + 4..o + 36].copy_from_slice(&h);
            ("final block with a non-zero hash".into(), whole(&p))
        }
        13 => {
            let (o, _) = offs[nblocks];
            ("final block missing".into(), whole(&payload[..o]))
        }
        14 => {
            if nblocks < 2 {
                return Case::trivial();
            }
            let mut p = b.spec.ssb.to_vec();
            let parts: Vec<&[u8]> = offs[..nblocks].iter().map(|(o, s)| &payload[o + 40..o + 40 + s]).collect();
            let swap = r.chance(2);
            for (i, _) in parts.iter().enumerate() {
                let (id, d) = if swap {
                    // blocks moved together with their ids
                    let j = nblocks - 1 - i;
                    (j as u32, parts[j])
                } else {
                    (i as u32 + 1, parts[i])
                };
                block(&mut p, id, d);
            }
            final_block(&mut p, nblocks as u32 + if swap { 0 } else { 1 });
            (if swap { "blocks in reverse order" } else { "blocks numbered from 1" }.into(), whole(&p))
        }
        15 => {
            // a block removed or repeated, ids untouched
            let k = r.below(nblocks as u64) as usize;
            let mut p = b.spec.ssb.to_vec();
            let dup = r.chance(2);
            for i in 0..nblocks {
                let (o, s) = offs[i];
                if i != k || dup {
                    p.extend_from_slice(&payload[o..o + 40 + s]);
                }
                if i == k && dup {
                    p.extend_from_slice(&payload[o..o + 40 + s]);
                }
            }
            let (o, _) = offs[nblocks];
            p.extend_from_slice(&payload[o..o + 40]);
            (format!("block {} {}", k, if dup { "repeated" } else { "removed" }), whole(&p))
        }
        16 => {
            // wrong key
            let other = match r.below(3) {
                0 => CompositeKey::from_password("certainly not the password"),
                1 => CompositeKey::from_key_file(KeyFile { key: SecStr::new(r.bytes(32)), file_type: KeyFileType::Binary }),
                _ => CompositeKey::from_password(""),
            };
            if other == b.key {
                return Case::trivial();
            }
            return match open(&good, &other) {
                Ok(_) => fail("the file opens with a wrong key".into()),
                Err(_) => Case::ok("wrong key".into()),
            };
        }
        17 | 18 => {
            // header hash in the document that does not fit
            let h = sha256(&header);
            let v = match r.below(7) {
                0 => h[..31].to_vec(),
                1 => h[..16].to_vec(),
                2 => [&h[..], &[0u8][..]].concat(),
                3 => vec![],
                4 => vec![0; 32],
                5 => {
                    let mut h = h.to_vec();
                    let i = r.below(32) as usize;
                    h[i] ^= 1 << r.below(8);
                    h
                }
                _ => sha256(&header[..header.len() - 3 - b.spec.end_data.len()]).to_vec(),
            };
            let mut x = b.x.clone();
            for m in x.kids_mut() {
                if m.name() == "Meta" {
                    for k in m.kids_mut() {
                        if k.name() == "HeaderHash" {
                            *k = tx("HeaderHash", &b64(&v));
                        }
                    }
                }
            }
            let d = b.spec.doc(&x, false);
            (format!("header hash {} where {} is right", hexs(&v), hexs(&h)), b.spec.file(&b.ck, d.as_bytes(), &cuts))
        }
        19 => {
            // valid header hash for another header: change the comment only
            let mut s2 = b.spec.clone();
            s2.comment = Some(match &s2.comment {
                None => vec![],
                Some(c) => [&c[..c.len().min(60000)], &[1u8][..]].concat(),
            });
            let f = [s2.header(), b.spec.encrypt(&b.ck, &payload)].concat();
            ("comment field changed or added".into(), f)
        }
        _ => {
            // signatures
            let mut f = good.clone();
            let i = r.below(8) as usize;
            f[i] ^= 1 << r.below(8);
            (format!("signature byte {} changed", i), f)
        }
    };
    match open(&bad, &b.key) {
        Ok(_) => Err(Fail { what: format!("opens although damaged: {}", what), files: vec![("damaged.kdbx".into(), bad)] }),
        Err(_) => Case::ok(what),
    }
}

// ---------------------------------------------------------------- C03
const VOCAB: &[&str] = &[
    "KeePassFile", "Meta", "Root", "Group", "Entry", "History", "AutoType", "Association", "Times", "MemoryProtection",
    "Binaries", "Binary", "CustomData", "Item", "CustomIcons", "Icon", "String", "Key", "Value", "UUID", "Data", "Name", "Notes",
    "IconID", "Color", "BackgroundColor", "ForegroundColor", "CustomIconUUID", "Enabled", "EnableAutoType", "EnableSearching",
    "IsExpanded", "CreationTime", "ExpiryTime", "Expires", "UsageCount", "LastAccessTime", "Tags", "OverrideURL", "Window",
    "KeystrokeSequence", "DataTransferObfuscation", "DefaultSequence", "HeaderHash", "HistoryMaxItems", "RecycleBinUUID",
    "RecycleBinEnabled", "MasterKeyChanged", "Generator", "DatabaseName", "ProtectNotes", "Foo", "LastTopVisibleEntry",
];
const TEXTS: &[&str] = &[
    "", " ", "true", "False", "null", "0", "1", "68", "69", "-1", "2147483648", "99999999999999999999", "#123456", "#1é2345",
    "#日本", "é#12345", "#+f0000", "#12345", "#1234567", "#é", "##é###", "#ééé", "#12é45", "#1234é", "#💣é", "2020-01-02T03:04:05Z", "2020-13-45T99:99:99Z", "+262143-12-31T23:59:59.999999999Z",
    "2016-12-31T23:59:60Z", "-262143-01-01T00:00:00Z", "AAAA", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAB==", "=", "====", "A", "/w==", "H4sIAAAAAAAAAwMAAAAAAAAAAAA=", "H4sI", "日本語", "\u{1}",
];
fn wild(r: &mut Rng, depth: u64) -> X {
    let name = *r.pick(VOCAB);
    let mut attrs = vec![];
    if r.chance(4) {
        attrs.push((*r.pick(&["Protected", "Compressed", "ID", "Ref", "ProtectInMemory", "x"]), *r.pick(TEXTS)));
    }
    let mut kids = vec![];
    if depth > 0 && r.chance(2) {
        for _ in 0..r.below(5) {
            kids.push(wild(r, depth - 1));
            if r.chance(5) {
                kids.push(X::Text(r.pick(TEXTS).to_string()));
            }
        }
    } else {
        kids.push(X::Text(r.pick(TEXTS).to_string()));
    }
    ela(name, attrs, kids)
}
fn every_leaf<'a>(x: &'a mut X, v: &mut Vec<&'a mut X>) {
    let leaf = !x.kids().iter().any(|k| matches!(k, X::El { .. }));
    if leaf {
        v.push(x);
    } else if let X::El { kids, .. } = x {
        for k in kids {
            if matches!(k, X::El { .. }) {
                every_leaf(k, v);
            }
        }
    }
}
pub fn c03(r: &mut Rng, n: u64) -> Res {
    let key = CompositeKey::from_password("k");
    let ck = key.unsecure();
    let mut s = Spec::random(r);
    s.rounds = 1;
    let (what, f): (String, Vec<u8>) = match n % 12 {
        0 => {
            // any payload length below what the start bytes need, and around it
            let len = (n / 12 % 90) as usize;
            let mut p = s.ssb.to_vec();
            p.extend(r.bytes(60));
            p.truncate(len);
            (format!("payload of {} bytes", len), [s.header(), s.encrypt(&ck, &p)].concat())
        }
        1 => {
            let len = r.below(70) as usize;
            (format!("{} bytes of ciphertext", len), [s.header(), r.bytes(len)].concat())
        }
        2 => {
            // valid decryption without or with odd padding
            let mut p = s.ssb.to_vec();
            p.extend(r.bytes(48));
            let k = *r.pick(&[0u8, 1, 16, 17, 32, 255]);
            let l = p.len();
            p[l - 1] = k;
            if r.chance(2) {
                // the whole last block holds the count
                for x in &mut p[l - 16..] {
                    *x = k;
                }
            }
            let c = cbc_enc_raw(&master(&ck, &s.tseed, s.rounds, &s.mseed), &s.iv, &p);
            (format!("padding byte {}", k), [s.header(), c].concat())
        }
        3 => {
            // hostile block lists
            let mut p = s.ssb.to_vec();
            for i in 0..r.below(4) {
                let d = { let n = r.below(20) as usize; r.bytes(n) };
                match r.below(4) {
                    0 => block(&mut p, i as u32, &s.pack(&d)),
                    1 => {
                        p.extend_from_slice(&(i as u32).to_le_bytes());
                        p.extend_from_slice(&sha256(&d));
                        let size = *r.pick(&[0u32, 1, 100, 65536, 1_000_000]);
                        p.extend_from_slice(&size.to_le_bytes());
                        p.extend_from_slice(&d);
                    }
                    _ => p.extend(d),
                }
            }
            if r.chance(2) {
                final_block(&mut p, r.below(3) as u32);
            }
            ("hostile block list".into(), [s.header(), s.encrypt(&ck, &p)].concat())
        }
        4 | 5 => {
            let x = el("KeePassFile", (0..r.below(4)).map(|_| wild(r, 5)).collect());
            let d = s.doc(&x, r.chance(2));
            ("arbitrary elements".into(), s.file(&ck, d.as_bytes(), &[]))
        }
        6 | 7 => {
            // every text element of a valid document in turn gets hostile text
            let mut b = built(r, 0, false, false);
            let mut v = vec![];
            every_leaf(&mut b.x, &mut v);
            let i = r.below(v.len() as u64) as usize;
            let t = *r.pick(TEXTS);
            let name = v[i].name().to_string();
            if let X::El { kids, .. } = &mut *v[i] {
                *kids = if r.chance(6) { vec![wild(r, 2)] } else { vec![X::Text(t.into())] };
            }
            b.spec.rounds = 1;
            let f = b.spec.file(&b.ck, b.doc(false).as_bytes(), &[]);
            // opened with its own key
            let _ = open(&f, &b.key);
            return Case::ok(format!("{} = {:?}", name, t));
        }
        8 => {
            // each typed element with each hostile text, systematically
            let m = n / 12;
            let t = TEXTS[(m % TEXTS.len() as u64) as usize];
            let name = VOCAB[(m / TEXTS.len() as u64 % VOCAB.len() as u64) as usize];
            let leaf = || ela(name, vec![], vec![X::Text(t.into())]);
            let entry = el("Entry", vec![leaf(), el("AutoType", vec![leaf(), el("Association", vec![leaf()])]), el("Times", vec![leaf()]),
                el("String", vec![tx("Key", "k"), ela("Value", vec![("Protected", t)], vec![X::Text(t.into())])]),
                el("Binary", vec![tx("Key", "k"), ela("Value", vec![("Protected", "True")], vec![X::Text(t.into())])]),
                el("History", vec![el("Entry", vec![leaf()])])]);
            let x = match r.below(4) {
                0 => el("KeePassFile", vec![el("Meta", vec![leaf()])]),
                1 => el("KeePassFile", vec![el("Root", vec![el("Group", vec![leaf()])])]),
                2 => el("KeePassFile", vec![el("Root", vec![el("Group", vec![el("Times", vec![leaf()]), el("Entry", vec![leaf()])])])]),
                _ => el("KeePassFile", vec![el("Root", vec![el("Group", vec![entry])])]),
            };
            let d = s.doc(&x, false);
            (format!("{} = {:?}", name, t), s.file(&ck, d.as_bytes(), &[]))
        }
        9 => {
            // truncated or damaged document
            let b = built(r, 0, false, false);
            let mut d = b.doc(r.chance(2)).into_bytes();
            if r.chance(2) {
                let k = r.below(d.len() as u64) as usize;
                d.truncate(k);
            } else {
                for _ in 0..r.range(1, 4) {
                    let k = r.below(d.len() as u64) as usize;
                    d[k] = *r.pick(b"<>/&;\"= \x00\xff\xc3aZ#");
                }
            }
            let f = b.spec.file(&b.ck, &d, &[]);
            let _ = open(&f, &b.key);
            return Case::ok("damaged document".into());
        }
        10 => {
            // damaged outer bytes
            let mut f = s.file(&ck, b"<KeePassFile/>", &[]);
            for _ in 0..r.range(1, 5) {
                let k = r.below(f.len() as u64) as usize;
                f[k] = r.byte();
            }
            if r.chance(2) {
                let k = r.below(f.len() as u64) as usize;
                f.truncate(k);
            }
            // keep the number of rounds small: find field 6 and clear its upper bytes
            if let Some(p) = f.windows(3).position(|w| w == [6, 8, 0]) {
                for i in 2..8 {
                    if p + 3 + i < f.len() {
                        f[p + 3 + i] = 0;
                    }
                }
            } else {
                return Case::trivial();
            }
            ("damaged outer bytes".into(), f)
        }
        _ => {
            // key files
            let len = match r.below(5) {
                0 => 32,
                1 => 64,
                2 => r.below(70),
                _ => 0,
            } as usize;
            let f: Vec<u8> = if len > 0 || r.chance(8) {
                if r.chance(2) { r.bytes(len) } else { (0..len).map(|_| *r.pick(b"0123456789abcdefABCDEFgG+-x \xc3")).collect() }
            } else {
                let x = el("KeyFile", vec![el("Meta", vec![tx("Version", *r.pick(&["1.00", "2.0", ""]))]), el("Key", vec![ela(*r.pick(&["Data", "Key", "Meta", "KeyFile"]), vec![], vec![X::Text(r.pick(TEXTS).to_string())])])]);
                let mut d = s.doc(&x, r.chance(2)).into_bytes();
                if r.chance(3) {
                    let k = r.below(d.len() as u64) as usize;
                    d.truncate(k);
                }
                d
            };
            let _ = KeyFile::open(&mut Cursor::new(f.clone()));
            return Case::ok(format!("key file of {} bytes", f.len()));
        }
    };
    crate::note_file("input.kdbx", &f);
    let _ = open(&f, &key);
    Case::ok(what)
}

// ---------------------------------------------------------------- C04
struct Src<'a> {
    d: &'a [u8],
    i: usize,
    r: Rng,
    max: u64,
    intr: u64,
    fail_at: Option<usize>,
}
impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.intr > 0 && self.r.chance(self.intr) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = buf.len().min(self.d.len() - self.i);
        if self.max > 0 && n > 0 {
            n = n.min(self.r.range(1, self.max) as usize);
        }
        if let Some(k) = self.fail_at {
            if self.i >= k {
                return Err(io::Error::new(io::ErrorKind::Other, "kpdb-harness source failure"));
            }
            n = n.min(k - self.i);
        }
        buf[..n].copy_from_slice(&self.d[self.i..self.i + n]);
        self.i += n;
        Ok(n)
    }
}
fn show(r: &kpdb::Result<Database>) -> String {
    match r {
        Ok(d) => format!("a database named {:?}", d.name),
        Err(e) => kind(e),
    }
}
pub fn c04(r: &mut Rng, n: u64) -> Res {
    if n % 6 == 5 {
        return c04_key(r, n / 6);
    }
    let b = built(r, 0, false, n % 2 == 0);
    let mut f = b.file();
    let mut whole_ok = true;
    if n % 7 == 3 {
        // also for files that are refused
        let i = r.below(f.len().min(300) as u64) as usize;
        if !rounds_bytes(&f).contains(&i) {
            f[i] ^= 1;
            whole_ok = false;
        }
    }
    let whole = open(&f, &b.key);
    if whole_ok && whole.is_err() {
        return fail(format!("an intact file does not open: {}", show(&whole)));
    }
    let src = |max, intr, fail_at, seed| Src { d: &f, i: 0, r: Rng::new(seed, 1), max, intr, fail_at };
    let same = |a: &kpdb::Result<Database>, c: &kpdb::Result<Database>| match (a, c) {
        (Ok(x), Ok(y)) => x == y,
        (Err(x), Err(y)) => kind(x) == kind(y),
        _ => false,
    };
    let what;
    match n % 6 {
        0 | 1 => {
            let max = *r.pick(&[1u64, 1, 2, 3, 5, 7, 16, 31, 33]);
            let seed = r.u64();
            let got = Database::open(&mut src(max, 0, None, seed), &b.key);
            what = format!("pieces of at most {} bytes", max);
            if !same(&whole, &got) {
                return fail(format!("{}: {} instead of {}", what, show(&got), show(&whole)));
            }
        }
        2 => {
            let max = *r.pick(&[0u64, 1, 4]);
            let seed = r.u64();
            let got = Database::open(&mut src(max, 3, None, seed), &b.key);
            what = format!("interrupted reads, pieces of at most {}", max);
            if !same(&whole, &got) {
                return fail(format!("{}: {} instead of {}", what, show(&got), show(&whole)));
            }
        }
        3 => {
            if !whole_ok {
                return Case::trivial();
            }
            let hl = b.spec.header().len();
            let k = match r.below(5) {
                0 => r.below(hl as u64) as usize,
                3 => f.len() - 16 * r.range(1, 3) as usize,
                1 => (n as usize / 6) % hl,
                2 => f.len() - 1 - r.below(40).min(f.len() as u64 - 1) as usize,
                _ => r.below(f.len() as u64) as usize,
            };
            let t = &f[..k];
            let got = Database::open(&mut Cursor::new(t.to_vec()), &b.key);
            what = format!("cut off after {} of {} bytes (header {})", k, f.len(), hl);
            if got.is_ok() {
                return fail(format!("{}: opens", what));
            }
            if k < hl && !matches!(got, Err(kpdb::Error::Io(_))) {
                // nothing but a read error may be concluded from bytes that are not there
                return fail(format!("{}: {} instead of a read error", what, show(&got)));
            }
            let seed = r.u64();
            let mut s2 = Src { d: t, i: 0, r: Rng::new(seed, 1), max: 3, intr: 0, fail_at: None };
            let got2 = Database::open(&mut s2, &b.key);
            if !same(&got, &got2) {
                return fail(format!("{}: in pieces {} instead of {}", what, show(&got2), show(&got)));
            }
        }
        _ => {
            if !whole_ok {
                return Case::trivial();
            }
            let hl = b.spec.header().len();
            let k = if r.chance(2) { r.below(hl as u64) } else { r.below(f.len() as u64 + 1) } as usize;
            let max = *r.pick(&[0u64, 1, 6]);
            let seed = r.u64();
            let got = Database::open(&mut src(max, 0, Some(k), seed), &b.key);
            what = format!("source fails after {} of {} bytes", k, f.len());
            match &got {
                Err(kpdb::Error::Io(e)) if e.to_string().contains("kpdb-harness source failure") => {}
                _ => return fail(format!("{}: {} instead of the source's error", what, show(&got))),
            }
        }
    }
    Case::ok(what)
}
fn c04_key(r: &mut Rng, n: u64) -> Res {
    let k = key_file(r);
    let mut f = vec![];
    if let Err(e) = k.save(&mut f) {
        return fail(format!("saving a key file fails: {}", kind(&e)));
    }
    let showk = |x: &kpdb::Result<KeyFile>| match x {
        Ok(k) => format!("{:?} key {}", k.file_type, hexs(k.key.unsecure())),
        Err(e) => kind(e),
    };
    let whole = KeyFile::open(&mut Cursor::new(f.clone()));
    let seed = r.u64();
    if n % 2 == 0 {
        let mut s = Src { d: &f, i: 0, r: Rng::new(seed, 2), max: r.range(1, 40), intr: *r.pick(&[0u64, 2, 3]), fail_at: None };
        let got = KeyFile::open(&mut s);
        if showk(&whole) != showk(&got) {
            return fail(format!("key file in pieces: {} instead of {}", showk(&got), showk(&whole)));
        }
        Case::ok(format!("key file of {} bytes in pieces", f.len()))
    } else {
        let at = r.below(f.len() as u64 + 1) as usize;
        let mut s = Src { d: &f, i: 0, r: Rng::new(seed, 2), max: r.below(9), intr: 0, fail_at: Some(at) };
        let got = KeyFile::open(&mut s);
        match &got {
            Err(kpdb::Error::Io(e)) if e.to_string().contains("kpdb-harness source failure") => {}
            _ => return fail(format!("key file source fails after {} bytes: {}", at, showk(&got))),
        }
        Case::ok(format!("key file source failing after {} bytes", at))
    }
}

// ---------------------------------------------------------------- C05
struct Sink {
    got: Vec<u8>,
    r: Rng,
    max: u64,
    intr: u64,
    fail_at: Option<usize>,
    zero: bool,
    hit: bool,
    once: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.intr > 0 && self.r.chance(self.intr) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = b.len();
        if self.max > 0 {
            n = n.min(self.r.range(1, self.max) as usize);
        }
        if let Some(k) = self.fail_at {
            if self.got.len() >= k {
                self.hit = true;
                if self.once {
                    self.fail_at = None;
                }
                return if self.zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "kpdb-harness sink failure")) };
            }
            n = n.min(k - self.got.len());
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub fn c05(r: &mut Rng, n: u64) -> Res {
    let seed = r.u64();
    let max = *r.pick(&[0u64, 1, 1, 2, 3, 7, 15, 100]);
    let mut s = Sink { got: vec![], r: Rng::new(seed, 3), max, intr: 0, fail_at: None, zero: false, hit: false, once: r.chance(2) };
    if n % 5 == 4 {
        // key files
        let k = key_file(r);
        let mut plain = vec![];
        if let Err(e) = k.save(&mut plain) {
            return fail(format!("saving a key file fails: {}", kind(&e)));
        }
        match r.below(3) {
            0 => {}
            1 => s.intr = 3,
            _ => {
                s.fail_at = Some(r.below(plain.len() as u64) as usize);
                s.zero = r.chance(2);
            }
        }
        let at = s.fail_at;
        let what = format!("{:?} key file, pieces of at most {}, failure {} at {:?}", k.file_type, max, if s.once { "once" } else { "from then on" }, at);
        let res = k.save(&mut s);
        return match (res, at) {
            (Ok(_), Some(_)) => fail(format!("{}: saving succeeds although only {} of {} bytes were accepted", what, s.got.len(), plain.len())),
            (Err(e), None) => fail(format!("{}: saving fails with {}", what, kind(&e))),
            (Ok(_), None) if s.got != plain => fail(format!("{}: sink got {} bytes instead of {}", what, s.got.len(), plain.len())),
            _ => Case::ok(what),
        };
    }
    let d = database(r);
    match n % 5 {
        0 | 1 => {
            if n % 5 == 1 {
                s.intr = 4;
            }
            let what = format!("pieces of at most {} bytes, interrupts {}", max, s.intr > 0);
            if let Err(e) = d.save(&mut s) {
                return fail(format!("{}: saving fails with {}", what, kind(&e)));
            }
            if let Err(m) = parse_file(&s.got, &d.composite_key.unsecure()) {
                return fail(format!("{}: saving succeeds but the sink holds no complete file: {}", what, m));
            }
            match open(&s.got, &d.composite_key) {
                Err(e) => fail(format!("{}: saving succeeds but what the sink got does not open: {}", what, kind(&e))),
                Ok(g) => match diff(&norm(d), &g) {
                    Some(m) => fail(format!("{}: what the sink got differs: {}", what, m)),
                    None => Case::ok(what),
                },
            }
        }
        _ => {
            let len = match save(&d) {
                Ok(f) => f.len(),
                Err(e) => return fail(format!("saving fails: {}", kind(&e))),
            };
            s.zero = n % 5 == 3;
            let k = match r.below(3) {
                0 => r.below(400.min(len as u64 - 40)),
                1 => (n / 5) % 300.min(len as u64 - 40),
                _ => r.below(len as u64 - 40),
            } as usize;
            s.fail_at = Some(k);
            let res = d.save(&mut s);
            let what = format!("sink {}{} after {} bytes, pieces of at most {}", if s.once { "once " } else { "" }, if s.zero { "accepts nothing" } else { "fails" }, k, max);
            match res {
                Ok(_) if s.hit => fail(format!("{}: saving succeeds with {} bytes accepted", what, s.got.len())),
                Ok(_) => {
                    // never reached the failure: then it must be complete
                    match parse_file(&s.got, &d.composite_key.unsecure()) {
                        Ok(_) => Case::trivial(),
                        Err(m) => fail(format!("{}: saving succeeds with an incomplete file: {}", what, m)),
                    }
                }
                Err(kpdb::Error::Io(e)) if !s.zero && !e.to_string().contains("kpdb-harness sink failure") => {
                    fail(format!("{}: error {} is not the sink's", what, e))
                }
                Err(_) => Case::ok(what),
            }
        }
    }
}

// ---------------------------------------------------------------- C06
pub fn c06(r: &mut Rng, n: u64) -> Res {
    match n % 8 {
        0 | 1 => {
            let d = database(r);
            let f = match save(&d) {
                Ok(f) => f,
                Err(e) => return fail(format!("saving fails: {}", kind(&e))),
            };
            let p = match parse_file(&f, &d.composite_key.unsecure()) {
                Ok(p) => p,
                Err(m) => return fail(format!("saved file: {}", m)),
            };
            if (p.major, p.minor) != (d.version.major, d.version.minor) {
                return fail(format!("version {}.{} written for {:?}", p.major, p.minor, d.version));
            }
            if p.field(1) != d.comment.as_ref().map(|c| &c.0[..]) {
                return fail(format!("comment field {:?} for {:?}", p.field(1).map(|x| x.len()), d.comment.as_ref().map(|c| c.0.len())));
            }
            let c = if d.compression == Compression::GZip { 1u32 } else { 0 };
            if p.field(3) != Some(&c.to_le_bytes()[..]) {
                return fail(format!("compression field {:?} for {:?}", p.field(3), d.compression));
            }
            if p.field(6) != Some(&d.transform_rounds.0.to_le_bytes()[..]) {
                return fail(format!("rounds field {:?} for {:?}", p.field(6), d.transform_rounds));
            }
            // the header hash recorded inside covers exactly the header bytes
            match parse_xml(&p.xml) {
                Err(m) => fail(format!("saved document: {}", m)),
                Ok(x) => {
                    let h = x.find("Meta").and_then(|m| m.find("HeaderHash")).map(|h| h.text());
                    if h != Some(b64(&sha256(&f[..p.header_len]))) {
                        return fail(format!("header hash {:?} does not match the header", h));
                    }
                    Case::ok(format!("saved header, comment {:?}", d.comment.map(|c| c.0.len())))
                }
            }
        }
        2 => {
            let len = [65536usize, 65537, 65540, 131071, 131072, 70000, 100000, 1 << 17][(n / 8 % 8) as usize];
            let mut d = Database::new(&CompositeKey::from_password("x"));
            d.transform_rounds = TransformRounds(1);
            d.comment = Some(Comment(vec![7; len]));
            match save(&d) {
                Err(_) => Case::ok(format!("comment of {} bytes", len)),
                Ok(_) => fail(format!("a comment of {} bytes is accepted when saving", len)),
            }
        }
        3 | 4 => {
            // any order, repetitions: the last one counts
            let mut b = built(r, 0, false, false);
            b.spec.comment = if r.chance(2) { None } else { Some({ let n = r.below(20) as usize; r.bytes(n) }) };
            b.db.comment = b.spec.comment.clone().map(Comment);
            let mut fl = b.spec.fields();
            r.shuffle(&mut fl);
            let mut all: Vec<(u8, Vec<u8>)> = vec![];
            let dups = r.below(4);
            for _ in 0..dups {
                let (id, v) = r.pick(&fl).clone();
                let w = match id {
                    2 => v,
                    3 => (r.below(2) as u32).to_le_bytes().to_vec(),
                    6 => r.below(5).to_le_bytes().to_vec(),
                    10 => v,
                    1 => { let n = r.below(9) as usize; r.bytes(n) },
                    _ => r.bytes(v.len()),
                };
                all.push((id, w));
            }
            all.extend(fl.clone());
            // interleave: the early copies may stand anywhere before their real one
            if dups > 0 && r.chance(2) {
                let mut k = all.clone();
                r.shuffle(&mut k);
                // keep the real ones last among equals
                let mut out: Vec<(u8, Vec<u8>)> = vec![];
                for (id, _) in &k {
                    let total = all.iter().filter(|x| x.0 == *id).count();
                    let seen = out.iter().filter(|x| x.0 == *id).count();
                    let v = if seen + 1 == total {
                        fl.iter().find(|x| x.0 == *id).unwrap().1.clone()
                    } else {
                        all.iter().filter(|x| x.0 == *id).nth(seen).unwrap().1.clone()
                    };
                    out.push((*id, v));
                }
                all = out;
            }
            let h = b.spec.header_of(&all);
            let doc = b.doc(false);
            let pl = b.spec.payload(&b.spec.pack(doc.as_bytes()), &[]);
            let f = [h, b.spec.encrypt(&b.ck, &pl)].concat();
            let what = format!("fields in order {:?}", all.iter().map(|x| x.0).collect::<Vec<_>>());
            match expect(&b, &f) {
                Some(m) => Err(Fail { what: format!("{}: {}", what, m), files: vec![("input.kdbx".into(), f)] }),
                None => Case::ok(what),
            }
        }
        _ => {
            let key = CompositeKey::from_password("k");
            let ck = key.unsecure();
            let mut s = Spec::random(r);
            s.rounds = 1;
            let mut fl = s.fields();
            if r.chance(2) {
                r.shuffle(&mut fl);
            }
            let sizes: &[(u8, u16)] = &[(2, 16), (3, 4), (4, 32), (5, 32), (6, 8), (7, 16), (8, 32), (9, 32), (10, 4)];
            let mut tail = s.encrypt(&ck, &s.payload(&s.pack(b"<KeePassFile/>"), &[]));
            let k = n / 8;
            let (what, want): (String, Box<dyn Fn(&kpdb::Error) -> bool>) = match n % 8 {
                5 => {
                    // wrong length, every field, lengths around the right one
                    let (id, size) = sizes[(k % 9) as usize];
                    let delta = [-1i32, 1, -2, 2, 256, -(size as i32), 16, 65535 - size as i32][(k / 9 % 8) as usize];
                    let act = (size as i32 + delta) as u16;
                    let i = fl.iter().position(|x| x.0 == id).unwrap();
                    let mut v = fl[i].1.clone();
                    v.resize(act as usize, 0);
                    fl[i].1 = v;
                    if fl.len() > 1 && r.chance(2) {
                        // first among the fields
                        fl.swap(0, i);
                    }
                    (
                        format!("field {} with {} bytes", id, act),
                        Box::new(move |e| matches!(e, kpdb::Error::InvalidHeaderSize { id: a, expected: b, actual: c } if *a == id && *b == size && *c == act)),
                    )
                }
                6 => {
                    if k % 2 == 0 {
                        let id = if k % 4 == 0 { 11 + (k / 4 % 245) as u8 } else { r.range(11, 255) as u8 };
                        let at = r.below(fl.len() as u64 + 1) as usize;
                        fl.insert(at, (id, { let n = r.below(8) as usize; r.bytes(n) }));
                        (format!("unknown field {}", id), Box::new(move |e| matches!(e, kpdb::Error::UnhandledHeader(x) if *x == id)))
                    } else {
                        // one required field missing
                        let (id, _) = sizes[(k / 2 % 9) as usize];
                        fl.retain(|x| x.0 != id);
                        (format!("field {} missing", id), Box::new(move |e| matches!(e, kpdb::Error::MissingHeader(x) if *x == id)))
                    }
                }
                _ => match k % 5 {
                    0 => {
                        let v = *r.pick(&[2u32, 3, 256, 0x0100_0000, 0x0001_0000, 0x0101, u32::MAX]);
                        for x in fl.iter_mut().filter(|x| x.0 == 3) {
                            x.1 = v.to_le_bytes().to_vec();
                        }
                        (format!("compression {}", v), Box::new(move |e| matches!(e, kpdb::Error::UnhandledCompression(x) if *x == v)))
                    }
                    1 => {
                        let v = *r.pick(&[0u32, 1, 3, 0x0200_0000, 0x0102, 0x0202, u32::MAX]);
                        for x in fl.iter_mut().filter(|x| x.0 == 10) {
                            x.1 = v.to_le_bytes().to_vec();
                        }
                        (format!("stream cipher {}", v), Box::new(move |e| matches!(e, kpdb::Error::UnhandledStreamCipher(x) if *x == v)))
                    }
                    2 => {
                        let mut v = AES_ID;
                        let i = (k / 5 % 16) as usize;
                        v[i] ^= 1 << r.below(8);
                        for x in fl.iter_mut().filter(|x| x.0 == 2) {
                            x.1 = v.to_vec();
                        }
                        (format!("cipher {}", hexs(&v)), Box::new(move |e| matches!(e, kpdb::Error::UnhandledMasterCipher(x) if *x == v)))
                    }
                    3 => {
                        let mut h = s.header_of(&fl);
                        let i = (k / 5 % 4) as usize;
                        h[i] ^= 1 << r.below(8);
                        let v = [h[0], h[1], h[2], h[3]];
                        let f = [h, tail].concat();
                        return match open(&f, &key) {
                            Err(kpdb::Error::InvalidDbSignature(x)) if x == v => Case::ok(format!("signature {}", hexs(&v))),
                            o => fail(format!("signature {}: {}", hexs(&v), show(&o))),
                        };
                    }
                    _ => {
                        let mut h = s.header_of(&fl);
                        if k / 5 % 3 == 0 {
                            h[4..8].copy_from_slice(&[0x65, 0xfb, 0x4b, 0xb5]);
                        } else {
                            h[4 + (k / 5 % 4) as usize] ^= 1 << r.below(8);
                        }
                        let v = [h[4], h[5], h[6], h[7]];
                        if r.chance(4) {
                            tail.truncate(0);
                        }
                        let f = [h, tail].concat();
                        return match open(&f, &key) {
                            Err(kpdb::Error::UnhandledDbType(x)) if x == v => Case::ok(format!("type {}", hexs(&v))),
                            o => fail(format!("type {}: {}", hexs(&v), show(&o))),
                        };
                    }
                },
            };
            let f = [s.header_of(&fl), tail].concat();
            match open(&f, &key) {
                Err(e) if want(&e) => Case::ok(what),
                o => Err(Fail { what: format!("{}: {}", what, show(&o)), files: vec![("input.kdbx".into(), f)] }),
            }
        }
    }
}

// ---------------------------------------------------------------- C07
pub fn c07(r: &mut Rng, n: u64) -> Res {
    let pw = if n < TRICKY.len() as u64 { TRICKY[n as usize].to_string() } else { text(r) };
    let kfb = match r.below(5) {
        0 => vec![],
        1 => { let n = r.range(1, 200) as usize; r.bytes(n) },
        _ => r.bytes(32),
    };
    let kf = || KeyFile {
        key: SecStr::new(kfb.clone()),
        file_type: KeyFileType::Xml,
    };
    let ph = sha256(pw.as_bytes());
    let cases = [
        ("password", CompositeKey::from_password(pw.clone()), sha256(&ph)),
        ("key file", CompositeKey::from_key_file(kf()), sha256(&kfb)),
        ("password and key file", CompositeKey::from_both(pw.clone(), kf()), sha256(&[&ph[..], &kfb[..]].concat())),
    ];
    for (w, k, e) in &cases {
        if k.unsecure() != *e {
            return fail(format!("composite key from {} ({:?}, {}): {} instead of {}", w, pw, hexs(&kfb), hexs(&k.unsecure()), hexs(e)));
        }
    }
    let (w, key, ck) = &cases[r.below(3) as usize];
    let rounds = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => r.range(250, 260),
        4 if r.chance(10) => 65536 + r.below(3),
        5 => r.range(3, 40),
        6 => {
            let bits = r.range(3, 14);
            r.below(1 << bits)
        }
        _ => r.below(10),
    };
    if n % 2 == 0 {
        let mut d = Database::new(key);
        d.transform_rounds = TransformRounds(rounds);
        d.root_group.entries.push({
            let mut e = Entry::new();
            e.set_password("secret");
            e
        });
        let f = match save(&d) {
            Ok(f) => f,
            Err(e) => return fail(format!("saving fails: {}", kind(&e))),
        };
        match parse_file(&f, ck) {
            Err(m) => fail(format!("{} rounds, {}: {}", rounds, w, m)),
            Ok(p) => {
                // the inner stream key
                let mut ok = false;
                if let Ok(x) = parse_xml(&p.xml) {
                    x.walk(&mut |e| {
                        if e.attr("Protected").is_some() {
                            if let Some(b) = unb64(&e.text()) {
                                ok |= Salsa::new(&sha256(&p.psk)).xor(&b) == b"secret";
                            }
                        }
                    });
                }
                if ok {
                    Case::ok(format!("saved, {} rounds, {}", rounds, w))
                } else {
                    fail("the inner stream key is not SHA-256 of the protected stream key".into())
                }
            }
        }
    } else {
        let mut s = Spec::random(r);
        s.rounds = rounds;
        let x = el("KeePassFile", vec![el("Root", vec![el("Group", vec![el("Entry", vec![el(
            "String",
            vec![tx("Key", "Password"), ela("Value", vec![("Protected", "True")], vec![X::Prot(b"secret".to_vec())])],
        )])])])]);
        let f = s.file(ck, s.doc(&x, true).as_bytes(), &[]);
        match open(&f, key) {
            Err(e) => fail(format!("file made with KeePass's derivation, {} rounds, {}: {}", rounds, w, kind(&e))),
            Ok(d) => {
                if d.root_group.entries.get(0).and_then(|e| e.password()) != Some("secret") {
                    return fail("the inner stream key is not SHA-256 of the protected stream key".into());
                }
                Case::ok(format!("opened, {} rounds, {}", rounds, w))
            }
        }
    }
}

// ---------------------------------------------------------------- C08
pub fn c08(r: &mut Rng, n: u64) -> Res {
    if n % 2 == 0 {
        let mut d = database(r);
        if d.root_group.entries.is_empty() {
            d.root_group.entries.push(entry(r, 2));
        }
        // several protected values everywhere
        for e in d.root_group.entries.iter_mut() {
            e.strings.insert(StringKey::Password, StringValue::Protected(SecStr::from(text(r))));
            let t = text(r);
            e.strings.insert(StringKey::Url, if r.chance(2) { StringValue::Plain(t) } else { StringValue::Protected(SecStr::from(t)) });
            let b = blob(r);
            e.binaries.insert(BinaryKey("zz".into()), BinaryValue::Protected(SecStr::new(b)));
        }
        let f = match save(&d) {
            Ok(f) => f,
            Err(e) => return fail(format!("saving fails: {}", kind(&e))),
        };
        let p = match parse_file(&f, &d.composite_key.unsecure()) {
            Ok(p) => p,
            Err(m) => return fail(format!("saved file: {}", m)),
        };
        let x = match parse_xml(&p.xml) {
            Ok(x) => x,
            Err(m) => return fail(format!("saved document: {}", m)),
        };
        let mut s = Salsa::new(&sha256(&p.psk));
        let g = match x.find("Root").and_then(|x| x.find("Group")) {
            Some(g) => g,
            None => return fail("saved document has no root group".into()),
        };
        let mut cnt = 0;
        if let Some(m) = walk_group(g, &d.root_group, &mut s, &mut cnt) {
            return fail(m);
        }
        Case::ok(format!("saved document with {} protected values, {} keystream bytes", cnt, s.used))
    } else {
        let mut b = built(r, 0, false, false);
        for e in b.db.root_group.entries.iter_mut() {
            e.parent = b.db.root_group.uuid;
        }
        shuffle(&mut b.x, r);
        let f = b.file();
        match expect(&b, &f) {
            Some(m) => Err(Fail { what: format!("shuffled document: {}", m), files: vec![("input.kdbx".into(), f)] }),
            None => Case::ok("shuffled document read".into()),
        }
    }
}
fn walk_group(x: &X, g: &Group, s: &mut Salsa, cnt: &mut usize) -> Option<String> {
    let (mut ei, mut gi) = (0, 0);
    for k in x.kids() {
        match k.name() {
            "Entry" => {
                let e = g.entries.get(ei)?;
                ei += 1;
                if let Some(m) = walk_entry(k, e, s, cnt) {
                    return Some(m);
                }
            }
            "Group" => {
                let c = g.groups.get(gi)?;
                gi += 1;
                if let Some(m) = walk_group(k, c, s, cnt) {
                    return Some(m);
                }
            }
            _ => {}
        }
    }
    if ei != g.entries.len() || gi != g.groups.len() {
        return Some("the document lacks entries or groups".into());
    }
    None
}
fn keyname(k: &StringKey) -> String {
    match k {
        StringKey::Notes => "Notes".into(),
        StringKey::Password => "Password".into(),
        StringKey::Title => "Title".into(),
        StringKey::Url => "URL".into(),
        StringKey::Username => "UserName".into(),
        StringKey::Other(o) => o.clone(),
    }
}
fn walk_entry(x: &X, e: &Entry, s: &mut Salsa, cnt: &mut usize) -> Option<String> {
    let mut hi = 0;
    let (mut ns, mut nb) = (0, 0);
    for k in x.kids() {
        match k.name() {
            "String" | "Binary" => {
                let key = k.find("Key").map(|x| x.text()).unwrap_or_default();
                let v = match k.find("Value") {
                    Some(v) => v,
                    None => return Some(format!("{} {:?} has no value", k.name(), key)),
                };
                let marked = v.attr("Protected").map(|a| a.to_lowercase() == "true").unwrap_or(false);
                let (prot, want): (bool, Vec<u8>) = if k.name() == "String" {
                    ns += 1;
                    match e.strings.iter().find(|(n, _)| keyname(n) == key) {
                        Some((_, StringValue::Plain(t))) => (false, t.clone().into_bytes()),
                        Some((_, StringValue::Protected(p))) => (true, p.unsecure().to_vec()),
                        None => return Some(format!("string {:?} was never in the entry", key)),
                    }
                } else {
                    nb += 1;
                    match e.binaries.get(&BinaryKey(key.clone())) {
                        Some(BinaryValue::Plain(t)) => (false, b64(t).into_bytes()),
                        Some(BinaryValue::Protected(p)) => (true, p.unsecure().to_vec()),
                        Some(BinaryValue::Ref(i)) => {
                            if v.attr("Ref") != Some(i.0.as_str()) {
                                return Some(format!("binary {:?}: reference {:?}", key, v.attr("Ref")));
                            }
                            continue;
                        }
                        None => return Some(format!("binary {:?} was never in the entry", key)),
                    }
                };
                if prot != marked {
                    return Some(format!("{} {:?}: protected in the database: {}, marked so in the document: {}", k.name(), key, prot, marked));
                }
                if prot {
                    *cnt += 1;
                    let c = match unb64(&v.text()) {
                        Some(c) => c,
                        None => return Some(format!("{} {:?}: protected value is not base64: {:?}", k.name(), key, v.text())),
                    };
                    let at = s.used;
                    if s.xor(&c) != want {
                        return Some(format!(
                            "{} {:?}: stored bytes are not the value under the shared keystream at position {}",
                            k.name(), key, at
                        ));
                    }
                } else if v.text().into_bytes() != want {
                    return Some(format!("{} {:?}: unprotected value stored as {:?}", k.name(), key, v.text()));
                }
            }
            "History" => {
                for h in k.all("Entry") {
                    let he = match e.history.get(hi) {
                        Some(h) => h,
                        None => return Some("more history entries than in the database".into()),
                    };
                    hi += 1;
                    if let Some(m) = walk_entry(h, he, s, cnt) {
                        return Some(format!("history entry: {}", m));
                    }
                }
            }
            _ => {}
        }
    }
    if ns != e.strings.len() || nb != e.binaries.len() {
        return Some("the document lacks strings or binaries".into());
    }
    None
}

// ---------------------------------------------------------------- C09
pub fn c09(r: &mut Rng, n: u64) -> Res {
    match n % 4 {
        0 | 1 => {
            let mut b = built(r, 0, false, false);
            b.spec.compression = (n / 4 % 2) as u32;
            b.db.compression = if b.spec.compression == 1 { Compression::GZip } else { Compression::None };
            let mut doc = b.doc(r.chance(2));
            let large = n % 8 == 1 && n / 8 % 8 < 4;
            if large {
                // a comment of random letters after the document
                let len = *r.pick(&[65_600usize, 70_000, 131_200, 300_000]);
                doc += "<!--";
                doc.extend(r.bytes(len).into_iter().map(|x| (b'a' + x % 26) as char));
                doc += "-->";
            }
            let packed = b.spec.pack(doc.as_bytes());
            let cuts: Vec<usize> = match r.below(4) {
                _ if large && n / 8 % 8 == 0 => (0..packed.len()).collect(),
                _ if large && n / 8 % 8 == 1 => (0..packed.len()).step_by(packed.len() / 300).collect(),
                _ if large && n / 8 % 8 == 2 => vec![],
                _ if large && n / 8 % 8 == 3 => (0..packed.len()).step_by(1 << *r.pick(&[10, 12, 15, 16])).collect(),
                0 => vec![],
                1 => (0..packed.len()).step_by(r.range(1, 64) as usize).collect(),
                2 => vec![packed.len() - 1, 1],
                _ => (0..r.range(1, 5)).map(|_| r.below(packed.len() as u64) as usize).collect(),
            };
            let f = b.spec.file(&b.ck, doc.as_bytes(), &cuts);
            let what = format!("compression {}, {} bytes in up to {} blocks", b.spec.compression, packed.len(), cuts.len() + 1);
            match expect(&b, &f) {
                Some(m) => Err(Fail { what: format!("{}: {}", what, m), files: vec![("input.kdbx".into(), f)] }),
                None => Case::ok(what),
            }
        }
        2 => {
            let mut d = database(r);
            d.compression = if n / 4 % 2 == 0 { Compression::None } else { Compression::GZip };
            if n / 4 % 16 == 3 {
                let len = *r.pick(&[70_000usize, 200_000, 1_100_000]);
                d.custom_icons.insert(CustomIconUuid(Uuid::from_bytes(r.arr16())), r.bytes(len));
            }
            if n / 4 % 16 == 6 {
                aligned(r, &mut d);
            }
            let f = match save(&d) {
                Ok(f) => f,
                Err(e) => return fail(format!("saving fails: {}", kind(&e))),
            };
            match parse_file(&f, &d.composite_key.unsecure()) {
                Err(m) => fail(format!("saved file ({:?}): {}", d.compression, m)),
                Ok(p) => {
                    let x = match parse_xml(&p.xml) {
                        Ok(x) => x,
                        Err(m) => return fail(format!("saved document ({:?}): {}", d.compression, m)),
                    };
                    if x.name() != "KeePassFile" {
                        return fail("saved document has another root".into());
                    }
                    Case::ok(format!("saved, {:?}, {} blocks, {} bytes", d.compression, p.blocks.len(), p.xml.len()))
                }
            }
        }
        _ => {
            // truncated or damaged compressed data in properly hashed blocks
            let mut b = built(r, 0, false, false);
            b.spec.compression = 1;
            let doc = b.doc(false);
            let good = gz(doc.as_bytes());
            let mut z = good.clone();
            let what;
            match r.below(4) {
                0 => {
                    let cut = match r.below(3) {
                        0 => r.range(1, 8),
                        1 => r.range(1, z.len() as u64 - 1),
                        _ => 9,
                    } as usize;
                    z.truncate(z.len() - cut.min(z.len() - 1));
                    what = format!("compressed data cut to {} of {} bytes", z.len(), good.len());
                }
                1 => {
                    let i = z.len() - 1 - r.below(8) as usize;
                    z[i] ^= 1 << r.below(8);
                    what = format!("checksum or length byte {} of {} changed", i, z.len());
                }
                2 => {
                    z = doc.clone().into_bytes();
                    what = "uncompressed data where gzip is announced".into();
                }
                _ => {
                    let i = 10 + r.below(z.len() as u64 - 18) as usize;
                    z[i] ^= 1 << r.below(8);
                    what = format!("compressed byte {} of {} changed", i, z.len());
                }
            }
            let cuts: Vec<usize> = (0..r.below(3)).map(|_| r.below(z.len() as u64) as usize).collect();
            let f = [b.spec.header(), b.spec.encrypt(&b.ck, &b.spec.payload(&z, &cuts))].concat();
            if ungz(&z).as_deref() == Some(doc.as_bytes()) {
                return Case::trivial();
            }
            match open(&f, &b.key) {
                Err(_) => Case::ok(what),
                Ok(_) => Err(Fail { what: format!("{}: opens", what), files: vec![("input.kdbx".into(), f)] }),
            }
        }
    }
}

// ---------------------------------------------------------------- C13
pub fn c13(r: &mut Rng, n: u64) -> Res {
    let mut b = built(r, 0, false, false);
    fn deepen(g: &mut Group, r: &mut Rng, d: u64) {
        if d > 0 {
            let mut s = group(r, 0);
            deepen(&mut s, r, d - 1);
            g.groups.push(s);
        }
    }
    deepen(&mut b.db.root_group, r, n % 5);
    let spec = b.spec.clone();
    let drop = if n % 3 == 2 { 6 } else { 0 };
    b.x = Build { r, drop, vary: false }.db(&mut b.db, None);
    match n % 3 {
        0 => {}
        _ => shuffle(&mut b.x, r),
    }
    if n % 3 == 1 {
        // identifiers last
        fn last(x: &mut X) {
            if let X::El { name, kids, .. } = x {
                for k in kids.iter_mut() {
                    last(k);
                }
                if name == "Group" || name == "Entry" {
                    kids.sort_by_key(|k| k.name() == "UUID");
                }
            }
        }
        last(&mut b.x);
    }
    let f = spec.file(&b.ck, b.doc(true).as_bytes(), &[]);
    match open(&f, &b.key) {
        Err(e) => fail(format!("the file does not open: {}", kind(&e))),
        Ok(d) => {
            let nil = GroupUuid(Uuid::nil());
            if d.root_group.parent != nil {
                return fail(format!("the root group's parent is {}", d.root_group.parent));
            }
            fn chk(g: &Group, path: &str) -> Option<String> {
                for (i, e) in g.entries.iter().enumerate() {
                    if e.parent != g.uuid {
                        return Some(format!("entry {} of {} ({}) has parent {}", i, path, g.uuid, e.parent));
                    }
                }
                for (i, s) in g.groups.iter().enumerate() {
                    if s.parent != g.uuid {
                        return Some(format!("group {} of {} ({}) has parent {}", i, path, g.uuid, s.parent));
                    }
                    if let Some(m) = chk(s, &format!("{}.{}", path, i)) {
                        return Some(m);
                    }
                }
                None
            }
            // the tree itself must be the one in the document
            fn shape(g: &Group) -> String {
                format!("({}:{}[{}])", g.uuid, g.entries.len(), g.groups.iter().map(shape).collect::<String>())
            }
            if shape(&d.root_group) != shape(&b.db.root_group) {
                return fail("the tree read is not the tree in the document".into());
            }
            match chk(&d.root_group, "root") {
                Some(m) => Err(Fail { what: m, files: vec![("input.kdbx".into(), f)] }),
                None => Case::ok(format!("tree {}", shape(&d.root_group).len())),
            }
        }
    }
}

// ---------------------------------------------------------------- C14
pub fn c14(r: &mut Rng, n: u64) -> Res {
    let showk = |x: &kpdb::Result<KeyFile>| match x {
        Ok(k) => format!("{:?} key {}", k.file_type, hexs(k.key.unsecure())),
        Err(e) => kind(e),
    };
    let is = |x: &kpdb::Result<KeyFile>, t: KeyFileType, k: &[u8]| matches!(x, Ok(f) if f.file_type == t && f.key.unsecure() == k);
    match n % 6 {
        0 => {
            let mut k = key_file(r);
            if r.chance(4) {
                k.key = SecStr::new(vec![r.byte(); 32]);
            }
            let mut f = vec![];
            if let Err(e) = k.save(&mut f) {
                return fail(format!("saving fails: {}", kind(&e)));
            }
            let raw = k.key.unsecure().to_vec();
            match k.file_type {
                KeyFileType::Binary if f != raw => return fail(format!("binary key file holds {}", hexs(&f))),
                KeyFileType::Hex if f != hexs(&raw).into_bytes() => {
                    return fail(format!("hexadecimal key file holds {:?} for key {}", String::from_utf8_lossy(&f), hexs(&raw)))
                }
                _ => {}
            }
            if k.file_type == KeyFileType::Xml {
                match parse_xml(&f) {
                    Ok(x)
                        if x.name() == "KeyFile"
                            && x.find("Meta").and_then(|m| m.find("Version")).map(|v| v.text()) == Some("1.00".into())
                            && x.find("Key").and_then(|m| m.find("Data")).map(|v| v.text()) == Some(b64(&raw)) => {}
                    o => return fail(format!("saved XML key file is {:?}", o)),
                }
            }
            let g = KeyFile::open(&mut Cursor::new(f));
            if !is(&g, k.file_type.clone(), &raw) {
                return fail(format!("{:?} key {} comes back as {}", k.file_type, hexs(&raw), showk(&g)));
            }
            Case::ok(format!("{:?} key file saved and opened", k.file_type))
        }
        1 => {
            // generated ones
            let k = match r.below(4) {
                0 => KeyFile::new(),
                1 => KeyFile::new_binary(),
                2 => KeyFile::new_hex(),
                _ => KeyFile::new_xml(),
            };
            let k = match k {
                Ok(k) => k,
                Err(e) => return fail(format!("generating a key file fails: {}", kind(&e))),
            };
            let mut f = vec![];
            if let Err(e) = k.save(&mut f) {
                return fail(format!("saving fails: {}", kind(&e)));
            }
            let g = KeyFile::open(&mut Cursor::new(f));
            if k.key.unsecure().len() != 32 || !is(&g, k.file_type.clone(), k.key.unsecure()) {
                return fail(format!("generated {:?} key file comes back as {}", k.file_type, showk(&g)));
            }
            Case::ok(format!("generated {:?} key file", k.file_type))
        }
        2 => {
            // hexadecimal, both letter cases
            let raw = r.bytes(32);
            let t: Vec<u8> = hexs(&raw).bytes().map(|c| if r.chance(2) { c.to_ascii_uppercase() } else { c }).collect();
            let g = KeyFile::open(&mut Cursor::new(t.clone()));
            if !is(&g, KeyFileType::Hex, &raw) {
                return fail(format!("{} opens as {}", String::from_utf8_lossy(&t), showk(&g)));
            }
            Case::ok("hexadecimal".into())
        }
        3 => {
            // 64 bytes that are not hexadecimal
            let mut t: Vec<u8> = hexs(&r.bytes(32)).into_bytes();
            let i = r.below(64) as usize;
            t[i] = *r.pick(b"gGxX -+\n\x00/:@`\xff");
            if r.chance(2) {
                // the text of an XML key file
                let n = 3 * r.range(1, 4) as usize;
                let k = r.bytes(n);
                let mut x = format!("<KeyFile><Key><Data>{}</Data></Key></KeyFile>", b64(&k));
                while x.len() < 64 {
                    x.push(*r.pick(&[' ', '\n']));
                }
                if r.chance(3) {
                    let y = x.trim_end().to_string();
                    x = " ".repeat(64 - y.len()) + &y;
                }
                t = x.into_bytes();
            }
            let g = KeyFile::open(&mut Cursor::new(t.clone()));
            if g.is_ok() {
                return fail(format!("{:?} opens as {}", String::from_utf8_lossy(&t), showk(&g)));
            }
            Case::ok("not hexadecimal".into())
        }
        4 => {
            // 32 bytes are always binary
            let raw = if r.chance(2) { r.bytes(32) } else { hexs(&r.bytes(16)).into_bytes() };
            let g = KeyFile::open(&mut Cursor::new(raw.clone()));
            if !is(&g, KeyFileType::Binary, &raw) {
                return fail(format!("32 bytes {} open as {}", hexs(&raw), showk(&g)));
            }
            Case::ok("32 bytes".into())
        }
        _ => {
            // XML and everything else
            let k = n / 6;
            let raw = if r.chance(3) { { let n = r.below(80) as usize; r.bytes(n) } } else { r.bytes(32) };
            let ver = match k % 4 {
                0 => *r.pick(&["2.0", "1.0", "1.000", "", "1.00 ", "01.00", "1,00"]),
                _ => "1.00",
            };
            let meta = el("Meta", vec![tx("Version", ver)]);
            let keyx = el("Key", vec![tx("Data", &b64(&raw))]);
            let kids = if r.chance(2) { vec![meta, keyx] } else { vec![keyx, meta] };
            let mut x = el("KeyFile", kids);
            let mut ok = ver == "1.00";
            let mut exp = raw.clone();
            match k % 7 {
                1 => {
                    x.kids_mut().retain(|e| e.name() != "Key");
                    ok = false;
                }
                2 => {
                    for e in x.kids_mut() {
                        if e.name() == "Key" {
                            *e = el("Key", vec![]);
                        }
                    }
                    ok = false;
                }
                3 => {
                    for e in x.kids_mut() {
                        if e.name() == "Key" {
                            *e = el("Key", vec![tx("Data", "%%%%")]);
                        }
                    }
                    ok = false;
                }
                4 => x = el("Other", vec![x.find("Key").unwrap().clone()]),
                5 => unknowns(&mut x, r, 3),
                _ => {}
            }
            if k % 7 == 4 {
                ok = false;
            }
            if ok {
                exp = x.find("Key").and_then(|k| k.find("Data")).and_then(|d| unb64(&d.text())).unwrap_or(exp);
            }
            let mut s = String::new();
            if r.chance(2) {
                s.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
            }
            render(&x, &mut Salsa::new(&[0; 32]), if r.chance(2) { Some(0) } else { None }, &mut s);
            if s.len() == 32 || s.len() == 64 {
                s.push('\n');
            }
            let g = KeyFile::open(&mut Cursor::new(s.clone().into_bytes()));
            if ok && !is(&g, KeyFileType::Xml, &exp) {
                return fail(format!("{:?} opens as {}", s, showk(&g)));
            }
            if !ok && g.is_ok() {
                return fail(format!("{:?} opens as {}", s, showk(&g)));
            }
            // other sizes that are not XML
            let len = *r.pick(&[0usize, 1, 31, 33, 63, 65, 128, 66, 34]);
            let t: Vec<u8> = hexs(&r.bytes(64)).into_bytes()[..len].to_vec();
            let g = KeyFile::open(&mut Cursor::new(t));
            if g.is_ok() {
                return fail(format!("{} bytes of hexadecimal text open as {}", len, showk(&g)));
            }
            Case::ok(format!("XML version {:?} variant {}", ver, k % 7))
        }
    }
}

// ---------------------------------------------------------------- C17
pub fn c17(r: &mut Rng, n: u64) -> Res {
    if n % 4 == 3 {
        let mut keys = vec![];
        for i in 0..24 {
            let k = match i % 4 {
                0 => KeyFile::new_binary(),
                1 => KeyFile::new_hex(),
                2 => KeyFile::new_xml(),
                _ => KeyFile::new(),
            };
            match k {
                Ok(k) => keys.push(k.key.unsecure().to_vec()),
                Err(e) => return fail(format!("generating a key file fails: {}", kind(&e))),
            }
        }
        return match weak(&keys, 32) {
            Some(m) => fail(format!("keys of new key files: {}", m)),
            None => Case::ok("24 generated keys".into()),
        };
    }
    let mut d = database(r);
    d.transform_rounds = TransformRounds(1);
    let ids: [(u8, usize, &str); 5] = [
        (4, 32, "master seed"),
        (5, 32, "transform seed"),
        (7, 16, "initialisation vector"),
        (8, 32, "protected stream key"),
        (9, 32, "stream start bytes"),
    ];
    let mut got: Vec<Vec<Vec<u8>>> = vec![vec![]; 5];
    crate::rand_reset();
    let saves = 24;
    for _ in 0..saves {
        let f = match save(&d) {
            Ok(f) => f,
            Err(e) => return fail(format!("saving fails: {}", kind(&e))),
        };
        let p = match parse_file(&f, &d.composite_key.unsecure()) {
            Ok(p) => p,
            Err(m) => return fail(format!("saved file: {}", m)),
        };
        for (i, (id, len, name)) in ids.iter().enumerate() {
            match p.field(*id) {
                Some(v) if v.len() == *len => got[i].push(v.to_vec()),
                v => return fail(format!("{} is {:?}", name, v)),
            }
        }
        if r.chance(2) {
            d.name = text(r);
        }
    }
    for (i, (_, len, name)) in ids.iter().enumerate() {
        if let Some(m) = weak(&got[i], *len) {
            return fail(format!("{} of {} saves: {}", name, saves, m));
        }
    }
    // no eight bytes in a row shared between any two secrets
    let mut seen: std::collections::HashMap<Vec<u8>, (usize, usize)> = Default::default();
    for s in 0..saves {
        for (i, (_, _, name)) in ids.iter().enumerate() {
            for w in got[i][s].windows(8) {
                if let Some((a, b)) = seen.insert(w.to_vec(), (s, i)) {
                    return fail(format!("{} of save {} repeats bytes of {} of save {}", name, s, ids[b].2, a));
                }
            }
        }
    }
    // every secret consists of bytes delivered by the operating system, each used once
    if let Some(pool) = crate::rand_log() {
        let mut used: Vec<(usize, usize)> = vec![];
        for s in 0..saves {
            for (i, (_, len, name)) in ids.iter().enumerate() {
                match pool.windows(*len).position(|w| w == &got[i][s][..]) {
                    None => return fail(format!("{} of save {} was not delivered by the operating system's random source", name, s)),
                    Some(p) => {
                        if used.iter().any(|(a, b)| p < a + b && *a < p + len) {
                            return fail(format!("{} of save {} shares random bytes with another secret", name, s));
                        }
                        used.push((p, *len));
                    }
                }
            }
        }
    }
    Case::ok(format!("{} saves", saves))
}
fn weak(v: &[Vec<u8>], len: usize) -> Option<String> {
    for i in 0..v.len() {
        if v[i].len() != len {
            return Some(format!("{} bytes instead of {}", v[i].len(), len));
        }
        for j in 0..i {
            if v[i] == v[j] {
                return Some(format!("number {} equals number {}", i, j));
            }
        }
    }
    for p in 0..len {
        let mut s: Vec<u8> = v.iter().map(|x| x[p]).collect();
        s.sort();
        s.dedup();
        // 24 uniform bytes have fewer than 6 distinct values with probability below 2^-80
        if v.len() >= 24 && s.len() < 6 {
            return Some(format!("byte {} takes only {} values in {} draws", p, s.len(), v.len()));
        }
    }
    None
}

// ---------------------------------------------------------------- C18
pub fn c18(r: &mut Rng, n: u64) -> Res {
    if n % 5 == 4 {
        return c18_bad(r, n / 5);
    }
    let drop = match n % 5 {
        0 => 0,
        1 => 3,
        2 => 8,
        _ => 25,
    };
    let mut b = built(r, drop, true, n % 3 == 0);
    if n % 5 != 1 {
        shuffle(&mut b.x, r);
    }
    if n % 2 == 0 {
        let k = *r.pick(&[1u64, 3, 10]);
        unknowns(&mut b.x, r, k);
    }
    let doc = b.doc(r.chance(2));
    let f = b.spec.file(&b.ck, doc.as_bytes(), &[]);
    match expect(&b, &f) {
        Some(m) => Err(Fail { what: m, files: vec![("input.kdbx".into(), f), ("document.xml".into(), doc.into_bytes())] }),
        None => Case::ok(format!("document of {} bytes, left out 1 in {}", doc.len(), drop)),
    }
}
/// (element, texts that are no value of its type)
const NOTS: &[(&str, &[&str])] = &[
    ("DatabaseNameChanged", &["yesterday", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01", "1"]),
    ("CreationTime", &["x", "2020-01-01T25:00:00Z"]),
    ("LastModificationTime", &["x", "2020-01-01T00:61:00Z"]),
    ("ExpiryTime", &["never"]),
    ("RecycleBinEnabled", &["yes", "1", "tru", "truee"]),
    ("IsExpanded", &["no", "0"]),
    ("Expires", &["maybe"]),
    ("Enabled", &["on"]),
    ("ProtectNotes", &["2"]),
    ("EnableAutoType", &["inherit", "nulll"]),
    ("EnableSearching", &["1"]),
    ("HistoryMaxItems", &["ten", "1.5", "2147483648", "0x10", "1 "]),
    ("MaintenanceHistoryDays", &["--1", "-2147483649"]),
    ("UsageCount", &["1e3", "12a"]),
    ("IconID", &["69", "-1", "x", "1000"]),
    ("DataTransferObfuscation", &["2", "-1", "x"]),
    ("BackgroundColor", &["red", "#12345", "#1234567", "123456#", "#12345g", "#+f0000", "#-10000"]),
    ("ForegroundColor", &["#gg0000", "0000000", "#00+f00", "# f0000"]),
    ("Color", &["#00000+f", "#0000+f", "#1é2345"]),
    ("RecycleBinUUID", &["AAAA", "%%%%", "AAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAA"]),
    ("LastTopVisibleEntry", &["00000000-0000-0000-0000-000000000000"]),
    ("CustomIconUUID", &["AAAA", "!"]),
    ("Data", &["%%%%", "AAA"]),
];
/// A text one edit away from a value, which is no value itself.
fn near(r: &mut Rng) -> (&'static str, String) {
    type Is = fn(&str) -> bool;
    let truth: Is = |t| ["true", "false", "null"].contains(&t.to_lowercase().as_str());
    let number: Is = |t| t.parse::<i32>().is_ok();
    let icon: Is = |t| t.parse::<i32>().map(|v| v >= 0 && v <= 68).unwrap_or(false);
    let mode: Is = |t| t.parse::<i32>().map(|v| v == 0 || v == 1).unwrap_or(false);
    let color: Is = |t| t.len() == 7 && t.starts_with('#') && t[1..].bytes().all(|b| b.is_ascii_hexdigit());
    let kinds: &[(&[&'static str], &[&str], Is)] = &[
        (&["RecycleBinEnabled", "IsExpanded", "Expires", "Enabled", "ProtectNotes", "ProtectTitle"], &["true", "True", "false", "False"], truth),
        (&["EnableAutoType", "EnableSearching"], &["null", "true", "False"], truth),
        (&["HistoryMaxItems", "HistoryMaxSize", "MaintenanceHistoryDays", "MasterKeyChangeRec", "UsageCount"], &["10", "0", "-1", "2147483647", "-2147483648", "+7"], number),
        (&["IconID"], &["0", "7", "68", "42"], icon),
        (&["DataTransferObfuscation"], &["0", "1"], mode),
        (&["Color", "BackgroundColor", "ForegroundColor"], &["#000000", "#ffffff", "#12abCD"], color),
    ];
    let odd = ["x", "0", "1", "-", "+", "#", ".", " ", "e", "é", "\t", "\u{a0}", "٣", "f", "_", "=", "\n", "0x", "\u{130}", "\u{feff}"];
    loop {
        let (names, values, is) = r.pick(kinds);
        let mut t: Vec<char> = r.pick(values).chars().collect();
        let i = r.below(t.len() as u64 + 1) as usize;
        match r.below(4) {
            0 => drop(t.splice(i..i, r.pick(&odd).chars())),
            1 => drop(t.extend(r.pick(&odd).chars())),
            2 if i < t.len() => drop(t.splice(i..i + 1, r.pick(&odd).chars())),
            _ if i < t.len() => drop(t.remove(i)),
            _ => continue,
        }
        let t: String = t.into_iter().collect();
        if !t.trim().is_empty() && !is(&t) {
            return (*r.pick(names), t);
        }
    }
}
fn c18_bad(r: &mut Rng, n: u64) -> Res {
    let (name, t) = match n % 2 {
        0 => {
            let (name, texts) = NOTS[(n / 2 % NOTS.len() as u64) as usize];
            (name, texts[(n / 2 / NOTS.len() as u64 % texts.len() as u64) as usize].to_string())
        }
        _ => near(r),
    };
    let t = t.as_str();
    let mut b = built(r, 0, false, false);
    if b.db.root_group.entries.is_empty() || b.db.custom_icons.is_empty() {
        let mut d = b.db.clone();
        d.root_group.entries.push(entry(r, 1));
        d.custom_icons.insert(CustomIconUuid(Uuid::from_bytes(r.arr16())), vec![1]);
        b.x = Build { r, drop: 0, vary: false }.db(&mut d, None);
    }
    fn sub<'a>(x: &'a mut X, name: &str, v: &mut Vec<&'a mut X>) {
        if x.name() == name && !x.kids().iter().any(|k| matches!(k, X::El { .. })) {
            v.push(x);
            return;
        }
        if let X::El { kids, .. } = x {
            for k in kids {
                sub(k, name, v);
            }
        }
    }
    let mut v = vec![];
    sub(&mut b.x, name, &mut v);
    if v.is_empty() {
        return Case::trivial();
    }
    let i = r.below(v.len() as u64) as usize;
    *v[i].kids_mut() = vec![X::Text(t.into())];
    let doc = b.doc(false);
    let f = b.spec.file(&b.ck, doc.as_bytes(), &[]);
    match open(&f, &b.key) {
        Err(_) => Case::ok(format!("{} = {:?}", name, t)),
        Ok(_) => Err(Fail { what: format!("{} = {:?} is accepted", name, t), files: vec![("document.xml".into(), doc.into_bytes())] }),
    }
}

/// Opens a document that nests groups `n` levels deep (own process: it may
/// overflow the stack).
pub fn deep(n: &str) {
    let n: usize = n.parse().unwrap_or(10);
    let mut r = Rng::new(1, 1);
    let key = CompositeKey::from_password("a");
    let s = Spec::random(&mut r);
    let doc = format!("<KeePassFile><Root>{}{}</Root></KeePassFile>", "<Group>".repeat(n), "</Group>".repeat(n));
    let f = s.file(&key.unsecure(), doc.as_bytes(), &[]);
    match open(&f, &key) {
        Ok(_) => println!("opened"),
        Err(e) => println!("refused: {}", kind(&e)),
    }
}
