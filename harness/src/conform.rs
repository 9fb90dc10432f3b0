//! Samples what the contracts assume about external crates (contracts/prelude.rs).
//! A case fails if an assumption does not hold; it never depends on /repo.
use crate::rng::Rng;
use crate::{fail, Case, Res};
use std::io::{Cursor, ErrorKind, Read, Write};
use xml::reader::{EventReader, ParserConfig, XmlEvent as R};
use xml::writer::{EmitterConfig, EventWriter, XmlEvent as W};

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Start(String, Vec<(String, String)>),
    End(String),
    Text(String),
    Other,
    EndDoc,
}
#[derive(Clone, Debug)]
enum Tree {
    Leaf(String, Vec<(String, String)>, String),
    Node(String, Vec<(String, String)>, Vec<Tree>),
}
fn name(r: &mut Rng) -> String {
    (0..r.range(1, 12)).map(|_| *r.pick(&['A', 'b', 'Z', 'q', 'I', 'D', 'e'])).collect()
}
/// Text of characters XML allows.
fn text(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(1, 3),
        3 => r.range(1, 2000),
        _ => r.range(1, 20),
    };
    let kind = r.below(5);
    (0..n)
        .map(|_| match kind {
            0 => *r.pick(&[' ', '\t', '\n', '\r']),
            1 => *r.pick(&['<', '>', '&', '"', '\'', ']', '[', '!', '-', '?', '=', '/', ';', '#', 'x', 'A', '\r', '\n', '\t', ' ']),
            2 => *r.pick(&['\u{fffd}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{fdd0}', '\u{10ffff}', '\u{7f}', '\u{9f}', '\u{d7ff}', '\u{e000}', 'a', ' ']),
            3 => char::from(r.range(0x20, 0x7e) as u8),
            _ => loop {
                if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                    if allowed(c) {
                        break c;
                    }
                }
            },
        })
        .collect()
}
fn allowed(c: char) -> bool {
    c == '\t' || c == '\n' || c == '\r' || ('\u{20}'..='\u{fffd}').contains(&c) || c >= '\u{10000}'
}
fn blank(s: &str) -> bool {
    s.chars().all(|c| [' ', '\t', '\n', '\r'].contains(&c))
}
fn attrs(r: &mut Rng) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    if r.chance(3) {
        for _ in 0..r.range(1, 3) {
            let n = name(r);
            if !v.iter().any(|x| x.0 == n) {
                v.push((n, text(r)));
            }
        }
    }
    v
}
fn tree(r: &mut Rng, depth: u64, solid: bool) -> Tree {
    let n = name(r);
    let a = attrs(r);
    if depth == 0 || r.chance(2) {
        let mut s = text(r);
        if solid && blank(&s) && !s.is_empty() {
            s.push('x');
        }
        Tree::Leaf(n, a, s)
    } else {
        let k = r.below(5);
        Tree::Node(n, a, (0..k).map(|_| tree(r, depth - 1, solid)).collect())
    }
}
fn put<X: Write>(w: &mut EventWriter<X>, t: &Tree) -> xml::writer::Result<()> {
    let (n, a) = match t {
        Tree::Leaf(n, a, _) => (n, a),
        Tree::Node(n, a, _) => (n, a),
    };
    let mut b = W::start_element(n.as_str());
    for (k, v) in a {
        b = b.attr(k.as_str(), v.as_str());
    }
    w.write(b)?;
    match t {
        Tree::Leaf(_, _, s) => w.write(s.as_str())?,
        Tree::Node(_, _, k) => {
            for x in k {
                put(w, x)?;
            }
        }
    }
    w.write(W::end_element())
}
fn read(d: &[u8], ws: bool, cd: bool) -> (Vec<Ev>, Option<String>) {
    let mut p = EventReader::new_with_config(Cursor::new(d), ParserConfig::new().whitespace_to_characters(ws).cdata_to_characters(cd));
    if !ws && !cd {
        p = EventReader::new(Cursor::new(d));
    }
    let mut out = vec![];
    let mut open: Vec<String> = vec![];
    loop {
        match p.next() {
            Ok(e) => {
                let e = match e {
                    R::StartElement { name, attributes, .. } => {
                        open.push(name.local_name.clone());
                        Ev::Start(name.local_name, attributes.into_iter().map(|a| (a.name.local_name, a.value)).collect())
                    }
                    R::EndElement { name } => {
                        if open.pop().as_ref() != Some(&name.local_name) {
                            return (out, Some("an element ends that was not the last started".into()));
                        }
                        Ev::End(name.local_name)
                    }
                    R::Characters(s) => Ev::Text(s),
                    R::EndDocument => {
                        if !open.is_empty() {
                            return (out, Some("the document ends within an element".into()));
                        }
                        for _ in 0..3 {
                            if !matches!(p.next(), Ok(R::EndDocument)) {
                                return (out, Some("the end does not repeat".into()));
                            }
                        }
                        out.push(Ev::EndDoc);
                        return (out, None);
                    }
                    _ => Ev::Other,
                };
                out.push(e);
            }
            Err(_) => {
                for _ in 0..3 {
                    if p.next().is_ok() {
                        return (out, Some("an error does not repeat".into()));
                    }
                }
                return (out, None);
            }
        }
    }
}
fn gap(e: &[Ev], i: &mut usize) {
    while *i < e.len() && (e[*i] == Ev::Other || matches!(&e[*i], Ev::Text(s) if blank(s))) {
        *i += 1;
    }
}
/// shown() of the prelude: the events of one element, white space between elements apart.
fn shown(e: &[Ev], i: &mut usize, t: &Tree) -> bool {
    let (n, a) = match t {
        Tree::Leaf(n, a, _) => (n, a),
        Tree::Node(n, a, _) => (n, a),
    };
    if e.get(*i) != Some(&Ev::Start(n.clone(), a.clone())) {
        return false;
    }
    *i += 1;
    match t {
        Tree::Leaf(_, _, s) => {
            if !s.is_empty() {
                if e.get(*i) != Some(&Ev::Text(s.clone())) {
                    return false;
                }
                *i += 1;
            }
        }
        Tree::Node(_, _, k) => {
            for x in k {
                gap(e, i);
                if !shown(e, i, x) {
                    return false;
                }
            }
            if !k.is_empty() {
                gap(e, i);
            }
        }
    }
    *i += 1;
    e.get(*i - 1) == Some(&Ev::End(n.clone()))
}
fn size(t: &Tree) -> usize {
    match t {
        Tree::Leaf(n, _, s) => 2 * n.len() + s.len(),
        Tree::Node(n, _, k) => n.len() + k.iter().map(size).sum::<usize>(),
    }
}
struct Pieces<'a>(&'a [u8], Rng, Option<ErrorKind>);
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1.chance(4) {
            return Err(ErrorKind::Interrupted.into());
        }
        if self.0.is_empty() {
            if let Some(k) = self.2 {
                return Err(k.into());
            }
        }
        let n = self.0.len().min(b.len()).min(self.1.range(1, 9) as usize);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
struct Sink(Vec<u8>, Rng, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.1.chance(4) {
            return Err(ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.1.range(1, 9) as usize).min(self.2 - self.0.len());
        if n == 0 && !b.is_empty() {
            return Err(ErrorKind::BrokenPipe.into());
        }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub fn case(r: &mut Rng, n: u64) -> Res {
    match n % 8 {
        0 | 1 | 2 => {
            let (ws, cd) = if n % 8 == 2 { (false, false) } else { (true, true) };
            let t = tree(r, r.clone().below(5), !ws);
            let by = if r.chance(8) { "  " } else { "\t" };
            let mut d = vec![];
            {
                let mut w = EventWriter::new_with_config(&mut d, EmitterConfig::new().perform_indent(true).indent_string(by));
                if let Err(e) = put(&mut w, &t) {
                    return fail(format!("xml-rs refuses to write {:?}: {}", t, e));
                }
            }
            crate::note_file("written.xml", &d);
            if d.len() < size(&t) {
                return fail("shorter than its names and texts".into());
            }
            let (e, bad) = read(&d, ws, cd);
            if let Some(b) = bad {
                return fail(b);
            }
            let mut i = 0;
            gap(&e, &mut i);
            let ok = shown(&e, &mut i, &t);
            gap(&e, &mut i);
            if !ok || e[i..] != [Ev::EndDoc] {
                return fail(format!("{:?} is read as {:?}", t, e));
            }
            // written in pieces to a reluctant sink: the same bytes or an error
            let mut s = Sink(vec![], r.clone(), if r.chance(2) { d.len() } else { r.below(d.len() as u64 + 1) as usize });
            let cap = s.2;
            let res = {
                let mut w = EventWriter::new_with_config(&mut s, EmitterConfig::new().perform_indent(true).indent_string(by));
                put(&mut w, &t)
            };
            if res.is_ok() != (cap == d.len()) || s.0[..] != d[..s.0.len()] {
                return fail("a reluctant sink gets other bytes, or no error".into());
            }
            Case::ok(format!("a written tree of {} events, ws {}", e.len().min(50), ws))
        }
        3 => {
            // any document, mutated
            let t = tree(r, 3, false);
            let mut d = vec![];
            let mut w = EventWriter::new_with_config(&mut d, EmitterConfig::new().perform_indent(r.chance(2)));
            let _ = put(&mut w, &t);
            for _ in 0..r.below(4) {
                if d.is_empty() {
                    break;
                }
                let i = r.below(d.len() as u64) as usize;
                match r.below(5) {
                    0 => d[i] = r.byte(),
                    1 => d.truncate(i),
                    2 => {
                        let x = *r.pick(&["<a>", "</a>", "<!-- c -->", "<![CDATA[ x ]]>", "&amp;", "&#65;", "&bad;", "<?pi x?>", " ", "<b/>", "<!DOCTYPE a [<!ENTITY b 'c'>]>", "]]>"]);
                        d.splice(i..i, x.bytes());
                    }
                    3 => {
                        d.remove(i);
                    }
                    _ => {
                        let j = r.below(d.len() as u64) as usize;
                        d.swap(i, j);
                    }
                }
            }
            crate::note_file("mutated.xml", &d);
            for (ws, cd) in [(true, true), (false, false)] {
                let (e, bad) = read(&d, ws, cd);
                if let Some(b) = bad {
                    return fail(b);
                }
                let (f, _) = read(&d, ws, cd);
                if e != f {
                    return fail("the same document is read differently".into());
                }
            }
            Case::ok("a mutated document".into())
        }
        4 => {
            use crypto::{aes, blockmodes, buffer::{ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer}};
            use crypto::symmetriccipher::BlockEncryptor;
            let (key, iv) = (r.arr32(), r.arr16());
            let n = *r.pick(&[0u64, 1, 15, 16, 17, 31, 32, 33, 4095, 4096, 4097, 9000]);
            let plain = r.bytes(n as usize);
            let run = |enc: bool, pad: bool, d: &[u8]| -> Option<Vec<u8>> {
                let mut out = vec![];
                let mut rb = RefReadBuffer::new(d);
                let mut buf = [0u8; 4096];
                let mut wb = RefWriteBuffer::new(&mut buf);
                let mut e = aes::cbc_encryptor(aes::KeySize::KeySize256, &key, &iv, blockmodes::PkcsPadding);
                let mut dp = aes::cbc_decryptor(aes::KeySize::KeySize256, &key, &iv, blockmodes::PkcsPadding);
                let mut dn = aes::cbc_decryptor(aes::KeySize::KeySize256, &key, &iv, blockmodes::NoPadding);
                loop {
                    let res = if enc { e.encrypt(&mut rb, &mut wb, true) } else if pad { dp.decrypt(&mut rb, &mut wb, true) } else { dn.decrypt(&mut rb, &mut wb, true) };
                    use crypto::buffer::BufferResult::*;
                    let b = res.ok()?;
                    out.extend(wb.take_read_buffer().take_remaining().iter().copied());
                    match b {
                        BufferUnderflow => break,
                        BufferOverflow => {}
                    }
                }
                let _ = rb.is_empty();
                Some(out)
            };
            let c = match run(true, true, &plain) {
                Some(c) => c,
                None => return fail("rust-crypto refuses to encrypt".into()),
            };
            let mut padded = plain.clone();
            if !plain.is_empty() {
                let p = 16 - plain.len() % 16;
                padded.extend(vec![p as u8; p]);
            }
            // CBC over single blocks
            let one = |b: &[u8]| {
                let mut o = [0u8; 16];
                crypto::aessafe::AesSafe256Encryptor::new(&key).encrypt_block(b, &mut o);
                o
            };
            let mut chain = iv;
            let mut mine = vec![];
            for b in padded.chunks(16) {
                let x: Vec<u8> = b.iter().zip(chain).map(|(a, b)| a ^ b).collect();
                chain = one(&x);
                mine.extend(chain);
            }
            if c != mine {
                return fail(format!("CBC of {} bytes is not what single blocks give", n));
            }
            if run(false, false, &c) != Some(padded) {
                return fail(format!("decrypting {} bytes without padding does not give the padded text", n));
            }
            let cut = r.below(c.len() as u64 + 1) as usize;
            let d = run(false, false, &c[..cut]);
            if d.is_some() != (cut % 16 == 0) || d.map_or(false, |d| d.len() != cut) {
                return fail(format!("{} bytes of cipher text", cut));
            }
            let aesni = {
                let mut o = [0u8; 16];
                let b = r.arr16();
                if crypto::util::supports_aesni() {
                    crypto::aesni::AesNiEncryptor::new(aes::KeySize::KeySize256, &key).encrypt_block(&b, &mut o);
                    o == one(&b)
                } else {
                    true
                }
            };
            if !aesni {
                return fail("AES-NI and the portable AES differ".into());
            }
            Case::ok(format!("AES of {} bytes", n))
        }
        5 => {
            use base64::Engine;
            use base64::engine::general_purpose::STANDARD;
            let d = { let n = r.below(200); r.bytes(n as usize) };
            let t = STANDARD.encode(&d);
            if STANDARD.decode(&t).ok() != Some(d.clone()) || t.len() != (d.len() + 2) / 3 * 4 || !t.chars().all(|c| c.is_ascii_alphanumeric() || "+/=".contains(c)) {
                return fail("base64".into());
            }
            let h = hex::encode(&d);
            let back: Result<Vec<u8>, _> = hex::FromHex::from_hex(&h);
            if back.ok() != Some(d.clone()) || h != d.iter().map(|b| format!("{:02x}", b)).collect::<String>() {
                return fail("hex".into());
            }
            let s: Vec<u8> = (0..r.below(12)).map(|_| *r.pick(b"09afAFgG /:@`")).collect();
            let digit = |c: u8| (c as char).to_digit(16);
            let want = s.len() % 2 == 0 && s.iter().all(|c| digit(*c).is_some());
            let got: Result<Vec<u8>, _> = hex::FromHex::from_hex(&s);
            if got.is_ok() != want || got.map_or(false, |v| v.iter().enumerate().any(|(i, b)| *b as u32 != digit(s[2 * i]).unwrap() * 16 + digit(s[2 * i + 1]).unwrap())) {
                return fail(format!("hex text {:?}", s));
            }
            // gzip
            let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
            let _ = e.write_all(&d);
            let z = e.finish().unwrap();
            let mut o = vec![];
            if flate2::read::GzDecoder::new(&z[..]).read_to_end(&mut o).is_err() || o != d {
                return fail("gzip".into());
            }
            let cut = r.below(z.len() as u64) as usize;
            if flate2::read::GzDecoder::new(&z[..cut]).read_to_end(&mut vec![]).is_ok() {
                return fail(format!("gzip data cut at {} of {} is accepted", cut, z.len()));
            }
            Case::ok("base64, hex, gzip".into())
        }
        6 => {
            use crypto::digest::Digest;
            use crypto::symmetriccipher::SynchronousStreamCipher;
            let d = { let n = r.below(300); r.bytes(n as usize) };
            let i = r.below(d.len() as u64 + 1) as usize;
            let (mut a, mut b) = (crypto::sha2::Sha256::new(), crypto::sha2::Sha256::new());
            a.input(&d);
            b.input(&d[..i]);
            b.input(&d[i..]);
            let (mut x, mut y) = ([0u8; 32], [0u8; 32]);
            a.result(&mut x);
            b.result(&mut y);
            if x != y {
                return fail("SHA-256 in pieces".into());
            }
            let (key, nonce) = (r.arr32(), [0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a]);
            let (mut s, mut t, mut u) = (crypto::salsa20::Salsa20::new(&key, &nonce), crypto::salsa20::Salsa20::new(&key, &nonce), crypto::salsa20::Salsa20::new(&key, &nonce));
            let mut ks = vec![0; d.len()];
            s.process(&vec![0; d.len()], &mut ks);
            let (mut o1, mut o2) = (vec![0; i], vec![0; d.len() - i]);
            t.process(&d[..i], &mut o1);
            t.process(&d[i..], &mut o2);
            o1.extend(o2);
            let mut whole = vec![0; d.len()];
            u.process(&d, &mut whole);
            if o1 != whole || whole.iter().zip(&d).zip(&ks).any(|((a, b), c)| *a != b ^ c) {
                return fail("Salsa20 in pieces".into());
            }
            // times
            let t = crate::gen::time(r);
            if format!("{:?}", t).parse::<chrono::DateTime<chrono::Utc>>().ok() != Some(t) {
                return fail(format!("the time {:?}", t));
            }
            if blank(&format!("{:?}", t)) {
                return fail("a blank time".into());
            }
            let k = r.u64() as i32 >> r.below(32);
            if k.to_string().parse::<i32>() != Ok(k) || blank(&k.to_string()) {
                return fail("a number".into());
            }
            let c = text(r);
            if c.is_ascii() && c.to_lowercase() != c.chars().map(|x| x.to_ascii_lowercase()).collect::<String>() {
                return fail("lower case".into());
            }
            let id = r.arr16();
            if uuid::Uuid::from_slice(&id).map(|u| *u.as_bytes()).ok() != Some(id) || uuid::Uuid::from_slice(&id[..r.clone().below(16) as usize]).is_ok() {
                return fail("an identifier".into());
            }
            Case::ok("SHA-256, Salsa20, times, numbers".into())
        }
        _ => {
            use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
            let d = { let n = r.below(60); r.bytes(n as usize) };
            let k = if r.chance(2) { Some(ErrorKind::TimedOut) } else { None };
            let mut v = vec![];
            let res = Pieces(&d, r.clone(), k).read_to_end(&mut v);
            if res.is_ok() != k.is_none() || v != d || res.err().map_or(false, |e| Some(e.kind()) != k) {
                return fail("read_to_end".into());
            }
            let n = r.below(70) as usize;
            let mut b = vec![0; n];
            match Pieces(&d, r.clone(), k).read_exact(&mut b) {
                Ok(()) if n <= d.len() && b == d[..n] => {}
                Err(e) if n > d.len() && e.kind() == k.unwrap_or(ErrorKind::UnexpectedEof) => {}
                _ => return fail("read_exact".into()),
            }
            match Pieces(&d, r.clone(), k).read_u32::<LittleEndian>() {
                Ok(x) if d.len() >= 4 && x == d[0] as u32 | (d[1] as u32) << 8 | (d[2] as u32) << 16 | (d[3] as u32) << 24 => {}
                Err(e) if d.len() < 4 && e.kind() == k.unwrap_or(ErrorKind::UnexpectedEof) => {}
                _ => return fail("read_u32".into()),
            }
            let cap = r.below(70) as usize;
            let mut s = Sink(vec![], r.clone(), cap);
            let res = s.write_all(&d);
            if res.is_ok() != (d.len() <= cap) || s.0[..] != d[..s.0.len()] || (res.is_ok() && s.0 != d) {
                return fail("write_all".into());
            }
            let mut o = vec![];
            let x = r.u64();
            let _ = o.write_u64::<LittleEndian>(x);
            if o != (0..8).map(|i| (x >> (8 * i)) as u8).collect::<Vec<u8>>() {
                return fail("write_u64".into());
            }
            Case::ok("sources and sinks".into())
        }
    }
}
