//! Independent oracle: SHA-256, AES-256-CBC, Salsa20, base64, a small XML tree
//! with renderer and parser, and a KDBX 3.1 file builder and dissector.
//! Nothing in this file uses the library under test.

use crate::rng::Rng;
use std::io::{Read, Write};

// ---------------------------------------------------------------- SHA-256
const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98,
    0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
    0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8,
    0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
    0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819,
    0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
    0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7,
    0xc67178f2,
];
pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut msg = data.to_vec();
    let bits = (data.len() as u64) * 8;
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&bits.to_be_bytes());
    for chunk in msg.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

// ---------------------------------------------------------------- AES-256
fn xt(x: u8) -> u8 {
    (x << 1) ^ (if x & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
struct Boxes {
    s: [u8; 256],
    inv: [u8; 256],
    m9: [u8; 256],
    m11: [u8; 256],
    m13: [u8; 256],
    m14: [u8; 256],
}
fn boxes() -> &'static Boxes {
    use std::sync::OnceLock;
    static B: OnceLock<Boxes> = OnceLock::new();
    B.get_or_init(|| {
        let mut s = [0u8; 256];
        let mut inv = [0u8; 256];
        let (mut p, mut q) = (1u8, 1u8);
        loop {
            p = p ^ xt(p);
            q ^= q << 1;
            q ^= q << 2;
            q ^= q << 4;
            if q & 0x80 != 0 {
                q ^= 0x09;
            }
            s[p as usize] = q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
            if p == 1 {
                break;
            }
        }
        s[0] = 0x63;
        for i in 0..256 {
            inv[s[i] as usize] = i as u8;
        }
        let t = |k: u8| {
            let mut m = [0u8; 256];
            for i in 0..256 {
                m[i] = gmul(i as u8, k);
            }
            m
        };
        Boxes { s, inv, m9: t(9), m11: t(11), m13: t(13), m14: t(14) }
    })
}
pub struct Aes256 {
    rk: [[u8; 16]; 15],
}
impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Aes256 {
        let b = boxes();
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rc = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 {
                t = [b.s[t[1] as usize] ^ rc, b.s[t[2] as usize], b.s[t[3] as usize], b.s[t[0] as usize]];
                rc = xt(rc);
            } else if i % 8 == 4 {
                for x in t.iter_mut() {
                    *x = b.s[*x as usize];
                }
            }
            for j in 0..4 {
                w[i][j] = w[i - 8][j] ^ t[j];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 {
            for c in 0..4 {
                rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        Aes256 { rk }
    }
    fn ark(s: &mut [u8; 16], k: &[u8; 16]) {
        for i in 0..16 {
            s[i] ^= k[i];
        }
    }
    pub fn enc(&self, s: &mut [u8; 16]) {
        let b = boxes();
        Self::ark(s, &self.rk[0]);
        for r in 1..15 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = b.s[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r < 14 {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for i in 0..4 {
                        t[4 * c + i] = xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            *s = t;
            Self::ark(s, &self.rk[r]);
        }
    }
    pub fn dec(&self, s: &mut [u8; 16]) {
        let b = boxes();
        for r in (1..15).rev() {
            Self::ark(s, &self.rk[r]);
            if r < 14 {
                for c in 0..4 {
                    let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                    for i in 0..4 {
                        s[4 * c + i] = b.m14[a[i] as usize]
                            ^ b.m11[a[(i + 1) % 4] as usize]
                            ^ b.m13[a[(i + 2) % 4] as usize]
                            ^ b.m9[a[(i + 3) % 4] as usize];
                    }
                }
            }
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * ((c + row) % 4) + row] = b.inv[s[4 * c + row] as usize];
                }
            }
            *s = t;
        }
        Self::ark(s, &self.rk[0]);
    }
}
/// CBC with PKCS#7 padding.
pub fn cbc_enc(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let n = 16 - data.len() % 16;
    let mut d = data.to_vec();
    d.extend(std::iter::repeat(n as u8).take(n));
    cbc_enc_raw(key, iv, &d)
}
/// CBC without padding (the length must be a multiple of 16).
pub fn cbc_enc_raw(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let a = Aes256::new(key);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(16) {
        for i in 0..16 {
            prev[i] ^= c[i];
        }
        a.enc(&mut prev);
        out.extend_from_slice(&prev);
    }
    out
}
pub fn cbc_dec(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Option<Vec<u8>> {
    if data.is_empty() || data.len() % 16 != 0 {
        return None;
    }
    let a = Aes256::new(key);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(16) {
        let mut b = [0u8; 16];
        b.copy_from_slice(c);
        let ct = b;
        a.dec(&mut b);
        for i in 0..16 {
            b[i] ^= prev[i];
        }
        out.extend_from_slice(&b);
        prev = ct;
    }
    let n = *out.last().unwrap() as usize;
    if n == 0 || n > 16 || out[out.len() - n..].iter().any(|&x| x as usize != n) {
        return None;
    }
    out.truncate(out.len() - n);
    Some(out)
}

// ---------------------------------------------------------------- Salsa20
pub struct Salsa {
    key: [u8; 32],
    nonce: [u8; 8],
    ctr: u64,
    buf: [u8; 64],
    pos: usize,
    pub used: u64,
}
pub const NONCE: [u8; 8] = [0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a];
impl Salsa {
    pub fn new(key: &[u8; 32]) -> Salsa {
        Salsa { key: *key, nonce: NONCE, ctr: 0, buf: [0; 64], pos: 64, used: 0 }
    }
    fn block(&mut self) {
        let w = |b: &[u8], i: usize| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        let k = &self.key;
        let x0: [u32; 16] = [
            0x61707865, w(k, 0), w(k, 1), w(k, 2), w(k, 3), 0x3320646e, w(&self.nonce, 0), w(&self.nonce, 1),
            self.ctr as u32, (self.ctr >> 32) as u32, 0x79622d32, w(k, 4), w(k, 5), w(k, 6), w(k, 7), 0x6b206574,
        ];
        let mut x = x0;
        fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
            x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
            x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
            x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
            x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
        }
        for _ in 0..10 {
            qr(&mut x, 0, 4, 8, 12);
            qr(&mut x, 5, 9, 13, 1);
            qr(&mut x, 10, 14, 2, 6);
            qr(&mut x, 15, 3, 7, 11);
            qr(&mut x, 0, 1, 2, 3);
            qr(&mut x, 5, 6, 7, 4);
            qr(&mut x, 10, 11, 8, 9);
            qr(&mut x, 15, 12, 13, 14);
        }
        for i in 0..16 {
            self.buf[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(x0[i]).to_le_bytes());
        }
        self.ctr += 1;
        self.pos = 0;
    }
    pub fn xor(&mut self, data: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(data.len());
        for &d in data {
            if self.pos == 64 {
                self.block();
            }
            out.push(d ^ self.buf[self.pos]);
            self.pos += 1;
            self.used += 1;
        }
        out
    }
}

// ---------------------------------------------------------------- base64, hex, gzip
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::new();
    for (ci, c) in b.chunks(4).enumerate() {
        let last = (ci + 1) * 4 == b.len();
        let pad = c.iter().rev().take_while(|&&x| x == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return None;
        }
        let mut n = 0u32;
        for (i, &x) in c.iter().enumerate() {
            let v = if i >= 4 - pad { 0 } else { B64.iter().position(|&y| y == x)? as u32 };
            n = n << 6 | v;
        }
        let t = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if (pad == 1 && t[2] != 0) || (pad == 2 && (t[1] != 0 || t[2] != 0)) {
            return None;
        }
        out.extend_from_slice(&t[..3 - pad]);
    }
    Some(out)
}
pub fn hexs(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn gz(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
pub fn ungz(d: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut dec = flate2::read::GzDecoder::new(d);
    dec.read_to_end(&mut v).ok()?;
    Some(v)
}

// ---------------------------------------------------------------- XML tree
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    El { name: String, attrs: Vec<(String, String)>, kids: Vec<X> },
    Text(String),
    /// bytes to be encrypted with the inner stream when rendered, in document order
    Prot(Vec<u8>),
    /// raw markup
    Raw(String),
}
pub fn el(name: &str, kids: Vec<X>) -> X {
    X::El { name: name.into(), attrs: vec![], kids }
}
pub fn ela(name: &str, attrs: Vec<(&str, &str)>, kids: Vec<X>) -> X {
    X::El { name: name.into(), attrs: attrs.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids }
}
/// element with text (no text node at all when empty)
pub fn tx(name: &str, text: &str) -> X {
    if text.is_empty() {
        el(name, vec![])
    } else {
        el(name, vec![X::Text(text.into())])
    }
}
fn esc(s: &str, out: &mut String) {
    for c in s.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '&' => out.push_str("&amp;"),
            '"' => out.push_str("&quot;"),
            '\r' | '\n' | '\t' => out.push_str(&format!("&#{};", c as u32)),
            c => out.push(c),
        }
    }
}
fn only_elements(kids: &[X]) -> bool {
    !kids.is_empty() && kids.iter().all(|k| matches!(k, X::El { .. }))
}
pub fn render(x: &X, salsa: &mut Salsa, indent: Option<usize>, out: &mut String) {
    match x {
        X::Text(t) => esc(t, out),
        X::Raw(t) => out.push_str(t),
        X::Prot(b) => {
            let e = salsa.xor(b);
            out.push_str(&b64(&e))
        }
        X::El { name, attrs, kids } => {
            out.push('<');
            out.push_str(name);
            for (a, v) in attrs {
                out.push(' ');
                out.push_str(a);
                out.push_str("=\"");
                esc(v, out);
                out.push('"');
            }
            if kids.is_empty() {
                out.push_str(if name.len() % 2 == 0 { " />" } else { "/>" });
                return;
            }
            out.push('>');
            let ws = indent.is_some() && only_elements(kids);
            let d = indent.unwrap_or(0);
            for k in kids {
                if ws {
                    out.push('\n');
                    for _ in 0..=d {
                        out.push('\t');
                    }
                }
                render(k, salsa, indent.map(|d| d + 1), out);
            }
            if ws {
                out.push('\n');
                for _ in 0..d {
                    out.push('\t');
                }
            }
            out.push_str("</");
            out.push_str(name);
            out.push('>');
        }
    }
}
impl X {
    pub fn name(&self) -> &str {
        match self {
            X::El { name, .. } => name,
            _ => "",
        }
    }
    pub fn kids(&self) -> &[X] {
        match self {
            X::El { kids, .. } => kids,
            _ => &[],
        }
    }
    pub fn kids_mut(&mut self) -> &mut Vec<X> {
        match self {
            X::El { kids, .. } => kids,
            _ => panic!("no element"),
        }
    }
    pub fn find<'a>(&'a self, n: &str) -> Option<&'a X> {
        self.kids().iter().find(|k| k.name() == n)
    }
    pub fn all<'a>(&'a self, n: &str) -> Vec<&'a X> {
        self.kids().iter().filter(|k| k.name() == n).collect()
    }
    pub fn attr(&self, n: &str) -> Option<&str> {
        match self {
            X::El { attrs, .. } => attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str()),
            _ => None,
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in self.kids() {
            if let X::Text(t) = k {
                s.push_str(t);
            }
        }
        s
    }
    /// pre-order walk in document order
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a X)) {
        f(self);
        for k in self.kids() {
            k.walk(f);
        }
    }
}
/// Parse a document made of elements, attributes, text, the predefined entities
/// and character references, an XML declaration and comments.
pub fn parse_xml(doc: &[u8]) -> Result<X, String> {
    let s = std::str::from_utf8(doc).map_err(|e| e.to_string())?;
    let mut p = P { s: s.as_bytes(), i: 0 };
    p.misc();
    let x = p.element()?;
    p.misc();
    if p.i != p.s.len() {
        return Err("trailing content".into());
    }
    Ok(x)
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn misc(&mut self) {
        loop {
            self.ws();
            if self.s[self.i..].starts_with(b"<?") {
                while self.i < self.s.len() && !self.s[self.i..].starts_with(b"?>") {
                    self.i += 1;
                }
                self.i += 2;
            } else if self.s[self.i..].starts_with(b"<!--") {
                while self.i < self.s.len() && !self.s[self.i..].starts_with(b"-->") {
                    self.i += 1;
                }
                self.i += 3;
            } else {
                return;
            }
        }
    }
    fn nm(&mut self) -> String {
        let a = self.i;
        while self.i < self.s.len() && !b" \t\r\n/>=<".contains(&self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn txt(&mut self, end: u8) -> Result<String, String> {
        let mut o: Vec<u8> = Vec::new();
        while self.i < self.s.len() && self.s[self.i] != end {
            if self.s[self.i] == b'&' {
                let a = self.i + 1;
                while self.i < self.s.len() && self.s[self.i] != b';' {
                    self.i += 1;
                }
                let e = std::str::from_utf8(&self.s[a..self.i]).map_err(|e| e.to_string())?;
                self.i += 1;
                let c = match e {
                    "lt" => '<',
                    "gt" => '>',
                    "amp" => '&',
                    "quot" => '"',
                    "apos" => '\'',
                    e if e.starts_with("#x") => {
                        char::from_u32(u32::from_str_radix(&e[2..], 16).map_err(|e| e.to_string())?).ok_or("bad ref")?
                    }
                    e if e.starts_with('#') => {
                        char::from_u32(e[1..].parse::<u32>().map_err(|e| e.to_string())?).ok_or("bad ref")?
                    }
                    e => return Err(format!("entity {}", e)),
                };
                let mut b = [0; 4];
                o.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            } else {
                o.push(self.s[self.i]);
                self.i += 1;
            }
        }
        String::from_utf8(o).map_err(|e| e.to_string())
    }
    fn element(&mut self) -> Result<X, String> {
        if self.i >= self.s.len() || self.s[self.i] != b'<' {
            return Err(format!("element expected at {}", self.i));
        }
        self.i += 1;
        let name = self.nm();
        let mut attrs = vec![];
        loop {
            self.ws();
            match self.s.get(self.i) {
                None => return Err("eof".into()),
                Some(b'/') => {
                    self.i += 2;
                    return Ok(X::El { name, attrs, kids: vec![] });
                }
                Some(b'>') => {
                    self.i += 1;
                    break;
                }
                _ => {
                    let a = self.nm();
                    self.ws();
                    if self.s.get(self.i) != Some(&b'=') {
                        return Err("attribute".into());
                    }
                    self.i += 1;
                    self.ws();
                    let q = *self.s.get(self.i).ok_or("eof")?;
                    if q != b'"' && q != b'\'' {
                        return Err("quote".into());
                    }
                    self.i += 1;
                    let v = self.txt(q)?;
                    self.i += 1;
                    attrs.push((a, v));
                }
            }
        }
        let mut kids = vec![];
        loop {
            if self.i >= self.s.len() {
                return Err("eof".into());
            }
            if self.s[self.i..].starts_with(b"<!--") {
                while self.i < self.s.len() && !self.s[self.i..].starts_with(b"-->") {
                    self.i += 1;
                }
                self.i += 3;
            } else if self.s[self.i..].starts_with(b"</") {
                self.i += 2;
                let n = self.nm();
                if n != name {
                    return Err(format!("end tag {} for {}", n, name));
                }
                self.ws();
                self.i += 1;
                break;
            } else if self.s[self.i] == b'<' {
                kids.push(self.element()?);
            } else {
                kids.push(X::Text(self.txt(b'<')?));
            }
        }
        // indentation between elements is not content
        if kids.iter().any(|k| matches!(k, X::El { .. })) {
            kids.retain(|k| !matches!(k, X::Text(t) if t.trim().is_empty()));
        }
        Ok(X::El { name, attrs, kids })
    }
}

// ---------------------------------------------------------------- KDBX 3.1 files
pub const SIG1: [u8; 4] = [0x03, 0xd9, 0xa2, 0x9a];
pub const SIG2: [u8; 4] = [0x67, 0xfb, 0x4b, 0xb5];
pub const AES_ID: [u8; 16] = [
    0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff,
];
pub fn transform(ck: &[u8; 32], seed: &[u8; 32], rounds: u64) -> [u8; 32] {
    let a = Aes256::new(seed);
    let mut l = [0u8; 16];
    let mut r = [0u8; 16];
    l.copy_from_slice(&ck[..16]);
    r.copy_from_slice(&ck[16..]);
    for _ in 0..rounds {
        a.enc(&mut l);
        a.enc(&mut r);
    }
    sha256(&[l, r].concat())
}
pub fn master(ck: &[u8; 32], tseed: &[u8; 32], rounds: u64, mseed: &[u8; 32]) -> [u8; 32] {
    sha256(&[&mseed[..], &transform(ck, tseed, rounds)[..]].concat())
}

/// Everything needed to build a file.
#[derive(Clone, Debug)]
pub struct Spec {
    pub minor: u16,
    pub major: u16,
    pub comment: Option<Vec<u8>>,
    pub compression: u32,
    pub mseed: [u8; 32],
    pub tseed: [u8; 32],
    pub rounds: u64,
    pub iv: [u8; 16],
    pub psk: [u8; 32],
    pub ssb: [u8; 32],
    pub end_data: Vec<u8>,
}
impl Spec {
    pub fn random(r: &mut Rng) -> Spec {
        Spec {
            minor: 1,
            major: 3,
            comment: None,
            compression: r.below(2) as u32,
            mseed: r.arr32(),
            tseed: r.arr32(),
            rounds: r.below(4),
            iv: r.arr16(),
            psk: r.arr32(),
            ssb: r.arr32(),
            end_data: match r.below(8) {
                0..=3 => b"\r\n\r\n".to_vec(),
                4..=6 => vec![],
                _ => {
                    let n = *r.pick(&[1, 2, 3, 5, 8, 16, 31, 32, 33, 64, 255, 256, 257, 4096, 65535]);
                    r.bytes(n)
                }
            },
        }
    }
    pub fn fields(&self) -> Vec<(u8, Vec<u8>)> {
        let mut f = vec![
            (2u8, AES_ID.to_vec()),
            (3, self.compression.to_le_bytes().to_vec()),
            (4, self.mseed.to_vec()),
            (5, self.tseed.to_vec()),
            (6, self.rounds.to_le_bytes().to_vec()),
            (7, self.iv.to_vec()),
            (8, self.psk.to_vec()),
            (9, self.ssb.to_vec()),
            (10, 2u32.to_le_bytes().to_vec()),
        ];
        if let Some(c) = &self.comment {
            f.insert(0, (1, c.clone()));
        }
        f
    }
    pub fn header(&self) -> Vec<u8> {
        self.header_of(&self.fields())
    }
    pub fn header_of(&self, fields: &[(u8, Vec<u8>)]) -> Vec<u8> {
        let mut h = vec![];
        h.extend_from_slice(&SIG1);
        h.extend_from_slice(&SIG2);
        h.extend_from_slice(&self.minor.to_le_bytes());
        h.extend_from_slice(&self.major.to_le_bytes());
        for (id, d) in fields {
            h.push(*id);
            h.extend_from_slice(&(d.len() as u16).to_le_bytes());
            h.extend_from_slice(d);
        }
        h.push(0);
        h.extend_from_slice(&(self.end_data.len() as u16).to_le_bytes());
        h.extend_from_slice(&self.end_data);
        h
    }
    pub fn salsa(&self) -> Salsa {
        Salsa::new(&sha256(&self.psk))
    }
    pub fn pack(&self, xml: &[u8]) -> Vec<u8> {
        if self.compression == 1 {
            gz(xml)
        } else {
            xml.to_vec()
        }
    }
    /// payload (before encryption) for already packed data divided at the given points
    pub fn payload(&self, packed: &[u8], cuts: &[usize]) -> Vec<u8> {
        let mut p = self.ssb.to_vec();
        let mut id = 0u32;
        let mut a = 0;
        let mut cs: Vec<usize> = cuts.iter().cloned().filter(|c| *c > 0 && *c < packed.len()).collect();
        cs.sort();
        cs.dedup();
        cs.push(packed.len());
        for c in cs {
            if c > a {
                block(&mut p, id, &packed[a..c]);
                id += 1;
                a = c;
            }
        }
        final_block(&mut p, id);
        p
    }
    pub fn encrypt(&self, ck: &[u8; 32], payload: &[u8]) -> Vec<u8> {
        cbc_enc(&master(ck, &self.tseed, self.rounds, &self.mseed), &self.iv, payload)
    }
    /// a whole file from a document
    pub fn file(&self, ck: &[u8; 32], xml: &[u8], cuts: &[usize]) -> Vec<u8> {
        let mut f = self.header();
        let pl = self.payload(&self.pack(xml), cuts);
        f.extend(self.encrypt(ck, &pl));
        f
    }
    pub fn doc(&self, x: &X, indent: bool) -> String {
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\n");
        render(x, &mut self.salsa(), if indent { Some(0) } else { None }, &mut s);
        s
    }
}
/// The bytes of the round count but the two lowest: setting one of them makes
/// a file that takes years to open.
pub fn rounds_bytes(f: &[u8]) -> std::ops::Range<usize> {
    let mut i = 12;
    while i + 3 <= f.len() {
        let n = u16::from_le_bytes([f[i + 1], f[i + 2]]) as usize;
        match f[i] {
            6 => return i + 5..i + 11,
            0 => break,
            _ => i += 3 + n,
        }
    }
    0..0
}
pub fn block(p: &mut Vec<u8>, id: u32, data: &[u8]) {
    p.extend_from_slice(&id.to_le_bytes());
    p.extend_from_slice(&sha256(data));
    p.extend_from_slice(&(data.len() as u32).to_le_bytes());
    p.extend_from_slice(data);
}
pub fn final_block(p: &mut Vec<u8>, id: u32) {
    p.extend_from_slice(&id.to_le_bytes());
    p.extend_from_slice(&[0; 32]);
    p.extend_from_slice(&[0; 4]);
}

/// A dissected file.
#[derive(Debug)]
pub struct Parsed {
    pub minor: u16,
    pub major: u16,
    pub fields: Vec<(u8, Vec<u8>)>,
    pub header_len: usize,
    pub blocks: Vec<Vec<u8>>,
    pub xml: Vec<u8>,
    pub psk: [u8; 32],
}
impl Parsed {
    pub fn field(&self, id: u8) -> Option<&[u8]> {
        self.fields.iter().find(|f| f.0 == id).map(|f| &f.1[..])
    }
}
fn arr<const N: usize>(v: &[u8]) -> Result<[u8; N], String> {
    <[u8; N]>::try_from(v).map_err(|_| format!("field has {} bytes, {} expected", v.len(), N))
}
/// Strict dissection of a file that is expected to be well formed.
pub fn parse_file(f: &[u8], ck: &[u8; 32]) -> Result<Parsed, String> {
    if f.len() < 12 || f[..4] != SIG1 || f[4..8] != SIG2 {
        return Err("signatures".into());
    }
    let minor = u16::from_le_bytes([f[8], f[9]]);
    let major = u16::from_le_bytes([f[10], f[11]]);
    let mut i = 12;
    let mut fields: Vec<(u8, Vec<u8>)> = vec![];
    loop {
        if i + 3 > f.len() {
            return Err("header truncated".into());
        }
        let id = f[i];
        let n = u16::from_le_bytes([f[i + 1], f[i + 2]]) as usize;
        if i + 3 + n > f.len() {
            return Err("header field truncated".into());
        }
        let d = f[i + 3..i + 3 + n].to_vec();
        i += 3 + n;
        if id == 0 {
            break;
        }
        if id > 10 {
            return Err(format!("unknown header field {}", id));
        }
        if fields.iter().any(|x| x.0 == id) {
            return Err(format!("header field {} repeated", id));
        }
        fields.push((id, d));
    }
    let get = |id: u8| {
        fields.iter().find(|x| x.0 == id).map(|x| x.1.clone()).ok_or(format!("header field {} missing", id))
    };
    if get(2)? != AES_ID {
        return Err("cipher".into());
    }
    let comp = u32::from_le_bytes(arr::<4>(&get(3)?)?);
    let mseed = arr::<32>(&get(4)?)?;
    let tseed = arr::<32>(&get(5)?)?;
    let rounds = u64::from_le_bytes(arr::<8>(&get(6)?)?);
    let iv = arr::<16>(&get(7)?)?;
    let psk = arr::<32>(&get(8)?)?;
    let ssb = arr::<32>(&get(9)?)?;
    if u32::from_le_bytes(arr::<4>(&get(10)?)?) != 2 {
        return Err("stream cipher".into());
    }
    let header_len = i;
    let p = cbc_dec(&master(ck, &tseed, rounds, &mseed), &iv, &f[i..])
        .ok_or("payload does not decrypt with the key derived as KeePass does")?;
    if p.len() < 32 || p[..32] != ssb {
        return Err("payload does not begin with the stream start bytes".into());
    }
    let mut j = 32;
    let mut blocks: Vec<Vec<u8>> = vec![];
    loop {
        if j + 40 > p.len() {
            return Err("block truncated".into());
        }
        let id = u32::from_le_bytes(arr::<4>(&p[j..j + 4])?);
        let hash = arr::<32>(&p[j + 4..j + 36])?;
        let n = u32::from_le_bytes(arr::<4>(&p[j + 36..j + 40])?) as usize;
        if id as usize != blocks.len() {
            return Err(format!("block number {} where {} was expected", id, blocks.len()));
        }
        if n == 0 {
            if hash != [0; 32] {
                return Err("final block hash".into());
            }
            j += 40;
            break;
        }
        if j + 40 + n > p.len() {
            return Err("block data truncated".into());
        }
        let d = p[j + 40..j + 40 + n].to_vec();
        if sha256(&d) != hash {
            return Err("block hash".into());
        }
        blocks.push(d);
        j += 40 + n;
    }
    if j != p.len() {
        return Err("bytes after the final block".into());
    }
    let all = blocks.concat();
    let xml = match comp {
        0 => all,
        1 => ungz(&all).ok_or("block data is not a gzip stream")?,
        _ => return Err("compression".into()),
    };
    Ok(Parsed { minor, major, fields, header_len, blocks, xml, psk })
}
