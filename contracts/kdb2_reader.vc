# the outer header, the payload and its blocks: C02, C03, C04, C06, C07, C09
@module format::kdb2_reader
@top
use crate::vx::io::{Io, took, failed, read_err};
use crate::vx::byteorder::{le_nat};
use crate::vx::{cbc_dec, pad32, sha256, flat};
use crate::vx::flate2::gunzip;
use crate::types::transformed_key::master;

/// Why data are refused.
pub enum Why {
    Short,
    Size { id: u8, expected: u16, actual: u16 },
    Field(u8),
    Missing(u8),
    Compression(u32),
    Cipher(Seq<u8>),
    Stream(u32),
    Start,
    BlockId(u32),
    BlockHash,
    FinalHash(Seq<u8>),
    Crypto,
    Gzip,
}
/// The error that says so.
pub open spec fn says(w: Why, e: Error) -> bool {
    match w {
        Why::Short => e matches Error::Io(x) && x.kind is UnexpectedEof,
        Why::Size { id, expected, actual } => e == (Error::InvalidHeaderSize { id, expected, actual }),
        Why::Field(id) => e == Error::UnhandledHeader(id),
        Why::Missing(id) => e == Error::MissingHeader(id),
        Why::Compression(n) => e == Error::UnhandledCompression(n),
        Why::Cipher(d) => e matches Error::UnhandledMasterCipher(a) && a@ == d,
        Why::Stream(n) => e == Error::UnhandledStreamCipher(n),
        Why::Start => e is InvalidKey,
        Why::BlockId(n) => e == Error::InvalidBlockId(n),
        Why::BlockHash => e is InvalidBlockHash,
        Why::FinalHash(d) => e matches Error::InvalidFinalBlockHash(a) && a@ == d,
        Why::Crypto => e is CryptoError,
        Why::Gzip => e matches Error::Io(x) && crate::vx::flate2::from_flate2(x),
    }
}
/// The source failed with this error.
pub open spec fn broke<S: Io + ?Sized>(b: &S, e: Error) -> bool { e matches Error::Io(x) && failed(b, x) }

/// The length a field must have, where the format fixes it.
pub open spec fn fixed_size(id: u8) -> Option<u16> {
    if id == 2 || id == 7 { Some(16u16) } else if id == 3 || id == 10 { Some(4u16) } else if id == 6 { Some(8u16) }
    else if id == 4 || id == 5 || id == 8 || id == 9 { Some(32u16) } else { None }
}
pub open spec fn aes_id() -> Seq<u8> { seq![0x31u8, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff] }
/// The data of the field whose length and data begin s.
pub open spec fn field(id: u8, s: Seq<u8>) -> core::result::Result<Seq<u8>, Why> {
    let n = le_nat(s.take(2));
    let d = s.subrange(2, 2 + n as int);
    if id > 10 { Err(Why::Field(id)) }
    else if s.len() < 2 { Err(Why::Short) }
    else if fixed_size(id) is Some && fixed_size(id).unwrap() != n { Err(Why::Size { id, expected: fixed_size(id).unwrap(), actual: n as u16 }) }
    else if s.len() < 2 + n { Err(Why::Short) }
    else if id == 2 && d != aes_id() { Err(Why::Cipher(d)) }
    else if id == 3 && le_nat(d) > 1 { Err(Why::Compression(le_nat(d) as u32)) }
    else if id == 10 && le_nat(d) != 2 { Err(Why::Stream(le_nat(d) as u32)) }
    else { Ok(d) }
}
/// The fields seen, by number.
pub type Fields = Map<u8, Seq<u8>>;
pub enum Header { Done(Fields, int), Bad(Why) }
/// The fields up to the end field, the last of each number, and how many bytes they take.
pub open spec fn header(s: Seq<u8>, f: Fields) -> Header decreases s.len() {
    if s.len() == 0 { Header::Bad(Why::Short) } else {
        match field(s[0], s.skip(1)) {
            Err(w) => Header::Bad(w),
            Ok(d) => if s[0] == 0 { Header::Done(f, 3 + d.len() as int) } else {
                match header(s.skip(3 + d.len() as int), f.insert(s[0], d)) {
                    Header::Done(g, k) => Header::Done(g, k + (3 + d.len() as int)),
                    b => b,
                }
            },
        }
    }
}
pub open spec fn later(h: Header, n: int) -> Header { match h { Header::Done(f, k) => Header::Done(f, k + n), b => b } }
/// The first required field that is missing.
pub open spec fn missing(f: Fields) -> Option<u8> {
    if !f.contains_key(3) { Some(3u8) } else if !f.contains_key(2) { Some(2u8) } else if !f.contains_key(7) { Some(7u8) }
    else if !f.contains_key(4) { Some(4u8) } else if !f.contains_key(8) { Some(8u8) } else if !f.contains_key(10) { Some(10u8) }
    else if !f.contains_key(9) { Some(9u8) } else if !f.contains_key(6) { Some(6u8) } else if !f.contains_key(5) { Some(5u8) } else { None }
}
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// The data of the blocks from number i on.
pub open spec fn blocks(s: Seq<u8>, i: nat) -> core::result::Result<Seq<u8>, Why> decreases s.len() {
    let n = le_nat(s.subrange(36, 40));
    let d = s.subrange(40, 40 + n as int);
    let hash = s.subrange(4, 36);
    let id = le_nat(s.take(4));
    if s.len() < 40 || s.len() < 40 + n { Err(Why::Short) }
    else if id != i { Err(Why::BlockId(id as u32)) }
    else if n == 0 { if hash == zeros(32) { Ok(seq![]) } else { Err(Why::FinalHash(hash)) } }
    else if sha256(d) != hash { Err(Why::BlockHash) }
    else { joined(d, blocks(s.skip(40 + n as int), i + 1)) }
}
pub open spec fn decompressed(gzip: bool, d: Seq<u8>) -> core::result::Result<Seq<u8>, Why> {
    if !gzip { Ok(d) } else { match gunzip(d) { Some(x) => Ok(x), None => Err(Why::Gzip) } }
}
/// The document in a file, after signatures, under a composite key: the bytes of the
/// XML document, the fields and the length of the header from the version on.
pub struct Inner { pub fields: Fields, pub size: int, pub xml: Seq<u8> }
pub open spec fn key_of(f: Fields, composite: Seq<u8>) -> Seq<u8> { master(composite, f[5], le_nat(f[6]), f[4]) }
pub open spec fn inner(s: Seq<u8>, composite: Seq<u8>) -> core::result::Result<Inner, Why> {
    if s.len() < 4 { Err(Why::Short) } else {
        match header(s.skip(4), Map::empty()) {
            Header::Bad(w) => Err(w),
            Header::Done(f, k) => if missing(f) is Some { Err(Why::Missing(missing(f).unwrap())) } else {
                match cbc_dec(key_of(f, composite), f[7], s.skip(4 + k)) {
                    None => Err(Why::Crypto),
                    Some(p) => if p.len() < 32 || p.take(32) != f[9] { Err(Why::Start) } else {
                        match blocks(p.skip(32), 0) {
                            Err(w) => Err(w),
                            Ok(d) => match decompressed(le_nat(f[3]) == 1, d) { Err(w) => Err(w), Ok(x) => Ok(Inner { fields: f, size: 4 + k, xml: x }) },
                        }
                    },
                }
            },
        }
    }
}
pub open spec fn opt<T>(o: Option<T>, f: Fields, id: u8, v: spec_fn(T, Seq<u8>) -> bool) -> bool {
    match o { Some(x) => f.contains_key(id) && v(x, f[id]), None => !f.contains_key(id) }
}
/// These values are those of the fields.
pub open spec fn agree(f: Fields, comment: Option<Comment>, compression: Option<Compression>, master_cipher: Option<MasterCipher>, master_iv: Option<MasterIV>,
    master_seed: Option<MasterSeed>, protected_stream_key: Option<ProtectedStreamKey>, stream_cipher: Option<StreamCipher>,
    stream_start_bytes: Option<StreamStartBytes>, transform_rounds: Option<TransformRounds>, transform_seed: Option<TransformSeed>) -> bool {
    &&& opt(comment, f, 1, |x: Comment, d: Seq<u8>| x.0@ == d)
    &&& opt(master_cipher, f, 2, |x: MasterCipher, d: Seq<u8>| true)
    &&& opt(compression, f, 3, |x: Compression, d: Seq<u8>| (x is GZip) == (le_nat(d) == 1))
    &&& opt(master_seed, f, 4, |x: MasterSeed, d: Seq<u8>| x.0@ == d)
    &&& opt(transform_seed, f, 5, |x: TransformSeed, d: Seq<u8>| x.0@ == d)
    &&& opt(transform_rounds, f, 6, |x: TransformRounds, d: Seq<u8>| x.0 == le_nat(d))
    &&& opt(master_iv, f, 7, |x: MasterIV, d: Seq<u8>| x.0@ == d)
    &&& opt(protected_stream_key, f, 8, |x: ProtectedStreamKey, d: Seq<u8>| x.0@ == d)
    &&& opt(stream_start_bytes, f, 9, |x: StreamStartBytes, d: Seq<u8>| x.0@ == d)
    &&& opt(stream_cipher, f, 10, |x: StreamCipher, d: Seq<u8>| true)
}
/// What the outer header says of the database.
pub open spec fn described(m: MetaData, s: Seq<u8>, n: Inner, log: Seq<u8>) -> bool {
    let f = n.fields;
    &&& m.version.minor == le_nat(s.take(2)) && m.version.major == le_nat(s.subrange(2, 4))
    &&& match m.comment { Some(c) => f.contains_key(1) && c.0@ == f[1], None => !f.contains_key(1) }
    &&& (m.compression is GZip) == (le_nat(f[3]) == 1)
    &&& m.transform_rounds.0 == le_nat(f[6])
    &&& m.header_hash.0@ == sha256(log + s.take(n.size))
}
pub open spec fn joined(d: Seq<u8>, r: core::result::Result<Seq<u8>, Why>) -> core::result::Result<Seq<u8>, Why> { match r { Ok(x) => Ok(d + x), Err(w) => Err(w) } }
/// The header lies within the data.
pub proof fn lemma_header_len(s: Seq<u8>, f: Fields) ensures header(s, f) matches Header::Done(g, k) ==> 0 <= k <= s.len() decreases s.len() {
    if s.len() > 0 {
        if let Ok(d) = field(s[0], s.skip(1)) {
            if s[0] != 0 { lemma_header_len(s.skip(3 + d.len() as int), f.insert(s[0], d)); }
        }
    }
}
/// Joining is associative.
proof fn lemma_joined(a: Seq<u8>) ensures forall|b: Seq<u8>, r: core::result::Result<Seq<u8>, Why>| #[trigger] joined(a + b, r) == joined(a, joined(b, r)) {
    assert forall|b: Seq<u8>, r: core::result::Result<Seq<u8>, Why>| #[trigger] joined(a + b, r) == joined(a, joined(b, r)) by {
        if let Ok(x) = r { assert((a + b) + x =~= a + (b + x)); }
    }
}
proof fn lemma_le2(s: Seq<u8>) requires s.len() == 2 ensures le_nat(s) == s[0] as nat + 256 * s[1] as nat, le_nat(s) < 0x1_0000 {
    reveal_with_fuel(le_nat, 3);
}
proof fn lemma_le4(s: Seq<u8>) requires s.len() == 4 ensures le_nat(s) < 0x1_0000_0000 {
    reveal_with_fuel(le_nat, 5);
}

@fn read_bytes_16
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(d) ==> took(old(reader), final(reader), 16) && d@ == old(reader).rest().take(16),
        r matches Err(e) ==> broke(old(reader), e) || (old(reader).rest().len() < 16 && says(Why::Short, e)), //@C04
@fn read_bytes_32
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(d) ==> took(old(reader), final(reader), 32) && d@ == old(reader).rest().take(32),
        r matches Err(e) ==> broke(old(reader), e) || (old(reader).rest().len() < 32 && says(Why::Short, e)), //@C04
@fn read_bytes_size
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(d) ==> took(old(reader), final(reader), *size as int) && d@ == old(reader).rest().take(*size as int),
        r matches Err(e) ==> broke(old(reader), e) || (old(reader).rest().len() < *size && says(Why::Short, e)), //@C04
@fn get_header
@props C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> header == Some(v),
        r matches Err(e) ==> header is None && e == Error::MissingHeader(header_id),
@fn decompress
@props C09
@ret r
@spec
    ensures
        r matches Ok(v) ==> decompressed(compression is GZip, data@) == Ok::<Seq<u8>, Why>(v@),
        r matches Err(e) ==> decompressed(compression is GZip, data@) matches Err(w) && says(w, e),
@fn read_enc_payload
@props C04 C02
@ret r
@spec
    ensures
        r is Ok ==> old(reader).fault() is None, //@C04
        r matches Ok(d) ==> took(old(reader), final(reader), old(reader).rest().len() as int) && d@ == old(reader).rest(),
        r matches Err(e) ==> broke(old(reader), e), //@C04
@fn read_version
@props C06 C04
@ret r
@spec
    ensures
        r matches Ok(v) ==> took(old(reader), final(reader), 4) && v.minor == le_nat(old(reader).rest().take(2)) && v.major == le_nat(old(reader).rest().subrange(2, 4)),
        r matches Err(e) ==> broke(old(reader), e) || (old(reader).rest().len() < 4 && says(Why::Short, e)),
@start
        proof { if reader.rest().len() >= 4 { assert(reader.rest().skip(2).take(2) =~= reader.rest().subrange(2, 4)); } }
@fn read_comment
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(1, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && v.0@ == d), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(1, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_compression
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(3, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && (v is GZip) == (le_nat(d) == 1)), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(3, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_end_header
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(0, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && true), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(0, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_master_cipher
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(2, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && true), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(2, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            assert(kdb2::AES_CIPHER_ID@ =~= aes_id());
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_master_iv
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(7, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && v.0@ == d), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(7, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_master_seed
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(4, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && v.0@ == d), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(4, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_protected_stream_key
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(8, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && v.0@ == d), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(8, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_stream_cipher
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(10, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && true), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(10, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_stream_start_bytes
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(9, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && v.0@ == d), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(9, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_transform_rounds
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(6, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && v.0 == le_nat(d)), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(6, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_transform_seed
@props C02 C03 C04 C06
@ret r
@spec
    ensures
        r matches Ok(v) ==> (field(5, old(reader).rest()) matches Ok(d) && took(old(reader), final(reader), 2 + d.len() as int) && v.0@ == d), //@C06
        r matches Err(e) ==> broke(old(reader), e) || (field(5, old(reader).rest()) matches Err(w) && says(w, e)), //@C06
@start
        proof {
            let s = reader.rest();
            if s.len() >= 2 {
                lemma_le2(s.take(2));
                let n = le_nat(s.take(2)) as int;
                if s.len() >= 2 + n { assert(s.skip(2).take(n) =~= s.subrange(2, 2 + n)); }
            }
        }
@fn read_xml_bytes
@props C02 C03 C09
@ret r
@spec
    requires payload@.len() < 40 * 0xffff_ffff,
    ensures
        r matches Ok(v) ==> (blocks(payload@, 0) matches Ok(d) && decompressed(compression is GZip, d) == Ok::<Seq<u8>, Why>(v@)), //@C02
        r matches Err(e) ==> (blocks(payload@, 0) matches Err(w) && says(w, e))
            || (blocks(payload@, 0) matches Ok(d) && decompressed(compression is GZip, d) matches Err(w) && says(w, e)),
@loop 0 it
        invariant_except_break
            blocks(payload@, 0) == joined(data@, blocks(reader.rest(), it.index@ as nat)),
        invariant
            reader.fault() is None, !reader.logging(), payload@.len() < 40 * 0xffff_ffff,
            reader.rest().len() + 40 * it.index@ <= payload@.len(),
        ensures
            blocks(payload@, 0) == Ok::<Seq<u8>, Why>(data@),
@loopstart 0
        broadcast use lemma_array_eq;
        let ghost s = reader.rest();
        let ghost d0 = data@;
        proof {
            if s.len() >= 40 {
                assert(s.skip(4).take(32) =~= s.subrange(4, 36));
                assert(s.skip(4).skip(32).take(4) =~= s.subrange(36, 40));
                lemma_le4(s.take(4));
                lemma_le4(s.subrange(36, 40));
                let n = le_nat(s.subrange(36, 40)) as int;
                if s.len() >= 40 + n {
                    assert(s.skip(4).skip(32).skip(4).take(n) =~= s.subrange(40, 40 + n));
                    assert(s.skip(4).skip(32).skip(4).skip(n) =~= s.skip(40 + n));
                }
            }
            assert(kdb2::FINAL_BLOCK_HASH@ =~= zeros(32));
            assert(joined(d0, Ok(seq![])) == Ok::<Seq<u8>, Why>(d0)) by { assert(d0 + Seq::<u8>::empty() =~= d0); }
            lemma_joined(d0);
            if s.len() >= 40 && le_nat(s.take(4)) == block_id {
                let n = le_nat(s.subrange(36, 40)) as int;
                if n == 0 && s.subrange(4, 36) == zeros(32) { assert(blocks(s, block_id as nat) == Ok::<Seq<u8>, Why>(seq![])); }
                if n > 0 && s.len() >= 40 + n && sha256(s.subrange(40, 40 + n)) == s.subrange(4, 36) {
                    assert(blocks(s, block_id as nat) == joined(s.subrange(40, 40 + n), blocks(s.skip(40 + n), (block_id + 1) as nat)));
                }
            }
        }
@fn read
@props C02 C03 C04 C06 C07 C09
@attr #[verifier::rlimit(80)]
@ret r
@spec
    requires
        old(reader).logging(),
        old(reader).rest().len() < 40 * 0xffff_ffff,
    ensures
        r matches Ok(v) ==> (inner(old(reader).rest(), pad32(composite_key.0@)) matches Ok(n)
            && described(v.0, old(reader).rest(), n, old(reader).log_data())
            && crate::format::kdb2_xml_reader::came_from(v.1, n.xml, sha256(n.fields[8]))), //@C02 @C06
        r matches Err(e) ==> broke(old(reader), e)
            || (inner(old(reader).rest(), pad32(composite_key.0@)) matches Err(w) && says(w, e))
            || (inner(old(reader).rest(), pad32(composite_key.0@)) matches Ok(n) && crate::format::kdb2_xml_reader::document(n.xml, sha256(n.fields[8])) is None), //@C04 @C06
        r is Ok ==> old(reader).fault() is None, //@C04
@loop 0
        invariant_except_break
            header(s0, Map::empty()) == later(header(reader.rest(), f), n),
        invariant
            reader.logging(), reader.fault() == old(reader).fault(),
            s0 == old(reader).rest().skip(4), old(reader).rest().len() >= 4,
            0 <= n <= s0.len(), reader.rest() =~= s0.skip(n), reader.rest() =~= old(reader).rest().skip(4 + n),
            reader.log_data() =~= old(reader).log_data() + old(reader).rest().take(4 + n),
            agree(f, comment, compression, master_cipher, master_iv, master_seed, protected_stream_key, stream_cipher, stream_start_bytes, transform_rounds, transform_seed),
        ensures
            header(s0, Map::empty()) == Header::Done(f, n),
        decreases reader.rest().len()
@start
    broadcast use crate::rust_crypto::sha2::ax_sha256_len, crate::vx::lemma_pad32, crate::rust_crypto::symmetriccipher::ax_cbc_len, lemma_array_eq;
@before loop
    let ghost s0 = reader.rest();
    let ghost mut f: Fields = Map::empty();
    let ghost mut n: int = 0;
    proof { assert(s0.skip(0) =~= s0); }
@loopstart 0
        let ghost s = reader.rest();
        let ghost d = field(s[0], s.skip(1));
        proof {
            if let (true, Ok(x)) = (s.len() > 0, d) {
                let k = 3 + x.len();
                assert(s.skip(1).skip(k - 1) =~= s.skip(k as int));
                f = if s[0] == 0 { f } else { f.insert(s[0], x) };
                n = n + k;
            }
        }
