# writing the outer header and payload: C01, C05, C06, C07, C09, C17
@module format::kdb2_writer
@top
use crate::vx::io::{Io, gave, failed};
use crate::vx::io::write_err;
use crate::vx::byteorder::le_bytes;
use crate::vx::{cbc_enc, pad32, sha256};
use crate::vx::flate2::gz;
use crate::vx::rand::rngs::from_os;
use crate::types::transformed_key::master;
use crate::format::kdb2_reader::{aes_id, zeros};
pub open spec fn signature() -> Seq<u8> { seq![0x03u8, 0xd9, 0xa2, 0x9a, 0x67, 0xfb, 0x4b, 0xb5] }
/// The sink failed with this error, or took nothing.
pub open spec fn sink_err<S: Io + ?Sized>(a: &S, e: Error) -> bool { e matches Error::Io(x) && write_err(a, x) }
/// A header field.
pub open spec fn field_bytes(id: u8, d: Seq<u8>) -> Seq<u8> { seq![id] + le_bytes(d.len(), 2) + d }
pub open spec fn comment_bytes(c: Option<Comment>) -> Seq<u8> { match c { Some(x) => field_bytes(1, x.0@), None => seq![] } }
/// The secrets of one save.
pub struct Secrets { pub transform_seed: Seq<u8>, pub master_iv: Seq<u8>, pub master_seed: Seq<u8>, pub stream_key: Seq<u8>, pub start: Seq<u8> }
pub open spec fn version_bytes(v: Version) -> Seq<u8> { le_bytes(v.minor as nat, 2) + le_bytes(v.major as nat, 2) }
/// The outer header.
pub open spec fn head(db: Database, x: Secrets) -> Seq<u8> {
    Seq::<u8>::empty() + signature().take(4) + signature().skip(4) + version_bytes(db.version) + comment_bytes(db.comment)
        + field_bytes(2, aes_id())
        + field_bytes(3, le_bytes(if db.compression is GZip { 1 } else { 0 }, 4))
        + field_bytes(4, x.master_seed)
        + field_bytes(5, x.transform_seed)
        + field_bytes(6, le_bytes(db.transform_rounds.0 as nat, 8))
        + field_bytes(7, x.master_iv)
        + field_bytes(8, x.stream_key)
        + field_bytes(10, le_bytes(2, 4))
        + field_bytes(9, x.start)
        + field_bytes(0, seq![])
}
pub open spec fn block_bytes(i: nat, d: Seq<u8>) -> Seq<u8> { le_bytes(i, 4) + sha256(d) + le_bytes(d.len(), 4) + d }
/// Blocks from number i on and the final block.
pub open spec fn blocks_bytes(i: nat, bs: Seq<Seq<u8>>) -> Seq<u8> decreases bs.len() {
    if bs.len() == 0 { le_bytes(i, 4) + zeros(32) + le_bytes(0, 4) } else { block_bytes(i, bs[0]) + blocks_bytes(i + 1, bs.skip(1)) }
}
pub proof fn lemma_le_len(v: nat, n: nat) ensures le_bytes(v, n).len() == n decreases n { if n > 0 { lemma_le_len(v / 256, (n - 1) as nat); } }
/// The same from the other end: the blocks alone.
pub open spec fn data_blocks(bs: Seq<Seq<u8>>) -> Seq<u8> decreases bs.len() {
    if bs.len() == 0 { seq![] } else { data_blocks(bs.drop_last()) + block_bytes((bs.len() - 1) as nat, bs.last()) }
}
pub open spec fn final_block(i: nat) -> Seq<u8> { le_bytes(i, 4) + zeros(32) + le_bytes(0, 4) }
pub open spec fn stored(c: Compression, xml: Seq<u8>) -> Seq<u8> { if c is GZip { gz(xml) } else { xml } }
/// The pieces a document is stored in.
pub open spec fn pieces(d: Seq<u8>) -> Seq<Seq<u8>> { crate::vx::cut(d, 0xffff_ffff) }
proof fn lemma_pieces(d: Seq<u8>)
    ensures forall|i: int| 0 <= i < pieces(d).len() ==> 0 < (#[trigger] pieces(d)[i]).len() <= 0xffff_ffff, pieces(d).len() <= d.len(), pieces(d).len() * 0xffff_ffff <= d.len() + 0xffff_ffff
    decreases d.len()
{
    if d.len() > 0xffff_ffff {
        lemma_pieces(d.skip(0xffff_ffff));
        let p = pieces(d.skip(0xffff_ffff));
        assert forall|i: int| 0 <= i < pieces(d).len() implies 0 < (#[trigger] pieces(d)[i]).len() <= 0xffff_ffff by { if i > 0 { assert(pieces(d)[i] == p[i - 1]); } }
    }
}
/// A whole file: header and encrypted payload around the document.
pub open spec fn file(db: Database, x: Secrets, xml: Seq<u8>) -> Seq<u8> {
    head(db, x) + cbc_enc(master(pad32(db.composite_key.0@), x.transform_seed, db.transform_rounds.0 as nat, x.master_seed), x.master_iv,
        x.start + chain(stored(db.compression, xml)))
}
/// The blocks a document is stored in.
pub open spec fn chain(d: Seq<u8>) -> Seq<u8> { data_blocks(pieces(d)) + final_block(pieces(d).len()) }
/// What was added to the sink.
pub open spec fn since(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { b.skip(a.len() as int) }
/// The sink has taken s since a, and recorded just that.
#[verifier::opaque]
#[verifier::prophetic] pub open spec fn both<S: Io + ?Sized>(a: &S, w: &S, s: Seq<u8>) -> bool { w.out() == a.out() + s && w.log_data() == s && w.logging() && w.fault() == a.fault() && w.last() == a.last() }
proof fn lemma_none<S: Io + ?Sized>(a: &S) requires a.logging(), a.log_data().len() == 0 ensures both(a, a, seq![])
{ reveal(both); assert(a.out() + Seq::<u8>::empty() =~= a.out()); assert(a.log_data() =~= seq![]); }
proof fn lemma_shown<S: Io + ?Sized>(a: &S, w: &S, s: Seq<u8>) requires both(a, w, s) ensures w.out() == a.out() + s && w.log_data() == s && w.last() == a.last()
{ reveal(both); }
broadcast proof fn lemma_both<S: Io + ?Sized>(a: &S, w: &S, s: Seq<u8>, w2: &S, t: Seq<u8>)
    requires #[trigger] both(a, w, s), #[trigger] gave(w, w2, t)
    ensures both(a, w2, s + t)
{ reveal(both); assert(w2.out() =~= a.out() + (s + t)); }
proof fn lemma_whole<S: Io + ?Sized>(a: &S, b: &S, db: Database, x: Secrets, xml: Seq<u8>, mk: Seq<u8>, enc: Seq<u8>)
    requires
        b.out() == (a.out() + head(db, x)) + enc,
        mk == sha256(x.master_seed + pad32(crate::types::transformed_key::transformed(pad32(db.composite_key.0@), x.transform_seed, db.transform_rounds.0 as nat))),
        enc == cbc_enc(pad32(mk), x.master_iv, x.start + chain(stored(db.compression, xml))),
    ensures since(a.out(), b.out()) == file(db, x, xml), a.out().is_prefix_of(b.out())
{
    broadcast use crate::rust_crypto::sha2::ax_sha256_len, crate::vx::lemma_pad32;
    assert(since(a.out(), b.out()) =~= head(db, x) + enc);
}
spec fn bag(d: Seq<Seq<u8>>) -> vstd::multiset::Multiset<Seq<u8>> {
    vstd::multiset::Multiset::empty().insert(d[0]).insert(d[1]).insert(d[2]).insert(d[3]).insert(d[4])
}
/// Five draws, each used once, in whatever order.
proof fn lemma_drawn(x: Secrets, d: Seq<Seq<u8>>)
    requires d.len() == 5, from_os(d), sorted_out(x, d)
    ensures exists|d: Seq<Seq<u8>>| #[trigger] from_os(d) && secrets_of(x).subset_of(d.to_multiset())
{
    broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    let e = Seq::<Seq<u8>>::empty();
    assert(d =~= e.push(d[0]).push(d[1]).push(d[2]).push(d[3]).push(d[4]));
    assert(d.to_multiset() =~= bag(d));
    assert(secrets_of(x) =~= bag(d));
}
spec fn sorted_out(x: Secrets, d: Seq<Seq<u8>>) -> bool { secrets_of(x) =~= bag(d) }
proof fn lemma_zero(p: Seq<Seq<u8>>) ensures data_blocks(p.take(0)) == Seq::<u8>::empty() {}
proof fn lemma_more(p: Seq<Seq<u8>>, i: int) requires 0 <= i < p.len() ensures data_blocks(p.take(i + 1)) == data_blocks(p.take(i)) + block_bytes(i as nat, p[i])
{ assert(p.take(i + 1).drop_last() =~= p.take(i)); }
proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub open spec fn concat(bs: Seq<Seq<u8>>) -> Seq<u8> decreases bs.len() { if bs.len() == 0 { seq![] } else { concat(bs.drop_last()) + bs.last() } }
pub open spec fn secrets_of(x: Secrets) -> vstd::multiset::Multiset<Seq<u8>> {
    vstd::multiset::Multiset::empty().insert(x.transform_seed).insert(x.master_iv).insert(x.master_seed).insert(x.stream_key).insert(x.start)
}
/// What is known of the document written for a database, header hash and inner key.
/// Each secret comes from its own draw from the operating system's source, and has its full length.
pub open spec fn fresh(x: Secrets) -> bool {
    &&& exists|d: Seq<Seq<u8>>| #[trigger] from_os(d) && secrets_of(x).subset_of(d.to_multiset())
    &&& sized(x)
}
pub open spec fn sized(x: Secrets) -> bool { x.transform_seed.len() == 32 && x.master_iv.len() == 16 && x.master_seed.len() == 32 && x.stream_key.len() == 32 && x.start.len() == 32 }
@fn write_header_id
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), seq![id]), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_header_size
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), le_bytes(size as nat, 2)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_bytes
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), bytes@), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_sig_1
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), signature().take(4)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@start
        proof { assert(common::DB_SIGNATURE@ =~= signature().take(4)); }
@fn write_sig_2
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), signature().skip(4)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@start
        proof { assert(common::KDB2_SIGNATURE@ =~= signature().skip(4)); }
@fn write_version
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), version_bytes(*version)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_comment
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), comment_bytes(*opt)) && (opt matches Some(c) ==> c.0@.len() <= 0xffff), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e) || (opt matches Some(c) && c.0@.len() > 0xffff), //@C05
@fn write_master_cipher
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(2, aes_id())), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@start
        proof { assert(kdb2::AES_CIPHER_ID@ =~= aes_id()); }
@fn write_compression
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(3, le_bytes(if compression is GZip { 1 } else { 0 }, 4))), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@start
        proof { lemma_le_len(if compression is GZip { 1 } else { 0 }, 4); }
@fn write_master_seed
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(4, seed.0@)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_transform_seed
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(5, seed.0@)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_transform_rounds
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(6, le_bytes(rounds.0 as nat, 8))), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@start
        proof { lemma_le_len(rounds.0 as nat, 8); }
@fn write_master_iv
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(7, iv.0@)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_protected_stream_key
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(8, key.0@)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_stream_cipher
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(10, le_bytes(2, 4))), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@start
        proof { lemma_le_len(2, 4); }
@fn write_stream_start_bytes
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(9, bytes.0@)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_end_header
@props C05 C06
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), field_bytes(0, seq![])), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_block
@props C05 C09
@ret r
@spec
    requires data@.len() <= 0xffff_ffff,
    ensures
        r is Ok ==> gave(old(writer), final(writer), block_bytes(id as nat, data@)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@fn write_block_final
@props C05 C09
@ret r
@spec
    ensures
        r is Ok ==> gave(old(writer), final(writer), final_block(id as nat)), //@C05 @C06
        r matches Err(e) ==> sink_err(old(writer), e), //@C05
@start
        proof { assert(kdb2::FINAL_BLOCK_HASH@ =~= zeros(32)); }
@fn compress
@props C09
@ret r
@spec
    ensures r matches Ok(v) ==> v@ == stored(*compression, data@),
@fn write
@props C05 C06 C07 C08 C09 C17
@ret r
@spec
    requires
        old(writer).logging(), old(writer).log_data().len() == 0,
    ensures
        r is Ok ==> exists|x: Secrets, xml: Seq<u8>| #[trigger] file(*db, x, xml) == since(old(writer).out(), (*final(writer)).out())
            && crate::format::kdb2_xml_writer::stands_for(xml, *db, sha256(head(*db, x)), sha256(x.stream_key)) && sized(x), //@C01 @C05 @C06 @C07 @C08 @C09
        r is Ok ==> exists|x: Secrets, xml: Seq<u8>| #[trigger] file(*db, x, xml) == since(old(writer).out(), (*final(writer)).out()) && fresh(x), //@C17
        r is Ok ==> (*final(writer)).last() == (*old(writer)).last(), //@C05
        r is Ok ==> old(writer).out().is_prefix_of((*final(writer)).out()), //@C05
        r is Ok ==> (db.comment matches Some(c) ==> c.0@.len() <= 0xffff), //@C06
@start
    hide(data_blocks);
    hide(block_bytes);
    hide(final_block);
    hide(crate::vx::cut);
    hide(le_bytes);
    hide(head);
    hide(crate::types::transformed_key::rounds_of);
    hide(crate::types::transformed_key::transformed);
    proof { lemma_none(writer); }
    broadcast use lemma_both;
@loop 0 it
        invariant
            it.seq().len() == pieces(compressed@).len(),
            forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == pieces(compressed@)[i],
            payload@ == stream_start_bytes.0@ + data_blocks(pieces(compressed@).take(it.index@)),
            block_id == it.index@,
            compressed@.len() <= 0x7fff_ffff_ffff_ffff,
            pieces(compressed@).len() * 0xffff_ffff <= compressed@.len() + 0xffff_ffff,
            forall|i: int| 0 <= i < pieces(compressed@).len() ==> 0 < (#[trigger] pieces(compressed@)[i]).len() <= 0xffff_ffff,
@before let mut block_id
    proof { lemma_pieces(compressed@); crate::vx::lemmas::ax_vec_len(compressed); lemma_zero(pieces(compressed@)); assert(stream_start_bytes.0@ + Seq::<u8>::empty() =~= stream_start_bytes.0@); }
@before let encrypted
    proof {
        lemma_assoc(stream_start_bytes.0@, data_blocks(pieces(compressed@)), final_block(pieces(compressed@).len()));
        assert(pieces(compressed@).take(pieces(compressed@).len() as int) =~= pieces(compressed@));
        assert(payload@ == stream_start_bytes.0@ + chain(stored(db.compression, xml@)));
    }
@before let hash
    let ghost x = Secrets { transform_seed: transform_seed.0@, master_iv: master_iv.0@, master_seed: master_seed.0@, stream_key: protected_stream_key.0@, start: stream_start_bytes.0@ };
    proof {
        assert(both(old(writer), writer, head(*db, x))) by { reveal(head); }
        lemma_shown(old(writer), writer, head(*db, x));
    }
@loopend 0
        proof {
            lemma_more(pieces(compressed@), it.index@);
            assert(payload@ =~= stream_start_bytes.0@ + data_blocks(pieces(compressed@).take(it.index@ + 1)));
        }
@tail
    proof {
        lemma_whole(old(writer), writer, *db, x, xml@, master_key.0@, encrypted@);
        assert(sorted_out(x, random.0.draws())) by { broadcast use vstd::multiset::group_multiset_axioms; }
        lemma_drawn(x, random.0.draws());
    }
