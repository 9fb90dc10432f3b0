# hashing, ciphers, random numbers, key derivation: C07, C08, C17
@module crypto::sha256
@top
use crate::vx::{flat, sha256};
@fn hash
@attr #[verifier::loop_isolation(false)]
@props C07 C02 C06
@ret r
@spec
    ensures
        r@ == sha256(flat(inputs@)),
        inputs@.len() == 1 ==> r@ == sha256(inputs@[0]@),
        inputs@.len() == 2 ==> r@ == sha256(inputs@[0]@ + inputs@[1]@),
@start
        broadcast use crate::rust_crypto::sha2::ax_sha256_len;
@tail
        proof {
            reveal_with_fuel(flat, 3);
            assert(inputs@.take(inputs@.len() as int) =~= inputs@);
            assert(seq![] + inputs@[0]@ =~= inputs@[0]@);
            assert(result@ =~= sha256(flat(inputs@)));
        }
@loopend 0
            proof { assert(inputs@.take(it.index@ + 1).drop_last() =~= inputs@.take(it.index@)); }
@loop 0 it
        invariant
            hasher.fed() == flat(inputs@.take(it.index@)),
@module crypto::random_gen
@top
use crate::vx::rand::rngs::from_os;
@fn RandomGen::new
@props C17
@ret r
@spec
    ensures r matches Ok(g) && g.0.draws() == Seq::<Seq<u8>>::empty() && from_os(g.0.draws()),
@fn RandomGen::next_16_bytes
@props C17
@ret r
@spec
    requires from_os(old(self).0.draws()),
    ensures final(self).0.draws() == old(self).0.draws().push(r@), from_os(final(self).0.draws()),
@fn RandomGen::next_32_bytes
@props C17
@ret r
@spec
    requires from_os(old(self).0.draws()),
    ensures final(self).0.draws() == old(self).0.draws().push(r@), from_os(final(self).0.draws()),
@module crypto::salsa20
@top
use crate::vx::xored;
pub open spec fn nonce() -> Seq<u8> { seq![0xe8u8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a] }
/// The inner keystream under a key.
pub open spec fn keystream(key: Seq<u8>) -> spec_fn(int) -> u8 { crate::rust_crypto::salsa20::salsa20(key, nonce()) }
/// C08: the same piece of keystream takes the data back to what they were.
pub proof fn xoring_twice_gives_the_data_back(d: Seq<u8>, ks: spec_fn(int) -> u8, pos: int)
    ensures xored(xored(d, ks, pos), ks, pos) == d
{
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] xored(xored(d, ks, pos), ks, pos)[i] == d[i] by {
        let a = d[i]; let b = ks(pos + i);
        assert((a ^ b) ^ b == a) by (bit_vector);
    }
    assert(xored(xored(d, ks, pos), ks, pos) =~= d);
}
@fn decrypt
@props C08
@ret r
@spec
    ensures
        r@ == xored(input@, old(cipher).ks(), old(cipher).pos()),
        final(cipher).pos() == old(cipher).pos() + input@.len(), final(cipher).ks() == old(cipher).ks(),
@fn encrypt
@props C08
@ret r
@spec
    ensures
        r@ == xored(input@, old(cipher).ks(), old(cipher).pos()),
        final(cipher).pos() == old(cipher).pos() + input@.len(), final(cipher).ks() == old(cipher).ks(),
@fn new_cipher
@props C07 C08
@ret r
@spec
    ensures r.pos() == 0, r.ks() == keystream(key.0@),
@start
        proof { assert(SALSA20_NOUNCE@ =~= nonce()); }
@fn process
@props C08
@ret r
@spec
    ensures
        r@ == xored(input@, old(cipher).ks(), old(cipher).pos()),
        final(cipher).pos() == old(cipher).pos() + input@.len(), final(cipher).ks() == old(cipher).ks(),
@module crypto::aes256
@top
use crate::vx::{cbc_dec, cbc_enc, cbc_raw, pad32, unpadded};
@fn decrypt
@props C02 C03 C04 C07
@ret r
@spec
    ensures
        r matches Ok(v) ==> cbc_dec(pad32(key.0@), iv.0@, input@) == Some(v@),
        r matches Err(e) ==> cbc_dec(pad32(key.0@), iv.0@, input@) is None && e is CryptoError,
@loop 0
        invariant
            cipher.key() == pad32(key.0@), cipher.iv() == iv.0@, read_buffer.all() == input@, cipher.at() == read_buffer.at(),
            write_buffer@ == Seq::<u8>::empty(), write_buffer.cap() == 4096,
            cbc_raw(pad32(key.0@), iv.0@, input@) matches Some(f) ==> 0 <= cipher.done() <= f.len() && output@ == f.take(cipher.done()),
        ensures
            cbc_raw(pad32(key.0@), iv.0@, input@) == Some(output@),
        decreases cipher.left()
@fn strip_padding
@attr #[verifier::loop_isolation(false)]
@props C02 C03 C04
@ret r
@spec
    ensures
        r matches Ok(v) ==> unpadded(data@) == Some(v@),
        r matches Err(e) ==> unpadded(data@) is None && e is CryptoError,
@loop 0 it
        invariant
            0 < count <= 16, count <= data@.len(), data@.len() > 0, count == data@.last() as int, start == data@.len() - count,
            forall|k: int| start <= k < i ==> data@[k] == data@.last(),
@fn encrypt
@props C01 C07
@ret r
@spec
    ensures
        r matches Ok(v) ==> v@ == cbc_enc(pad32(key.0@), iv.0@, input@),
@loop 0
        invariant
            cipher.key() == pad32(key.0@), cipher.iv() == iv.0@, read_buffer.all() == input@, cipher.at() == read_buffer.at(),
            write_buffer@ == Seq::<u8>::empty(), write_buffer.cap() == 4096,
            0 <= cipher.done() <= cbc_enc(pad32(key.0@), iv.0@, input@).len() && output@ == cbc_enc(pad32(key.0@), iv.0@, input@).take(cipher.done()),
        ensures
            output@ == cbc_enc(pad32(key.0@), iv.0@, input@),
        decreases cipher.left()
@module compression::gzip
@top
use crate::vx::flate2::{gunzip, gz};
@fn decode
@props C09 C03
@ret r
@spec
    ensures
        r is Ok <==> gunzip(input@) is Some,
        r matches Ok(v) ==> gunzip(input@) == Some(v@),
        r matches Err(e) ==> e matches crate::types::Error::Io(x) && crate::vx::flate2::from_flate2(x),
@fn encode
@props C09
@ret r
@spec
    ensures r matches Ok(v) ==> v@ == gz(input@),

@module types::composite_key
@top
use crate::vx::{flat, sha256, pad32, utf8};
/// KeePass's composite key of a password and a key file's key, each where there is one.
pub open spec fn composite(password: Option<Seq<char>>, key: Option<Seq<u8>>) -> Seq<u8> {
    sha256((match password { Some(p) => sha256(utf8(p)), None => seq![] }) + (match key { Some(k) => k, None => seq![] }))
}
@fn CompositeKey::from_both
@props C07
@ret r
@spec
    ensures r.0@ == composite(Some(password.vinto()), Some(key_file.key@)),
@start
        broadcast use crate::vx::ax_text_of, crate::rust_crypto::sha2::ax_sha256_len;
@fn CompositeKey::from_key_file
@props C07
@ret r
@spec
    ensures r.0@ == composite(None, Some(key_file.key@)),
@fn CompositeKey::from_password
@props C07
@ret r
@spec
    ensures r.0@ == composite(Some(password.vinto()), None),
@start
        broadcast use crate::vx::ax_text_of, crate::rust_crypto::sha2::ax_sha256_len;
        proof { assert forall|a: Seq<u8>| #[trigger] (a + Seq::<u8>::empty()) == a by { assert(a + Seq::<u8>::empty() =~= a); } }
@fn CompositeKey::unsecure
@props C07
@ret r
@spec
    ensures r@ == pad32(self.0@),
@fn CompositeKey::secure
@props C07
@ret r
@spec
    ensures r.0@ == key@,
@module types::master_key
@top
use crate::vx::{flat, sha256, pad32};
@fn MasterKey::new
@props C07
@ret r
@spec
    ensures r.0@ == sha256(seed.0@ + pad32(key.0@)),
@fn MasterKey::unsecure
@props C07
@ret r
@spec
    ensures r@ == pad32(self.0@),
@fn MasterKey::secure
@props C07
@ret r
@spec
    ensures r.0@ == key@,
@module types::stream_key
@top
use crate::vx::{flat, sha256};
@fn StreamKey::new
@props C07
@ret r
@spec
    ensures r.0@ == sha256(key.0@),
@fn StreamKey::unpack
@props C07
@ret r
@spec
    ensures r@ == self.0@,
@module types::transformed_key
@top
use crate::vx::{flat, sha256, pad32, aes_block};
/// Both halves after n encryptions under the seed.
pub open spec fn rounds_of(key: Seq<u8>, seed: Seq<u8>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { key } else {
        let p = rounds_of(key, seed, (n - 1) as nat);
        aes_block(seed, p.subrange(0, 16)) + aes_block(seed, p.subrange(16, 32))
    }
}
/// The transformed key.
pub open spec fn transformed(key: Seq<u8>, seed: Seq<u8>, n: nat) -> Seq<u8> { sha256(rounds_of(key, seed, n)) }
/// The master key from the composite key, the seeds and the number of rounds.
pub open spec fn master(key: Seq<u8>, transform_seed: Seq<u8>, rounds: nat, master_seed: Seq<u8>) -> Seq<u8> {
    sha256(master_seed + transformed(key, transform_seed, rounds))
}
@fn TransformedKey::new
@attr #[verifier::loop_isolation(false)]
@props C07
@ret r
@spec
    ensures r.0@ == transformed(pad32(key.0@), seed.0@, rounds.0 as nat),
@loop 0 it
        invariant
            cipher.block_key() == seed.0@, tmp_key@ == rounds_of(pad32(key.0@), seed.0@, it.index@ as nat),
@loop 1 it
        invariant
            cipher.block_key() == seed.0@, tmp_key@ == rounds_of(pad32(key.0@), seed.0@, it.index@ as nat),
@fn TransformedKey::unsecure
@props C07
@ret r
@spec
    ensures r@ == pad32(self.0@),
@fn TransformedKey::secure
@props C07
@ret r
@spec
    ensures r.0@ == key@,
