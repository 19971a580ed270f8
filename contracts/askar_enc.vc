askar-crypto's traits and types for encryption and key derivation: uninterpreted, with the contracts of its documentation.

@module crate::askar_crypto::encrypt
@raw
use crate::askar_crypto::{Error, CResult}; use crate::askar_crypto::buffer::SecretBytes;
pub struct KeyAeadParams { pub nonce_length: usize, pub tag_length: usize }
/// buf is text sealed under the key k: a ciphertext of n bytes, then the tag
pub uninterp spec fn sealed<K>(k: K, text: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, buf: Seq<u8>, n: int) -> bool;
/// what opening buf (ciphertext, then tag) under the key k gives
pub uninterp spec fn opened<K>(k: K, buf: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>) -> Option<Seq<u8>>;
/// in a correct cipher, opening inverts sealing
pub open spec fn opens<K>(k: K) -> bool { forall|text: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, buf: Seq<u8>, n: int| #[trigger] sealed(k, text, nonce, aad, buf, n) ==> opened(k, buf, nonce, aad) == Some(text) }
pub trait KeyAeadInPlace: Sized {
    fn encrypt_in_place(&self, buf: &mut SecretBytes, nonce: &[u8], aad: &[u8]) -> (r: CResult<usize>) ensures r is Ok ==> sealed(*self, old(buf).v@, nonce@, aad@, final(buf).v@, r->Ok_0 as int) && r->Ok_0 <= final(buf).v@.len();
    fn decrypt_in_place(&self, buf: &mut SecretBytes, nonce: &[u8], aad: &[u8]) -> (r: CResult<()>) ensures match r { Ok(_) => opened(*self, old(buf).v@, nonce@, aad@) == Some(final(buf).v@), Err(_) => opened(*self, old(buf).v@, nonce@, aad@) is None };
    fn aead_params(&self) -> (r: KeyAeadParams) ensures r.tag_length <= 64, r.nonce_length <= 64;
}
pub trait KeyAeadMeta: Sized { fn random_nonce() -> (r: Vec<u8>); }

@module crate::askar_crypto::random
@raw
pub struct Rng { pub r: u8 }
#[verifier::external_body] pub fn default_rng() -> (r: Rng) { unimplemented!() }

@module crate::askar_crypto::repr
@raw
use crate::askar_crypto::buffer::SecretBytes; use crate::askar_crypto::random::Rng;
/// k comes from the generator
pub uninterp spec fn generated<K>(k: K) -> bool;
pub trait KeyGen: Sized { fn generate(rng: &mut Rng) -> (r: CResult<Self>) ensures r is Ok ==> generated(r->Ok_0); }
/// (secret lengths are those of the library's keys)
pub trait ToSecretBytes: Sized {
    fn secret_bytes_length(&self) -> (r: CResult<usize>) ensures r is Ok ==> r->Ok_0 <= 1024;
    fn write_secret_bytes(&self, out: &mut SecretBytes) -> (r: CResult<()>) ensures match r { Ok(_) => secret_of(*self) is Some && final(out).v@ == old(out).v@ + secret_of(*self)->0 && (old(out).v@.len() == 0 ==> final(out).v@ == secret_of(*self)->0), Err(_) => true };
}

@module crate::askar_crypto::kdf
@raw
use crate::askar_crypto::{Error, CResult};
pub trait KeyExchange: Sized {}
/// the key that ECDH-ES / ECDH-1PU give for these keys and this public information, as the sending or the receiving side
pub uninterp spec fn kdf_es<K, W>(e: K, r: K, alg: Seq<u8>, apu: Seq<u8>, apv: Seq<u8>, receive: bool) -> Option<W>;
pub uninterp spec fn kdf_1pu<K, W>(e: K, s: K, r: K, alg: Seq<u8>, apu: Seq<u8>, apv: Seq<u8>, tag: Seq<u8>, receive: bool) -> Option<W>;
pub trait KeyDerivation: Sized { spec fn gives<W>(self) -> Option<W>; }
pub trait FromKeyDerivation: Sized { fn from_key_derivation<D: KeyDerivation>(d: D) -> (r: CResult<Self>) ensures match r { Ok(k) => d.gives::<Self>() == Some(k), Err(_) => d.gives::<Self>() is None }; }

@module crate::askar_crypto::kdf::ecdh_es
@raw
use crate::askar_crypto::kdf::*;
pub struct EcdhEs<'d, K> { pub e: &'d K, pub r: &'d K, pub alg: &'d [u8], pub apu: &'d [u8], pub apv: &'d [u8], pub receive: bool }
impl<'d, K: KeyExchange> EcdhEs<'d, K> { pub fn new(e: &'d K, r: &'d K, alg: &'d [u8], apu: &'d [u8], apv: &'d [u8], receive: bool) -> (x: Self) ensures x == (EcdhEs { e, r, alg, apu, apv, receive }) { EcdhEs { e, r, alg, apu, apv, receive } } }
impl<'d, K: KeyExchange> KeyDerivation for EcdhEs<'d, K> { open spec fn gives<W>(self) -> Option<W> { kdf_es(*self.e, *self.r, self.alg@, self.apu@, self.apv@, self.receive) } }

@module crate::askar_crypto::kdf::ecdh_1pu
@raw
use crate::askar_crypto::kdf::*;
pub struct Ecdh1PU<'d, K> { pub e: &'d K, pub s: &'d K, pub r: &'d K, pub alg: &'d [u8], pub apu: &'d [u8], pub apv: &'d [u8], pub tag: &'d [u8], pub receive: bool }
impl<'d, K: KeyExchange> Ecdh1PU<'d, K> { pub fn new(e: &'d K, s: &'d K, r: &'d K, alg: &'d [u8], apu: &'d [u8], apv: &'d [u8], tag: &'d [u8], receive: bool) -> (x: Self) ensures x == (Ecdh1PU { e, s, r, alg, apu, apv, tag, receive }) { Ecdh1PU { e, s, r, alg, apu, apv, tag, receive } } }
impl<'d, K: KeyExchange> KeyDerivation for Ecdh1PU<'d, K> { open spec fn gives<W>(self) -> Option<W> { kdf_1pu(*self.e, *self.s, *self.r, self.alg@, self.apu@, self.apv@, self.tag@, self.receive) } }

@module crate::askar_crypto::alg::aes
@raw
use crate::askar_crypto::{Error, CResult}; use crate::askar_crypto::buffer::SecretBytes; use crate::askar_crypto::{encrypt::*, kdf::*, repr::*, random::Rng};
pub struct A128Kw { pub a: u8 } pub struct A256Kw { pub a: u8 } pub struct A256CbcHs512 { pub a: u8 } pub struct A256Gcm { pub a: u8 }
#[verifier::accept_recursive_types(T)] pub struct AesKey<T> { pub t: core::marker::PhantomData<T>, pub k: u8 }
impl<T> KeyAeadInPlace for AesKey<T> {
    #[verifier::external_body] fn encrypt_in_place(&self, buf: &mut SecretBytes, nonce: &[u8], aad: &[u8]) -> (r: CResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn decrypt_in_place(&self, buf: &mut SecretBytes, nonce: &[u8], aad: &[u8]) -> (r: CResult<()>) { unimplemented!() }
    #[verifier::external_body] fn aead_params(&self) -> (r: KeyAeadParams) { unimplemented!() } }
impl<T> KeyAeadMeta for AesKey<T> { #[verifier::external_body] fn random_nonce() -> (r: Vec<u8>) { unimplemented!() } }
impl<T> KeyGen for AesKey<T> { #[verifier::external_body] fn generate(rng: &mut Rng) -> (r: CResult<Self>) { unimplemented!() } }
impl<T> FromKeyDerivation for AesKey<T> { #[verifier::external_body] fn from_key_derivation<D: KeyDerivation>(d: D) -> (r: CResult<Self>) { unimplemented!() } }
impl<T> KeySecretBytes for AesKey<T> { #[verifier::external_body] fn from_secret_bytes(b: &[u8]) -> (r: CResult<Self>) { unimplemented!() } #[verifier::external_body] fn vx_with_secret_bytes(&self) -> (r: Option<&[u8]>) { unimplemented!() } }
impl<T> ToSecretBytes for AesKey<T> { #[verifier::external_body] fn secret_bytes_length(&self) -> (r: CResult<usize>) { unimplemented!() } #[verifier::external_body] fn write_secret_bytes(&self, out: &mut SecretBytes) -> (r: CResult<()>) { unimplemented!() } }

@module crate::askar_crypto::alg::chacha20
@raw
use crate::askar_crypto::{Error, CResult}; use crate::askar_crypto::buffer::SecretBytes; use crate::askar_crypto::{encrypt::*, kdf::*, repr::*, random::Rng};
pub struct XC20P { pub a: u8 }
#[verifier::accept_recursive_types(T)] pub struct Chacha20Key<T> { pub t: core::marker::PhantomData<T>, pub k: u8 }
impl<T> KeyAeadInPlace for Chacha20Key<T> {
    #[verifier::external_body] fn encrypt_in_place(&self, buf: &mut SecretBytes, nonce: &[u8], aad: &[u8]) -> (r: CResult<usize>) { unimplemented!() }
    #[verifier::external_body] fn decrypt_in_place(&self, buf: &mut SecretBytes, nonce: &[u8], aad: &[u8]) -> (r: CResult<()>) { unimplemented!() }
    #[verifier::external_body] fn aead_params(&self) -> (r: KeyAeadParams) { unimplemented!() } }
impl<T> KeyAeadMeta for Chacha20Key<T> { #[verifier::external_body] fn random_nonce() -> (r: Vec<u8>) { unimplemented!() } }
impl<T> KeyGen for Chacha20Key<T> { #[verifier::external_body] fn generate(rng: &mut Rng) -> (r: CResult<Self>) { unimplemented!() } }
impl<T> KeySecretBytes for Chacha20Key<T> { #[verifier::external_body] fn from_secret_bytes(b: &[u8]) -> (r: CResult<Self>) { unimplemented!() } #[verifier::external_body] fn vx_with_secret_bytes(&self) -> (r: Option<&[u8]>) { unimplemented!() } }
impl<T> ToSecretBytes for Chacha20Key<T> { #[verifier::external_body] fn secret_bytes_length(&self) -> (r: CResult<usize>) { unimplemented!() } #[verifier::external_body] fn write_secret_bytes(&self, out: &mut SecretBytes) -> (r: CResult<()>) { unimplemented!() } }

@module crate::askar_crypto::alg
@raw
use crate::askar_crypto::{Error, CResult}; use crate::askar_crypto::{kdf::*, repr::*, jwk::*, random::Rng}; use x25519::*; use p256::*; use ed25519::*;
impl KeyExchange for X25519KeyPair {} impl KeyExchange for P256KeyPair {}
impl KeyGen for X25519KeyPair { #[verifier::external_body] fn generate(rng: &mut Rng) -> (r: CResult<Self>) { unimplemented!() } }
impl KeyGen for P256KeyPair { #[verifier::external_body] fn generate(rng: &mut Rng) -> (r: CResult<Self>) { unimplemented!() } }
impl ToJwk for X25519KeyPair { #[verifier::external_body] fn to_jwk_public(&self, alg: Option<KeyAlg>) -> (r: CResult<String>) { unimplemented!() } }
impl ToJwk for P256KeyPair { #[verifier::external_body] fn to_jwk_public(&self, alg: Option<KeyAlg>) -> (r: CResult<String>) { unimplemented!() } }
impl ToJwk for Ed25519KeyPair { #[verifier::external_body] fn to_jwk_public(&self, alg: Option<KeyAlg>) -> (r: CResult<String>) { unimplemented!() } }

@module crate::askar_crypto::jwk
@raw
pub enum KeyAlg { Any }
/// the text of a key's public JWK
pub uninterp spec fn public_jwk<K>(k: K) -> Seq<char>;
pub trait ToJwk: Sized { fn to_jwk_public(&self, alg: Option<KeyAlg>) -> (r: CResult<String>) ensures r is Ok && alg is None ==> r->Ok_0@ == public_jwk(*self); }
