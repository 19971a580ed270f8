@module crate::askar_crypto
@raw
/// opaque errors of the cryptography library
pub struct Error { pub e: u8 }
/// lengths of byte slices: no allocation is longer
pub broadcast axiom fn bytes_len(s: &[u8]) ensures #[trigger] s@.len() <= isize::MAX;
pub type CResult<T> = core::result::Result<T, Error>;

@module crate::askar_crypto::buffer
@raw
/// a growing buffer of bytes
pub struct SecretBytes { pub v: Vec<u8> }
impl SecretBytes {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.v@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from_slice(d: &[u8]) -> (r: Self) ensures r.v@ == d@ { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice(&mut self, d: &[u8]) ensures final(self).v@ == old(self).v@ + d@, old(self).v@.len() == 0 ==> final(self).v@ == d@ { unimplemented!() }
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v@ { self.v.as_slice() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.v@ { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
}
impl crate::vx::Bytes for SecretBytes { open spec fn bv(&self) -> Seq<u8> { self.v@ } }

@module crate::askar_crypto::sign
@raw
use crate::askar_crypto::{Error, CResult}; use crate::askar_crypto::buffer::SecretBytes; use crate::askar_crypto::alg::{ed25519::*, x25519::*, p256::*, k256::*};
#[derive(Clone, Copy)]
pub enum SignatureType { EdDSA, ES256, ES256K }
/// the verdict on a signature of msg under the key k; None: the key cannot say (a type of signature it does not have, a malformed signature)
pub uninterp spec fn verdict<K>(k: K, msg: Seq<u8>, sig: Seq<u8>, t: Option<SignatureType>) -> Option<bool>;
/// sig is a signature that the key k makes of msg
pub uninterp spec fn signs<K>(k: K, msg: Seq<u8>, t: Option<SignatureType>, sig: Seq<u8>) -> bool;
/// p is the public half of k, in a correct signature scheme
pub open spec fn verifies<K, P>(k: K, p: P) -> bool { forall|m: Seq<u8>, t: Option<SignatureType>, s: Seq<u8>| #[trigger] signs(k, m, t, s) ==> verdict(p, m, s, t) == Some(true) }
pub trait KeySign: Sized { fn create_signature(&self, message: &[u8], sig_type: Option<SignatureType>) -> (r: CResult<SecretBytes>) ensures r is Ok ==> signs(*self, message@, sig_type, r->Ok_0.v@); }
pub trait KeySigVerify: Sized { fn verify_signature(&self, message: &[u8], signature: &[u8], sig_type: Option<SignatureType>) -> (r: CResult<bool>) ensures match r { Ok(b) => verdict(*self, message@, signature@, sig_type) == Some(b), Err(_) => verdict(*self, message@, signature@, sig_type) is None }; }
impl KeySign for Ed25519KeyPair { #[verifier::external_body] fn create_signature(&self, message: &[u8], sig_type: Option<SignatureType>) -> (r: CResult<SecretBytes>) { unimplemented!() } }
impl KeySigVerify for Ed25519KeyPair { #[verifier::external_body] fn verify_signature(&self, message: &[u8], signature: &[u8], sig_type: Option<SignatureType>) -> (r: CResult<bool>) { unimplemented!() } }
impl KeySign for P256KeyPair { #[verifier::external_body] fn create_signature(&self, message: &[u8], sig_type: Option<SignatureType>) -> (r: CResult<SecretBytes>) { unimplemented!() } }
impl KeySigVerify for P256KeyPair { #[verifier::external_body] fn verify_signature(&self, message: &[u8], signature: &[u8], sig_type: Option<SignatureType>) -> (r: CResult<bool>) { unimplemented!() } }
impl KeySign for K256KeyPair { #[verifier::external_body] fn create_signature(&self, message: &[u8], sig_type: Option<SignatureType>) -> (r: CResult<SecretBytes>) { unimplemented!() } }
impl KeySigVerify for K256KeyPair { #[verifier::external_body] fn verify_signature(&self, message: &[u8], signature: &[u8], sig_type: Option<SignatureType>) -> (r: CResult<bool>) { unimplemented!() } }

@module crate::askar_crypto::alg
@raw
pub mod ed25519 { pub struct Ed25519KeyPair { pub k: u8 } }
pub mod x25519 { pub struct X25519KeyPair { pub k: u8 } }
pub mod p256 { pub struct P256KeyPair { pub k: u8 } }
pub mod k256 { pub struct K256KeyPair { pub k: u8 } }

@module crate::askar_crypto::jwk
@raw
use crate::askar_crypto::{Error, CResult}; use crate::askar_crypto::alg::{ed25519::*, x25519::*, p256::*, k256::*};
/// reading a key from the text of a JWK: a function of that text
pub trait FromJwk: Sized { spec fn jwk_key(s: Seq<char>) -> Option<Self>; fn from_jwk(jwk: &str) -> (r: CResult<Self>) ensures match r { Ok(k) => Self::jwk_key(jwk@) == Some(k), Err(_) => Self::jwk_key(jwk@) is None }; }
pub uninterp spec fn key_of_text<K>(s: Seq<char>) -> Option<K>;
impl FromJwk for Ed25519KeyPair { open spec fn jwk_key(s: Seq<char>) -> Option<Self> { key_of_text(s) } #[verifier::external_body] fn from_jwk(jwk: &str) -> (r: CResult<Self>) { unimplemented!() } }
impl FromJwk for X25519KeyPair { open spec fn jwk_key(s: Seq<char>) -> Option<Self> { key_of_text(s) } #[verifier::external_body] fn from_jwk(jwk: &str) -> (r: CResult<Self>) { unimplemented!() } }
impl FromJwk for P256KeyPair { open spec fn jwk_key(s: Seq<char>) -> Option<Self> { key_of_text(s) } #[verifier::external_body] fn from_jwk(jwk: &str) -> (r: CResult<Self>) { unimplemented!() } }
impl FromJwk for K256KeyPair { open spec fn jwk_key(s: Seq<char>) -> Option<Self> { key_of_text(s) } #[verifier::external_body] fn from_jwk(jwk: &str) -> (r: CResult<Self>) { unimplemented!() } }

@module crate::askar_crypto::repr
@raw
use crate::askar_crypto::{Error, CResult}; use crate::askar_crypto::alg::{ed25519::*, x25519::*, p256::*, k256::*};
pub uninterp spec fn key_of_secret<K>(b: Seq<u8>) -> Option<K>;
pub uninterp spec fn secret_of<K>(k: K) -> Option<Seq<u8>>;
pub uninterp spec fn public_of<K>(k: K) -> Seq<u8>;
pub trait KeySecretBytes: Sized {
    fn from_secret_bytes(b: &[u8]) -> (r: CResult<Self>) ensures match r { Ok(k) => key_of_secret::<Self>(b@) == Some(k), Err(_) => key_of_secret::<Self>(b@) is None };
    fn vx_with_secret_bytes(&self) -> (r: Option<&[u8]>) ensures match r { Some(b) => secret_of(*self) == Some(b@), None => secret_of(*self) is None };
}
pub trait KeyPublicBytes: Sized {
    fn vx_with_public_bytes(&self) -> (r: &[u8]) ensures r@ == public_of(*self);
}
impl KeySecretBytes for X25519KeyPair { #[verifier::external_body] fn from_secret_bytes(b: &[u8]) -> (r: CResult<Self>) { unimplemented!() } #[verifier::external_body] fn vx_with_secret_bytes(&self) -> (r: Option<&[u8]>) { unimplemented!() } }
impl KeyPublicBytes for X25519KeyPair { #[verifier::external_body] fn vx_with_public_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl KeySecretBytes for Ed25519KeyPair { #[verifier::external_body] fn from_secret_bytes(b: &[u8]) -> (r: CResult<Self>) { unimplemented!() } #[verifier::external_body] fn vx_with_secret_bytes(&self) -> (r: Option<&[u8]>) { unimplemented!() } }
impl KeyPublicBytes for Ed25519KeyPair { #[verifier::external_body] fn vx_with_public_bytes(&self) -> (r: &[u8]) { unimplemented!() } }

@module crate::varint
@raw
pub const VARINT_32_MAX_BYTES: usize = 5;
pub struct IoError { pub e: u8 }
pub struct Cursor<T> { pub inner: T, pub at: Ghost<int> }
impl<T> Cursor<T> { pub fn new(x: T) -> (r: Self) ensures r.inner == x, r.at@ == 0 { Cursor { inner: x, at: Ghost(0) } } pub fn into_inner(self) -> (r: T) ensures r == self.inner { self.inner } }
/// how many bytes the varint at the beginning of s has, when it ends
pub open spec fn leb_len(s: Seq<u8>) -> Option<int> decreases s.len() { if s.len() == 0 { None } else if s[0] < 0x80 { Some(1) } else { match leb_len(s.skip(1)) { None => None, Some(n) => Some(n + 1) } } }
/// seven bits per byte, the lowest first
pub open spec fn leb_value(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 || s.len() == 0 { 0 } else { s[0] % 128 + 128 * leb_value(s.skip(1), n - 1) } }
/// the shortest form of v
pub open spec fn leb_bytes(v: int) -> Seq<u8> decreases v { if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + leb_bytes(v / 128) } }
impl Cursor<Vec<u8>> {
    /// (the crate's function panics, or drops bits, on a varint of more than five bytes; it is only specified for others)
    #[verifier::external_body] pub fn read_unsigned_varint_32(&mut self) -> (r: core::result::Result<u32, IoError>)
        requires old(self).at@ == 0, old(self).inner@.len() < 5 || exists|i: int| 0 <= i < 5 && #[trigger] old(self).inner@[i] < 0x80,
        ensures match r { Ok(v) => leb_len(old(self).inner@) is Some && v == leb_value(old(self).inner@, leb_len(old(self).inner@)->0) % 0x1_0000_0000, Err(_) => leb_len(old(self).inner@) is None }
    { unimplemented!() }
    #[verifier::external_body] pub fn write_unsigned_varint_32(&mut self, v: u32) -> (r: core::result::Result<(), IoError>)
        requires old(self).at@ == 0, old(self).inner@.len() == 0,
        ensures r is Ok, final(self).inner@ == leb_bytes(v as int)
    { unimplemented!() }
}
