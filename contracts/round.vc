C25: what is packed, unpacked.

@module crate::jwe::decrypt src/jwe/decrypt.rs
@raw
use crate::vx::plain;
/// the texts of a public JWK need no escape (names of curves and base64)
pub axiom fn jwk_clean<K>(k: K, v: Value) ensures public_value(k, v) ==> clean(v);
pub proof fn jwe_texts_plain() ensures plain("application/didcomm-encrypted+json"@), plain("ECDH-1PU+A256KW"@), plain("ECDH-ES+A256KW"@), plain("A256CBC-HS512"@), plain("XC20P"@), plain("A256GCM"@)
{
    reveal_strlit("application/didcomm-encrypted+json"); assert forall|i: int| 0 <= i < "application/didcomm-encrypted+json"@.len() implies (#[trigger] "application/didcomm-encrypted+json"@[i]) != '"' && "application/didcomm-encrypted+json"@[i] != '\\' && "application/didcomm-encrypted+json"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14 || i == 15 || i == 16 || i == 17 || i == 18 || i == 19 || i == 20 || i == 21 || i == 22 || i == 23 || i == 24 || i == 25 || i == 26 || i == 27 || i == 28 || i == 29 || i == 30 || i == 31 || i == 32 || i == 33); }
    reveal_strlit("ECDH-1PU+A256KW"); assert forall|i: int| 0 <= i < "ECDH-1PU+A256KW"@.len() implies (#[trigger] "ECDH-1PU+A256KW"@[i]) != '"' && "ECDH-1PU+A256KW"@[i] != '\\' && "ECDH-1PU+A256KW"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14); }
    reveal_strlit("ECDH-ES+A256KW"); assert forall|i: int| 0 <= i < "ECDH-ES+A256KW"@.len() implies (#[trigger] "ECDH-ES+A256KW"@[i]) != '"' && "ECDH-ES+A256KW"@[i] != '\\' && "ECDH-ES+A256KW"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13); }
    reveal_strlit("A256CBC-HS512"); assert forall|i: int| 0 <= i < "A256CBC-HS512"@.len() implies (#[trigger] "A256CBC-HS512"@[i]) != '"' && "A256CBC-HS512"@[i] != '\\' && "A256CBC-HS512"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12); }
    reveal_strlit("XC20P"); assert forall|i: int| 0 <= i < "XC20P"@.len() implies (#[trigger] "XC20P"@[i]) != '"' && "XC20P"@[i] != '\\' && "XC20P"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4); }
    reveal_strlit("A256GCM"); assert forall|i: int| 0 <= i < "A256GCM"@.len() implies (#[trigger] "A256GCM"@[i]) != '"' && "A256GCM"@[i] != '\\' && "A256GCM"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6); }
}
pub open spec fn plain_ids(k: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < k.len() ==> plain(#[trigger] k[i]) }
pub proof fn envelope_clean(j: JWE) requires plain(j.protected@), plain(j.iv@), plain(j.ciphertext@), plain(j.tag@), forall|i: int| 0 <= i < j.recipients@.len() ==> plain((#[trigger] j.recipients@[i]).header.kid@) && plain(j.recipients@[i].encrypted_key@),
    ensures clean(j.ser()), JWE::de(j.ser()) is Some
{
    broadcast use {value_axioms, json_axioms, clean_axioms}; jwe_member_names(); jwe_written(j);
    assert forall|i: int| 0 <= i < j.recipients@.len() implies clean(recipient_wire(#[trigger] j.recipients@[i])) by {}
    let v = j.recipients@.map_values(|s: Recipient| recipient_wire(s));
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] Recipient::de(v[i])) is Some by { assert(v[i] == recipient_wire(j.recipients@[i])); }
}
pub proof fn header_clean(h: ProtectedHeader) requires h.typ is Some ==> plain(h.typ->0.cv()), plain(alg_name(h.alg)), plain(enc_name(h.enc)), h.skid is Some ==> plain(h.skid->0@), h.apu is Some ==> plain(h.apu->0@), plain(h.apv@), clean(h.epk),
    ensures clean(h.ser()), ProtectedHeader::de(h.ser()) is Some
{
    broadcast use {value_axioms, json_axioms, clean_axioms}; jwe_member_names(); jwe_header_written(h);
    jwe_alg_names(h.alg, str_of(alg_name(h.alg))); jwe_enc_names(h.enc, str_of(enc_name(h.enc)));
}
/// what encrypt makes for plain key ids can be read and parsed
pub proof fn encrypted_legible<CE, KDF: JoseKDF<KE, KW>, KE: KeyExchange + crate::askar_crypto::jwk::FromJwk, KW: KeyWrap>(text: Seq<u8>, alg: Algorithm, enc: EncAlgorithm, sender: Option<(&str, &KE)>, recipients: Seq<(&str, &KE)>, out: Seq<char>, x: Seq<char>)
    requires crate::jwe::encrypt::encrypted::<CE, KDF, KE, KW>(text, alg, enc, sender, recipients, out), same_json(x, out), plain_ids(crate::jwe::encrypt::names(recipients)), sender is Some ==> plain((sender->0).0@), !(alg is Other), !(enc is Other),
    ensures json_de::<JWE>(x) is Ok, forall|k: ErrorKind| !header_rejects(json_de::<JWE>(x)->Ok_0.protected@, seq![], k), tree(x) is Some, JWE::de(tree(x)->0) is Some, at(tree(x)->0, "id"@) is None, tree(x)->0 is Object
{
    broadcast use {value_axioms, json_axioms}; jwe_member_names(); jwe_texts_plain();
    let u = base64::URL_SAFE_NO_PAD;
    let (j, cek, epk) = choose|j: JWE, cek: CE, epk: KE| #![trigger json_ser(&j), generated(cek), generated(epk)] json_ser(&j) == Ok::<Seq<char>, serde_json::Error>(out) && generated(cek) && generated(epk) && crate::jwe::encrypt::is_jwe::<CE, KDF, KE, KW>(text, alg, enc, sender, recipients, j, cek, epk);
    let v = choose|v: Value| #[trigger] public_value(epk, v) && crate::jwe::encrypt::header_text(alg, enc, sender, recipients, v, j.protected@);
    let h = choose|h: ProtectedHeader| crate::jwe::encrypt::is_header(h, alg, enc, sender, recipients, v) && #[trigger] json_ser(&h) is Ok && j.protected@ == b64e(utf8(json_ser(&h)->Ok_0));
    let t = json_ser(&h)->Ok_0;
    let (iv, aad, buf, n) = choose|iv: Seq<u8>, aad: Seq<u8>, buf: Seq<u8>, n: int| #[trigger] sealed(cek, text, iv, aad, buf, n) && aad == utf8(j.protected@) && 0 <= n <= buf.len() && j.iv@ == b64e(iv) && j.ciphertext@ == b64e(buf.subrange(0, n)) && j.tag@ == b64e(buf.subrange(n, buf.len() as int))
        && crate::jwe::encrypt::keys_for::<CE, KDF, KE, KW>(j.recipients@, cek, epk, sender, recipients, alg, buf.subrange(n, buf.len() as int));
    let tag = buf.subrange(n, buf.len() as int);
    base64::enc_plain(u, iv); base64::enc_plain(u, buf.subrange(0, n)); base64::enc_plain(u, tag); base64::enc_plain(u, utf8(t));
    assert forall|i: int| 0 <= i < j.recipients@.len() implies plain((#[trigger] j.recipients@[i]).header.kid@) && plain(j.recipients@[i].encrypted_key@) by {
        assert(crate::jwe::encrypt::names(recipients)[i] == recipients[i].0@);
        let k = j.recipients@[i].encrypted_key@; let apu = crate::jwe::encrypt::apu_of(sender); let apv = apv_of(crate::jwe::encrypt::names(recipients));
        let (w, kw) = choose|w: Seq<u8>, kw: KW| #[trigger] wrapped(kw, cek, w) && k == b64e(w) && KDF::derived(epk, crate::jwe::encrypt::skey_of(sender), *recipients[i].1, utf8(alg_name(alg)), apu, apv, tag, false) == Some(kw);
        base64::enc_plain(u, w);
    }
    envelope_clean(j); writes(j); reads_same::<JWE, JWE>(j, x); same_tree(x, out); jwe_written(j);
    let b = json_de::<JWE>(x)->Ok_0; jwe_read_back(j, b);
    jwk_clean(epk, v);
    base64::enc_plain(u, apv_of(crate::jwe::encrypt::names(recipients)));
    if let Some((s, _)) = sender { base64::enc_plain(u, utf8(s@)); base64::dec_enc(u, utf8(s@)); }
    header_clean(h); writes(h); reads_same::<ProtectedHeader, ProtectedHeader>(h, t);
    base64::dec_enc(u, utf8(t)); base64::dec_enc(u, apv_of(crate::jwe::encrypt::names(recipients)));
    assert(Seq::<u8>::empty() + utf8(t) =~= utf8(t)); reads_bytes::<ProtectedHeader>(t);
    jwe_header_read_back(h, json_de::<ProtectedHeader>(t)->Ok_0);
    reveal_strlit("id"); reveal_strlit("iv"); assert("id"@[1] != "iv"@[1]); assert("id"@.len() == 2 && "iv"@.len() == 2);
}

@module crate::message::unpack::anoncrypt src/message/unpack/anoncrypt.rs
@raw
use crate::jwe::decrypt::{inverts, agrees, encrypt_then_read, encrypted_legible, plain_ids}; use crate::jwe::encrypt::encrypted; use crate::message::pack_encrypted::anoncrypt::{es_for, es_x, es_p, x_keys, p_keys};
// ---------- one anonymous layer, packed and unpacked ----------
pub open spec fn method_ids(vms: Seq<VerificationMethod>) -> Seq<Seq<char>> { vms.map_values(|v: VerificationMethod| v.id@) }
pub open spec fn distinct(k: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] k[i] != #[trigger] k[j] }
/// the cryptography is correct: opening inverts sealing
pub open spec fn ciphers_work() -> bool { inverts::<AesKey<A256CbcHs512>, AesKey<A256Kw>>() && inverts::<Chacha20Key<XC20P>, AesKey<A256Kw>>() && inverts::<AesKey<A256Gcm>, AesKey<A256Kw>>() }
/// own is the private half of public: both ends of an exchange with it derive the same key
pub open spec fn es_match(own: KnownKeyPair, public: Option<KnownKeyPair>) -> bool { match (own, public) {
    (KnownKeyPair::X25519(d), Some(KnownKeyPair::X25519(r))) => agrees::<EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(None, r, None, d),
    (KnownKeyPair::P256(d), Some(KnownKeyPair::P256(r))) => agrees::<EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(None, r, None, d),
    _ => false } }
pub open spec fn enc_of_anon(a: AnonCryptAlg) -> EncAlgorithm { match a { AnonCryptAlg::A256cbcHs512EcdhEsA256kw => EncAlgorithm::A256cbcHs512, AnonCryptAlg::Xc20pEcdhEsA256kw => EncAlgorithm::Xc20P, AnonCryptAlg::A256gcmEcdhEsA256kw => EncAlgorithm::A256Gcm } }
/// what each recipient's key makes of the envelope
pub proof fn es_x_reads<CE>(text: Seq<u8>, enc: EncAlgorithm, vms: Seq<VerificationMethod>, r: Seq<(&str, &X25519KeyPair)>, out: Seq<char>, x: Seq<char>, p: ParsedJWE, i: int, own: X25519KeyPair)
    requires encrypted::<CE, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, enc, None, r, out), x_keys(vms, r), same_json(x, out), json_de::<JWE>(x) == Ok::<JWE, serde_json::Error>(p.jwe), parsed_ok(p, seq![]), inverts::<CE, AesKey<A256Kw>>(), 0 <= i < vms.len(), distinct(method_ids(vms)), !(enc is Other),
    ensures p.protected.alg == jwe::Algorithm::EcdhEsA256kw, p.protected.enc == enc, bound(p), kids(p.jwe.recipients@) =~= method_ids(vms),
        es_match(KnownKeyPair::X25519(own), vms[i].pair()) ==> decrypted::<CE, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(p, None, vms[i].id@, own) == Some(text),
{
    broadcast use crate::vx::value_axioms;
    assert forall|k: int| 0 <= k < i implies (#[trigger] r[k]).0@ != r[i].0@ by { assert(method_ids(vms)[k] != method_ids(vms)[i]); }
    encrypt_then_read::<CE, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, enc, None, r, out, x, p, i, None, own);
}
pub proof fn es_p_reads<CE>(text: Seq<u8>, enc: EncAlgorithm, vms: Seq<VerificationMethod>, r: Seq<(&str, &P256KeyPair)>, out: Seq<char>, x: Seq<char>, p: ParsedJWE, i: int, own: P256KeyPair)
    requires encrypted::<CE, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, enc, None, r, out), p_keys(vms, r), same_json(x, out), json_de::<JWE>(x) == Ok::<JWE, serde_json::Error>(p.jwe), parsed_ok(p, seq![]), inverts::<CE, AesKey<A256Kw>>(), 0 <= i < vms.len(), distinct(method_ids(vms)), !(enc is Other),
    ensures p.protected.alg == jwe::Algorithm::EcdhEsA256kw, p.protected.enc == enc, bound(p), kids(p.jwe.recipients@) =~= method_ids(vms),
        es_match(KnownKeyPair::P256(own), vms[i].pair()) ==> decrypted::<CE, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(p, None, vms[i].id@, own) == Some(text),
{
    broadcast use crate::vx::value_axioms;
    assert forall|k: int| 0 <= k < i implies (#[trigger] r[k]).0@ != r[i].0@ by { assert(method_ids(vms)[k] != method_ids(vms)[i]); }
    encrypt_then_read::<CE, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, enc, None, r, out, x, p, i, None, own);
}
pub proof fn es_reads(text: Seq<u8>, alg: AnonCryptAlg, a: KnownKeyAlg, vms: Seq<VerificationMethod>, out: Seq<char>, x: Seq<char>, p: ParsedJWE)
    requires es_for(text, alg, a, vms, out), same_json(x, out), json_de::<JWE>(x) == Ok::<JWE, serde_json::Error>(p.jwe), parsed_ok(p, seq![]), ciphers_work(), vms.len() > 0, distinct(method_ids(vms)),
    ensures p.protected.alg == jwe::Algorithm::EcdhEsA256kw, anon_alg_of(p.protected.enc) == Some(alg), bound(p), kids(p.jwe.recipients@) =~= method_ids(vms),
        forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && es_match(own, (#[trigger] vms[i]).pair()) ==> #[trigger] es_opened(p, vms[i].id@, own) == Opened::Text(text),
{
    hide(encrypted); hide(decrypted); hide(inverts); hide(agrees); hide(bound); hide(parsed_ok);
    let e = enc_of_anon(alg);
    let any_x = arbitrary::<X25519KeyPair>(); let any_p = arbitrary::<P256KeyPair>();
    if a == KnownKeyAlg::X25519 {
        match alg {
            AnonCryptAlg::A256cbcHs512EcdhEsA256kw => { let r = choose|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256cbcHs512, None, r, out) && x_keys(vms, r);
                es_x_reads::<AesKey<A256CbcHs512>>(text, e, vms, r, out, x, p, 0, any_x);
                assert forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && es_match(own, (#[trigger] vms[i]).pair()) implies #[trigger] es_opened(p, vms[i].id@, own) == Opened::Text(text) by { if let KnownKeyPair::X25519(d) = own { es_x_reads::<AesKey<A256CbcHs512>>(text, e, vms, r, out, x, p, i, d); } else { assert(vms[i].pair() == Some(KnownKeyPair::X25519(*r[i].1))); } } }
            AnonCryptAlg::Xc20pEcdhEsA256kw => { let r = choose|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<Chacha20Key<XC20P>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::Xc20P, None, r, out) && x_keys(vms, r);
                es_x_reads::<Chacha20Key<XC20P>>(text, e, vms, r, out, x, p, 0, any_x);
                assert forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && es_match(own, (#[trigger] vms[i]).pair()) implies #[trigger] es_opened(p, vms[i].id@, own) == Opened::Text(text) by { if let KnownKeyPair::X25519(d) = own { es_x_reads::<Chacha20Key<XC20P>>(text, e, vms, r, out, x, p, i, d); } else { assert(vms[i].pair() == Some(KnownKeyPair::X25519(*r[i].1))); } } }
            AnonCryptAlg::A256gcmEcdhEsA256kw => { let r = choose|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256Gcm>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256Gcm, None, r, out) && x_keys(vms, r);
                es_x_reads::<AesKey<A256Gcm>>(text, e, vms, r, out, x, p, 0, any_x);
                assert forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && es_match(own, (#[trigger] vms[i]).pair()) implies #[trigger] es_opened(p, vms[i].id@, own) == Opened::Text(text) by { if let KnownKeyPair::X25519(d) = own { es_x_reads::<AesKey<A256Gcm>>(text, e, vms, r, out, x, p, i, d); } else { assert(vms[i].pair() == Some(KnownKeyPair::X25519(*r[i].1))); } } }
        }
    } else {
        match alg {
            AnonCryptAlg::A256cbcHs512EcdhEsA256kw => { let r = choose|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256cbcHs512, None, r, out) && p_keys(vms, r);
                es_p_reads::<AesKey<A256CbcHs512>>(text, e, vms, r, out, x, p, 0, any_p);
                assert forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && es_match(own, (#[trigger] vms[i]).pair()) implies #[trigger] es_opened(p, vms[i].id@, own) == Opened::Text(text) by { if let KnownKeyPair::P256(d) = own { es_p_reads::<AesKey<A256CbcHs512>>(text, e, vms, r, out, x, p, i, d); } else { assert(vms[i].pair() == Some(KnownKeyPair::P256(*r[i].1))); } } }
            AnonCryptAlg::Xc20pEcdhEsA256kw => { let r = choose|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<Chacha20Key<XC20P>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::Xc20P, None, r, out) && p_keys(vms, r);
                es_p_reads::<Chacha20Key<XC20P>>(text, e, vms, r, out, x, p, 0, any_p);
                assert forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && es_match(own, (#[trigger] vms[i]).pair()) implies #[trigger] es_opened(p, vms[i].id@, own) == Opened::Text(text) by { if let KnownKeyPair::P256(d) = own { es_p_reads::<Chacha20Key<XC20P>>(text, e, vms, r, out, x, p, i, d); } else { assert(vms[i].pair() == Some(KnownKeyPair::P256(*r[i].1))); } } }
            AnonCryptAlg::A256gcmEcdhEsA256kw => { let r = choose|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256Gcm>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256Gcm, None, r, out) && p_keys(vms, r);
                es_p_reads::<AesKey<A256Gcm>>(text, e, vms, r, out, x, p, 0, any_p);
                assert forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && es_match(own, (#[trigger] vms[i]).pair()) implies #[trigger] es_opened(p, vms[i].id@, own) == Opened::Text(text) by { if let KnownKeyPair::P256(d) = own { es_p_reads::<AesKey<A256Gcm>>(text, e, vms, r, out, x, p, i, d); } else { assert(vms[i].pair() == Some(KnownKeyPair::P256(*r[i].1))); } } }
        }
    }
}
/// and it is an envelope that can be read at all
pub proof fn es_legible(text: Seq<u8>, alg: AnonCryptAlg, a: KnownKeyAlg, vms: Seq<VerificationMethod>, out: Seq<char>, x: Seq<char>)
    requires es_for(text, alg, a, vms, out), same_json(x, out), plain_ids(method_ids(vms)),
    ensures json_de::<JWE>(x) is Ok, forall|k: ErrorKind| !header_rejects(json_de::<JWE>(x)->Ok_0.protected@, seq![], k), tree(x) is Some, JWE::de(tree(x)->0) is Some, at(tree(x)->0, "id"@) is None, tree(x)->0 is Object
{
    hide(encrypted);
    if a == KnownKeyAlg::X25519 {
        match alg {
            AnonCryptAlg::A256cbcHs512EcdhEsA256kw => { let r = choose|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256cbcHs512, None, r, out) && x_keys(vms, r);
                assert(crate::jwe::encrypt::names(r) =~= method_ids(vms)); encrypted_legible::<AesKey<A256CbcHs512>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256cbcHs512, None, r, out, x); }
            AnonCryptAlg::Xc20pEcdhEsA256kw => { let r = choose|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<Chacha20Key<XC20P>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::Xc20P, None, r, out) && x_keys(vms, r);
                assert(crate::jwe::encrypt::names(r) =~= method_ids(vms)); encrypted_legible::<Chacha20Key<XC20P>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::Xc20P, None, r, out, x); }
            AnonCryptAlg::A256gcmEcdhEsA256kw => { let r = choose|r: Seq<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256Gcm>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256Gcm, None, r, out) && x_keys(vms, r);
                assert(crate::jwe::encrypt::names(r) =~= method_ids(vms)); encrypted_legible::<AesKey<A256Gcm>, EcdhEs<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256Gcm, None, r, out, x); }
        }
    } else {
        match alg {
            AnonCryptAlg::A256cbcHs512EcdhEsA256kw => { let r = choose|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256cbcHs512, None, r, out) && p_keys(vms, r);
                assert(crate::jwe::encrypt::names(r) =~= method_ids(vms)); encrypted_legible::<AesKey<A256CbcHs512>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256cbcHs512, None, r, out, x); }
            AnonCryptAlg::Xc20pEcdhEsA256kw => { let r = choose|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<Chacha20Key<XC20P>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::Xc20P, None, r, out) && p_keys(vms, r);
                assert(crate::jwe::encrypt::names(r) =~= method_ids(vms)); encrypted_legible::<Chacha20Key<XC20P>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::Xc20P, None, r, out, x); }
            AnonCryptAlg::A256gcmEcdhEsA256kw => { let r = choose|r: Seq<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256Gcm>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256Gcm, None, r, out) && p_keys(vms, r);
                assert(crate::jwe::encrypt::names(r) =~= method_ids(vms)); encrypted_legible::<AesKey<A256Gcm>, EcdhEs<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::EcdhEsA256kw, jwe::EncAlgorithm::A256Gcm, None, r, out, x); }
        }
    }
}

/// some secrets of these keys are held, and those that are found are the right halves
pub open spec fn holds(sr: &dyn SecretsResolver, vms: Seq<VerificationMethod>, half: spec_fn(KnownKeyPair, VerificationMethod) -> bool) -> bool {
    forall|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= method_ids(vms) ==> f is Ok && held(sr, f->Ok_0@, vms, half)
}
pub open spec fn held(sr: &dyn SecretsResolver, v: Seq<&str>, vms: Seq<VerificationMethod>, half: spec_fn(KnownKeyPair, VerificationMethod) -> bool) -> bool {
    v.len() > 0 && forall|a: int, j: int, s: Result<Option<Secret>>| 0 <= a < v.len() && 0 <= j < vms.len() && (#[trigger] v[a])@ == (#[trigger] vms[j]).id@ && #[trigger] sr.secret(v[a]@, s) ==> right_half(s, vms[j], half)
}
pub open spec fn right_half(s: Result<Option<Secret>>, m: VerificationMethod, half: spec_fn(KnownKeyPair, VerificationMethod) -> bool) -> bool { s is Ok && s->Ok_0 is Some && (s->Ok_0)->0.pair() is Some && half((s->Ok_0)->0.pair()->0, m) }
/// when each right half opens the envelope to the same text, that text comes out
pub proof fn all_open(sr: &dyn SecretsResolver, q: Seq<&str>, v: Seq<&str>, vms: Seq<VerificationMethod>, half: spec_fn(KnownKeyPair, VerificationMethod) -> bool, o: UnpackOptions, open: spec_fn(Seq<char>) -> (spec_fn(KnownKeyPair) -> Opened), b: Seq<u8>, r: Result<Option<String>>)
    requires views(q) =~= method_ids(vms), all_asked(q, v), held(sr, v, vms, half), opened_to(sr, v, o, open, r), text_of(b) is Some, forall|j: int, own: KnownKeyPair| 0 <= j < vms.len() && #[trigger] half(own, vms[j]) ==> open(vms[j].id@)(own) == Opened::Text(b),
    ensures r is Ok, r->Ok_0 is Some, Some((r->Ok_0)->0@) == text_of(b)
{
    hide(secret_pair); hide(secret_alg);
    assert forall|a: int, x: Opened| 0 <= a < v.len() && #[trigger] gives(sr, (#[trigger] v[a])@, open(v[a]@), x) implies x == Opened::Text(b) by {
        let s = choose|s: Result<Option<Secret>>| #[trigger] sr.secret(v[a]@, s) && x == outcome(s, open(v[a]@));
        assert(asked(q, v[a]@)); let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j])@ == v[a]@; assert(views(q)[j] == method_ids(vms)[j]);
        assert(views(q).len() == q.len() && method_ids(vms).len() == vms.len() && views(q) == method_ids(vms)); assert(views(q)[j] == q[j]@); assert(method_ids(vms)[j] == vms[j].id@); assert(v[a]@ == vms[j].id@); assert(sr.secret(v[a]@, s));
        assert(right_half(s, vms[j], half)); assert(half((s->Ok_0)->0.pair()->0, vms[j]));
    }
    let n = used(v, o);
    if r is Ok { let c = choose|c: Seq<u8>| #[trigger] opened_with(sr, v, o, open, c) && text_of(c) == Some((r->Ok_0)->0@); assert(gives(sr, v[n - 1]@, open(v[n - 1]@), Opened::Text(c))); }
    else if refused_by(sr, v, n, open, r->Err_0.kind) { }
    else { let c = choose|c: Seq<u8>| #[trigger] opened_with(sr, v, o, open, c) && text_of(c) is None; assert(gives(sr, v[n - 1]@, open(v[n - 1]@), Opened::Text(c))); }
}
pub open spec fn es_half() -> spec_fn(KnownKeyPair, VerificationMethod) -> bool { |own: KnownKeyPair, m: VerificationMethod| es_match(own, m.pair()) }
/// the ids of the keys are DID URLs of one DID, all different, and need no escape in JSON
pub open spec fn tidy(vms: Seq<VerificationMethod>) -> bool { vms.len() > 0 && plain_ids(method_ids(vms)) && distinct(method_ids(vms)) && one_did(method_ids(vms)) }
/// what was encrypted anonymously comes out again
pub proof fn anon_reads(t: Seq<char>, alg: AnonCryptAlg, a: KnownKeyAlg, vms: Seq<VerificationMethod>, out: Seq<char>, x: Seq<char>, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>)
    requires es_for(utf8(t), alg, a, vms, out), same_json(x, out), tidy(vms), ciphers_work(), holds(sr, vms, es_half()), anon_layer(x, sr, o, m, n, r),
    ensures r is Ok, r->Ok_0 is Some, (r->Ok_0)->0@ == t, n == (UnpackMetadata { encrypted: true, anonymous_sender: true, encrypted_to_kids: n.encrypted_to_kids, enc_alg_anon: Some(alg), ..m }), to_kids(n, method_ids(vms))
{
    hide(decrypted); hide(inverts); hide(agrees); hide(es_for); hide(secret_pair); hide(secret_alg); hide(opened_to); hide(bound); hide(parsed_ok); hide(method_pair); hide(method_alg);
    es_legible(utf8(t), alg, a, vms, out, x);
    text_of_utf8(t);
    let p = choose|p: ParsedJWE| p.jwe == json_de::<JWE>(x)->Ok_0 && #[trigger] parsed_ok(p, seq![]) && anon_opened(p, sr, o, m, n, r);
    es_reads(utf8(t), alg, a, vms, out, x, p);
    assert(kids(p.jwe.recipients@) == method_ids(vms));
    let (q, f) = choose|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= method_ids(vms) && match f {
        Err(e) => fails(r, e.kind),
        Ok(v) => if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { all_asked(q, v@) && opened_to(sr, v@, o, by_es(p), r) && (r is Ok ==> add_anon(m, p, n)) } };
    assert forall|j: int, own: KnownKeyPair| 0 <= j < vms.len() && #[trigger] es_half()(own, vms[j]) implies by_es(p)(vms[j].id@)(own) == Opened::Text(utf8(t)) by { assert(by_es(p)(vms[j].id@) == by_es_for(p, vms[j].id@)); }
    all_open(sr, q, f->Ok_0@, vms, es_half(), o, by_es(p), utf8(t), r);
}

@module crate::message::unpack::authcrypt src/message/unpack/authcrypt.rs
@raw
use crate::vx::plain; use crate::jwe::decrypt::{inverts, agrees, encrypt_then_read, encrypted_legible, plain_ids}; use crate::jwe::encrypt::encrypted; use crate::message::pack_encrypted::anoncrypt::{es_for, es_x, es_p, x_keys, p_keys}; use crate::message::pack_encrypted::authcrypt::{auth_x, auth_p}; use crate::message::pack_encrypted::anoncrypt::answers;
// ---------- one authenticated layer, packed and unpacked ----------
/// text encrypted by the sender's secret under the sender's key id for the keys of these methods
pub open spec fn pu_x(text: Seq<u8>, to: Seq<VerificationMethod>, from: Seq<char>, s: KnownKeyPair, out: Seq<char>) -> bool {
    exists|r: Seq<(&str, &X25519KeyPair)>, f: Option<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out) && x_keys(to, r) && f is Some && (f->0).0@ == from && s == KnownKeyPair::X25519(*(f->0).1) }
pub open spec fn pu_p(text: Seq<u8>, to: Seq<VerificationMethod>, from: Seq<char>, s: KnownKeyPair, out: Seq<char>) -> bool {
    exists|r: Seq<(&str, &P256KeyPair)>, f: Option<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out) && p_keys(to, r) && f is Some && (f->0).0@ == from && s == KnownKeyPair::P256(*(f->0).1) }
pub open spec fn pu_for(text: Seq<u8>, to: Seq<VerificationMethod>, from: Seq<char>, s: KnownKeyPair, out: Seq<char>) -> bool { match s { KnownKeyPair::X25519(_) => pu_x(text, to, from, s, out), KnownKeyPair::P256(_) => pu_p(text, to, from, s, out), _ => false } }
/// s is the sender's secret and from its public key; own the recipient's secret and public its public key: both ends derive the same key
pub open spec fn pu_match(s: KnownKeyPair, own: KnownKeyPair, public: Option<KnownKeyPair>, from: KnownKeyPair) -> bool { match (s, own, public, from) {
    (KnownKeyPair::X25519(s), KnownKeyPair::X25519(d), Some(KnownKeyPair::X25519(r)), KnownKeyPair::X25519(p)) => agrees::<Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(Some(s), r, Some(p), d),
    (KnownKeyPair::P256(s), KnownKeyPair::P256(d), Some(KnownKeyPair::P256(r)), KnownKeyPair::P256(p)) => agrees::<Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(Some(s), r, Some(p), d),
    _ => false } }
pub proof fn pu_x_reads(text: Seq<u8>, vms: Seq<VerificationMethod>, from: Seq<char>, f: Option<(&str, &X25519KeyPair)>, r: Seq<(&str, &X25519KeyPair)>, out: Seq<char>, x: Seq<char>, p: ParsedJWE, i: int, public: X25519KeyPair, own: X25519KeyPair)
    requires encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out), x_keys(vms, r), f is Some, (f->0).0@ == from, same_json(x, out), json_de::<JWE>(x) == Ok::<JWE, serde_json::Error>(p.jwe), parsed_ok(p, seq![]), inverts::<AesKey<A256CbcHs512>, AesKey<A256Kw>>(), 0 <= i < vms.len(), distinct(method_ids(vms)),
    ensures p.protected.alg == jwe::Algorithm::Ecdh1puA256kw, p.protected.enc == jwe::EncAlgorithm::A256cbcHs512, bound(p), opt_view(p.apu) == Some(utf8(from)), kids(p.jwe.recipients@) =~= method_ids(vms),
        pu_match(KnownKeyPair::X25519(*(f->0).1), KnownKeyPair::X25519(own), vms[i].pair(), KnownKeyPair::X25519(public)) ==> decrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(p, Some((slice_of(from), &public)), vms[i].id@, own) == Some(text),
{
    broadcast use crate::vx::value_axioms;
    assert forall|k: int| 0 <= k < i implies (#[trigger] r[k]).0@ != r[i].0@ by { assert(method_ids(vms)[k] != method_ids(vms)[i]); }
    encrypt_then_read::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out, x, p, i, Some((slice_of(from), &public)), own);
}
pub proof fn pu_p_reads(text: Seq<u8>, vms: Seq<VerificationMethod>, from: Seq<char>, f: Option<(&str, &P256KeyPair)>, r: Seq<(&str, &P256KeyPair)>, out: Seq<char>, x: Seq<char>, p: ParsedJWE, i: int, public: P256KeyPair, own: P256KeyPair)
    requires encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out), p_keys(vms, r), f is Some, (f->0).0@ == from, same_json(x, out), json_de::<JWE>(x) == Ok::<JWE, serde_json::Error>(p.jwe), parsed_ok(p, seq![]), inverts::<AesKey<A256CbcHs512>, AesKey<A256Kw>>(), 0 <= i < vms.len(), distinct(method_ids(vms)),
    ensures p.protected.alg == jwe::Algorithm::Ecdh1puA256kw, p.protected.enc == jwe::EncAlgorithm::A256cbcHs512, bound(p), opt_view(p.apu) == Some(utf8(from)), kids(p.jwe.recipients@) =~= method_ids(vms),
        pu_match(KnownKeyPair::P256(*(f->0).1), KnownKeyPair::P256(own), vms[i].pair(), KnownKeyPair::P256(public)) ==> decrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(p, Some((slice_of(from), &public)), vms[i].id@, own) == Some(text),
{
    broadcast use crate::vx::value_axioms;
    assert forall|k: int| 0 <= k < i implies (#[trigger] r[k]).0@ != r[i].0@ by { assert(method_ids(vms)[k] != method_ids(vms)[i]); }
    encrypt_then_read::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out, x, p, i, Some((slice_of(from), &public)), own);
}
pub proof fn pu_reads(text: Seq<u8>, vms: Seq<VerificationMethod>, from: Seq<char>, s: KnownKeyPair, out: Seq<char>, x: Seq<char>, p: ParsedJWE, public: KnownKeyPair)
    requires pu_for(text, vms, from, s, out), same_json(x, out), json_de::<JWE>(x) == Ok::<JWE, serde_json::Error>(p.jwe), parsed_ok(p, seq![]), inverts::<AesKey<A256CbcHs512>, AesKey<A256Kw>>(), vms.len() > 0, distinct(method_ids(vms)),
    ensures p.protected.alg == jwe::Algorithm::Ecdh1puA256kw, bound(p), opt_view(p.apu) == Some(utf8(from)), kids(p.jwe.recipients@) =~= method_ids(vms),
        forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && pu_match(s, own, (#[trigger] vms[i]).pair(), public) ==> #[trigger] pu_opened(p, from, public, vms[i].id@, own) == Opened::Text(text),
{
    hide(encrypted); hide(decrypted); hide(inverts); hide(agrees); hide(bound); hide(parsed_ok);
    let any_x = arbitrary::<X25519KeyPair>(); let any_p = arbitrary::<P256KeyPair>();
    match s {
        KnownKeyPair::X25519(_) => {
            let (r, f) = choose|r: Seq<(&str, &X25519KeyPair)>, f: Option<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out) && x_keys(vms, r) && f is Some && (f->0).0@ == from && s == KnownKeyPair::X25519(*(f->0).1);
            pu_x_reads(text, vms, from, f, r, out, x, p, 0, any_x, any_x);
            assert forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && pu_match(s, own, (#[trigger] vms[i]).pair(), public) implies #[trigger] pu_opened(p, from, public, vms[i].id@, own) == Opened::Text(text) by { if let (KnownKeyPair::X25519(d), KnownKeyPair::X25519(b)) = (own, public) { pu_x_reads(text, vms, from, f, r, out, x, p, i, b, d); } else { assert(vms[i].pair() == Some(KnownKeyPair::X25519(*r[i].1))); } }
        }
        KnownKeyPair::P256(_) => {
            let (r, f) = choose|r: Seq<(&str, &P256KeyPair)>, f: Option<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out) && p_keys(vms, r) && f is Some && (f->0).0@ == from && s == KnownKeyPair::P256(*(f->0).1);
            pu_p_reads(text, vms, from, f, r, out, x, p, 0, any_p, any_p);
            assert forall|i: int, own: KnownKeyPair| 0 <= i < vms.len() && pu_match(s, own, (#[trigger] vms[i]).pair(), public) implies #[trigger] pu_opened(p, from, public, vms[i].id@, own) == Opened::Text(text) by { if let (KnownKeyPair::P256(d), KnownKeyPair::P256(b)) = (own, public) { pu_p_reads(text, vms, from, f, r, out, x, p, i, b, d); } else { assert(vms[i].pair() == Some(KnownKeyPair::P256(*r[i].1))); } }
        }
        _ => {}
    }
}
pub proof fn pu_legible(text: Seq<u8>, vms: Seq<VerificationMethod>, from: Seq<char>, s: KnownKeyPair, out: Seq<char>, x: Seq<char>)
    requires pu_for(text, vms, from, s, out), same_json(x, out), plain_ids(method_ids(vms)), plain(from),
    ensures json_de::<JWE>(x) is Ok, forall|k: ErrorKind| !header_rejects(json_de::<JWE>(x)->Ok_0.protected@, seq![], k), tree(x) is Some, JWE::de(tree(x)->0) is Some, at(tree(x)->0, "id"@) is None, tree(x)->0 is Object
{
    hide(encrypted);
    match s {
        KnownKeyPair::X25519(_) => {
            let (r, f) = choose|r: Seq<(&str, &X25519KeyPair)>, f: Option<(&str, &X25519KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out) && x_keys(vms, r) && f is Some && (f->0).0@ == from && s == KnownKeyPair::X25519(*(f->0).1);
            assert(crate::jwe::encrypt::names(r) =~= method_ids(vms)); encrypted_legible::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out, x);
        }
        _ => {
            let (r, f) = choose|r: Seq<(&str, &P256KeyPair)>, f: Option<(&str, &P256KeyPair)>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out) && p_keys(vms, r) && f is Some && (f->0).0@ == from && s == KnownKeyPair::P256(*(f->0).1);
            assert(crate::jwe::encrypt::names(r) =~= method_ids(vms)); encrypted_legible::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, f, r, out, x);
        }
    }
}
/// such an envelope is no anonymous one
pub proof fn pu_passes(text: Seq<u8>, vms: Seq<VerificationMethod>, from: Seq<char>, s: KnownKeyPair, out: Seq<char>, x: Seq<char>, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>)
    requires pu_for(text, vms, from, s, out), same_json(x, out), tidy(vms), plain(from), ciphers_work(), anon_layer(x, sr, o, m, n, r), ensures passed(m, n, r)
{
    hide(inverts); hide(pu_for); hide(bound); hide(parsed_ok); hide(opened_to);
    pu_legible(text, vms, from, s, out, x);
    let p = choose|p: ParsedJWE| p.jwe == json_de::<JWE>(x)->Ok_0 && #[trigger] parsed_ok(p, seq![]) && anon_opened(p, sr, o, m, n, r);
    pu_reads(text, vms, from, s, out, x, p, arbitrary());
}
pub open spec fn pu_half(s: KnownKeyPair, from: KnownKeyPair) -> spec_fn(KnownKeyPair, VerificationMethod) -> bool { |own: KnownKeyPair, m: VerificationMethod| pu_match(s, own, m.pair(), from) }
/// what was encrypted by the sender comes out again
pub proof fn auth_reads(t: Seq<char>, vms: Seq<VerificationMethod>, from: Seq<char>, s: KnownKeyPair, key: VerificationMethod, fd: DIDDoc, out: Seq<char>, x: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, m: UnpackMetadata, n: UnpackMetadata, r: Result<Option<String>>)
    requires pu_for(utf8(t), vms, from, s, out), same_json(x, out), tidy(vms), plain(from), from.contains('#'), ciphers_work(), answers(dr, did_part(from), fd), agreement_key(fd, from) == Some(key), key.pair() is Some, holds(sr, vms, pu_half(s, key.pair()->0)), auth_layer(x, dr, sr, o, m, n, r),
    ensures r is Ok, r->Ok_0 is Some, (r->Ok_0)->0@ == t,
        n == (UnpackMetadata { encrypted: true, authenticated: true, encrypted_to_kids: n.encrypted_to_kids, encrypted_from_kid: n.encrypted_from_kid, enc_alg_auth: Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw), ..m }), n.encrypted_from_kid is Some, n.encrypted_from_kid->0@ == from, if m.encrypted_to_kids is Some { n.encrypted_to_kids == m.encrypted_to_kids } else { to_kids(n, method_ids(vms)) }
{
    hide(decrypted); hide(inverts); hide(agrees); hide(pu_for); hide(secret_pair); hide(secret_alg); hide(opened_to); hide(bound); hide(parsed_ok); hide(method_pair); hide(method_alg); hide(pu_match);
    pu_legible(utf8(t), vms, from, s, out, x);
    text_of_utf8(from); text_of_utf8(t);
    let p = choose|p: ParsedJWE| p.jwe == json_de::<JWE>(x)->Ok_0 && #[trigger] parsed_ok(p, seq![]) && auth_opened(p, dr, sr, o, m, n, r);
    let own = key.pair()->0;
    pu_reads(utf8(t), vms, from, s, out, x, p, own);
    assert(kids(p.jwe.recipients@) == method_ids(vms));
    assert(auth_opened_by(p, from, own, sr, o, m, n, r));
    let (q, f) = choose|q: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(q, f) && views(q) =~= method_ids(vms) && match f {
        Err(e) => fails(r, e.kind),
        Ok(v) => if v@.len() == 0 { fails(r, ErrorKind::SecretNotFound) } else { all_asked(q, v@) && opened_to(sr, v@, o, by_pu(p, from, own), r) && (r is Ok ==> add_auth(m, p, from, n)) } };
    assert forall|j: int, k: KnownKeyPair| 0 <= j < vms.len() && #[trigger] pu_half(s, own)(k, vms[j]) implies by_pu(p, from, own)(vms[j].id@)(k) == Opened::Text(utf8(t)) by { assert(by_pu(p, from, own)(vms[j].id@) == by_pu_for(p, from, own, vms[j].id@)); }
    all_open(sr, q, f->Ok_0@, vms, pu_half(s, own), o, by_pu(p, from, own), utf8(t), r);
}

@module crate::message::pack_encrypted::anoncrypt src/message/pack_encrypted/anoncrypt.rs
@raw
use crate::message::unpack::anoncrypt::{method_ids, tidy, distinct, one_did}; use crate::jwe::decrypt::plain_ids; use crate::vx::plain;
// ---------- which keys an envelope is for ----------
/// the ids of the document's key agreement keys are DID URLs of one DID, all different, and need no escape in JSON
pub open spec fn tidy_doc(d: DIDDoc) -> bool { let k = texts(d.key_agreement@); plain_ids(k) && distinct(k) && one_did(k) }
pub open spec fn all_named(v: Seq<VerificationMethod>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).id@ == (#[trigger] v[j]).id@ ==> v[i] == v[j] }
pub proof fn first_has<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures first(s, p) is Some ==> p(first(s, p)->0) && s.contains(first(s, p)->0) decreases s.len()
{ if s.len() > 0 { if p(s[0]) { assert(s.contains(s[0])); } else { first_has(s.skip(1), p); if first(s.skip(1), p) is Some { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == first(s.skip(1), p)->0; assert(s[i + 1] == s.skip(1)[i]); } } } }
pub proof fn method_id(s: Seq<VerificationMethod>, id: Seq<char>) ensures method(s, id) is Some ==> method(s, id)->0.id@ == id
{ first_has(s, with_id(id)); }
/// a part of a list without repeats has none, in the same order
pub proof fn filter_order<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|i: int, j: int| 0 <= i < j < s.filter(p).len() ==> exists|a: int, b: int| 0 <= a < b < s.len() && s[a] == #[trigger] s.filter(p)[i] && s[b] == #[trigger] s.filter(p)[j], forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last(); filter_order(d, p); let f = d.filter(p); let g = s.filter(p);
        assert(g == if p(s.last()) { f.push(s.last()) } else { f });
        assert forall|i: int, j: int| 0 <= i < j < g.len() implies exists|a: int, b: int| 0 <= a < b < s.len() && s[a] == #[trigger] g[i] && s[b] == #[trigger] g[j] by {
            if j < f.len() { let (a, b) = choose|a: int, b: int| 0 <= a < b < d.len() && d[a] == f[i] && d[b] == f[j]; assert(s[a] == g[i] && s[b] == g[j]); }
            else { assert(d.contains(f[i])); let a = choose|a: int| 0 <= a < d.len() && d[a] == f[i]; let b = s.len() - 1; assert(s[a] == g[i] && s[b] == g[j]); }
        }
        assert forall|i: int| 0 <= i < g.len() implies p(#[trigger] g[i]) && s.contains(g[i]) by { if i < f.len() { assert(d.contains(f[i])); let a = choose|a: int| 0 <= a < d.len() && d[a] == f[i]; assert(s[a] == g[i]); } else { assert(s[s.len() - 1] == g[i]); } }
    }
}
pub proof fn filter_keeps<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int) requires 0 <= i < s.len(), p(s[i]) ensures s.filter(p).len() > 0 decreases s.len()
{ reveal(Seq::filter); if i < s.len() - 1 { filter_keeps(s.drop_last(), p, i); } }
/// so the keys that are picked are tidy
pub proof fn picked_tidy(d: DIDDoc, kid: Option<Seq<char>>, p: spec_fn(VerificationMethod) -> bool)
    requires tidy_doc(d), !lacks_method(d, meant(d, kid)), methods(d, meant(d, kid)).filter(p).len() > 0,
    ensures tidy(methods(d, meant(d, kid)).filter(p)), forall|i: int| 0 <= i < methods(d, meant(d, kid)).filter(p).len() ==> method(d.verification_method@, (#[trigger] methods(d, meant(d, kid)).filter(p)[i]).id@) == Some(methods(d, meant(d, kid)).filter(p)[i])
{
    let all = d.key_agreement@; let ids = meant(d, kid); let ms = methods(d, ids); let v = ms.filter(p); let k = texts(all);
    filter_order(all, wanted(kid)); filter_order(ms, p);
    assert forall|i: int| 0 <= i < ids.len() implies (#[trigger] ms[i]).id@ == ids[i]@ && method(d.verification_method@, ids[i]@) == Some(ms[i]) && exists|a: int| 0 <= a < all.len() && ms[i].id@ == #[trigger] k[a] by {
        assert(method(d.verification_method@, ids[i]@) is Some); method_id(d.verification_method@, ids[i]@);
        assert(all.contains(ids[i])); let a = choose|a: int| 0 <= a < all.len() && all[a] == ids[i]; assert(k[a] == ids[i]@);
    }
    assert forall|i: int| 0 <= i < v.len() implies (exists|a: int| 0 <= a < all.len() && (#[trigger] v[i]).id@ == #[trigger] k[a]) && method(d.verification_method@, v[i].id@) == Some(v[i]) by {
        assert(ms.contains(v[i])); let a = choose|a: int| 0 <= a < ms.len() && ms[a] == v[i]; assert(ids[a]@ == ms[a].id@);
    }
    let w = method_ids(v);
    assert forall|i: int| 0 <= i < w.len() implies plain(#[trigger] w[i]) && w[i].contains('#') && did_part(w[i]) == did_part(k[0]) by { let a = choose|a: int| 0 <= a < all.len() && v[i].id@ == #[trigger] k[a]; assert(w[i] == k[a]); }
    assert(one_did(w));
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] w[i] != #[trigger] w[j] by {
        assert(w[i] == v[i].id@ && w[j] == v[j].id@);
        let (a, b) = choose|a: int, b: int| 0 <= a < b < ms.len() && ms[a] == v[i] && ms[b] == v[j];
        assert(ids[a]@ == ms[a].id@ && ids[b]@ == ms[b].id@);
        let (e, f) = choose|e: int, f: int| 0 <= e < f < all.len() && all[e] == ids[a] && all[f] == ids[b];
        assert(k[e] != k[f]);
    }
}
/// the methods that the ids name are these
pub proof fn named_by(d: DIDDoc, v: Seq<VerificationMethod>, ids: Seq<String>) requires ids_of(v, ids), forall|i: int| 0 <= i < v.len() ==> method(d.verification_method@, (#[trigger] v[i]).id@) == Some(v[i]), ensures methods(d, ids) == v, method_ids(v) == texts(ids)
{ assert(method_ids(v) =~= texts(ids)) by { assert forall|i: int| 0 <= i < v.len() implies #[trigger] method_ids(v)[i] == texts(ids)[i] by { assert(ids[i]@ == v[i].id@); } } assert forall|i: int| 0 <= i < v.len() implies #[trigger] methods(d, ids)[i] == v[i] by { assert(ids[i]@ == v[i].id@); } assert(methods(d, ids) =~= v); }
/// the resolver's answer for this DID is this document
pub open spec fn answers(dr: &dyn DIDResolver, did: Seq<char>, d: DIDDoc) -> bool { forall|a: Result<Option<DIDDoc>>| #[trigger] dr.resolves(did, a) ==> a == Ok::<Option<DIDDoc>, Error>(Some(d)) }
pub open spec fn es_some(text: Seq<u8>, alg: AnonCryptAlg, vms: Seq<VerificationMethod>, out: Seq<char>) -> bool { exists|a: KnownKeyAlg| #[trigger] es_for(text, alg, a, vms, out) }
/// an anonymous encryption is for the keys it names
pub proof fn anon_made(to: Seq<char>, dr: &dyn DIDResolver, td: DIDDoc, text: Seq<u8>, alg: AnonCryptAlg, q: Result<(String, Vec<String>)>)
    requires anon(to, dr, text, alg, q), q is Ok, answers(dr, did_part(to), td), tidy_doc(td),
    ensures es_some(text, alg, methods(td, (q->Ok_0).1@), (q->Ok_0).0@), tidy(methods(td, (q->Ok_0).1@)), method_ids(methods(td, (q->Ok_0).1@)) == texts((q->Ok_0).1@)
{
    hide(encrypted); hide(es_for); hide(method_pair); hide(method_alg); hide(readable);
    assert(anon_for(td, kid_of(to), text, alg, q));
    let vms = methods(td, meant(td, kid_of(to))); let usable = vms.filter(supported()); let a = usable[0].alg();
    filter_order(vms, supported()); assert(supported()(usable[0])); assert(vms.contains(usable[0]));
    let i = choose|i: int| 0 <= i < vms.len() && vms[i] == usable[0]; assert(of_type(a)(vms[i]));
    let v = vms.filter(of_type(a));
    filter_keeps(vms, of_type(a), i);
    picked_tidy(td, kid_of(to), of_type(a));
    named_by(td, v, (q->Ok_0).1@);
    assert(es_for(text, alg, a, v, (q->Ok_0).0@));
}

@module crate::message::pack_encrypted::authcrypt src/message/pack_encrypted/authcrypt.rs
@raw
use crate::message::unpack::anoncrypt::{method_ids, tidy, distinct, one_did}; use crate::message::unpack::authcrypt::{pu_for, pu_x, pu_p, agreement_key}; use crate::jwe::decrypt::plain_ids; use crate::vx::plain;
/// out is text encrypted by the sender, hidden in an anonymous envelope if that was asked for
pub open spec fn pu_made(text: Seq<u8>, alg: AnonCryptAlg, cover: bool, vms: Seq<VerificationMethod>, by: Seq<char>, s: KnownKeyPair, inner: Seq<char>, out: Seq<char>) -> bool { pu_for(text, vms, by, s, inner) && (if cover { es_some(utf8(inner), alg, vms, out) } else { out == inner }) }
/// s is the secret key of this id
pub open spec fn secret_key(sr: &dyn SecretsResolver, kid: Seq<char>, s: KnownKeyPair) -> bool { exists|x: Result<Option<Secret>>| #[trigger] sr.secret(kid, x) && x is Ok && x->Ok_0 is Some && (x->Ok_0)->0.pair() == Some(s) }
pub open spec fn pu_some(sr: &dyn SecretsResolver, text: Seq<u8>, alg: AnonCryptAlg, cover: bool, vms: Seq<VerificationMethod>, by: Seq<char>, out: Seq<char>) -> bool { exists|s: KnownKeyPair, inner: Seq<char>| secret_key(sr, by, s) && #[trigger] pu_made(text, alg, cover, vms, by, s, inner, out) }
pub proof fn auth_split(text: Seq<u8>, to: Seq<VerificationMethod>, from: VerificationMethod, own: Secret, alg: AnonCryptAlg, cover: bool, out: Seq<char>) -> (c: (KnownKeyPair, Seq<char>))
    requires match from.alg() { KnownKeyAlg::X25519 => auth_x(text, to, from, own, alg, cover, out), _ => auth_p(text, to, from, own, alg, cover, out) }, ensures own.pair() == Some(c.0), pu_made(text, alg, cover, to, from.id@, c.0, c.1, out)
{
    hide(encrypted); hide(secret_pair); hide(es_x); hide(es_p);
    match from.alg() {
        KnownKeyAlg::X25519 => {
            let (r, s, inner) = choose|r: Seq<(&str, &X25519KeyPair)>, s: Option<(&str, &X25519KeyPair)>, inner: Seq<char>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, X25519KeyPair>, X25519KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, s, r, inner) && x_keys(to, r)
                && s is Some && (s->0).0@ == from.id@ && own.pair() == Some(KnownKeyPair::X25519(*(s->0).1)) && (if cover { es_x(utf8(inner), alg, to, out) } else { out == inner });
            let k = KnownKeyPair::X25519(*(s->0).1);
            assert(pu_x(text, to, from.id@, k, inner)); assert(cover ==> es_for(utf8(inner), alg, KnownKeyAlg::X25519, to, out)); (k, inner)
        }
        _ => {
            let (r, s, inner) = choose|r: Seq<(&str, &P256KeyPair)>, s: Option<(&str, &P256KeyPair)>, inner: Seq<char>| #[trigger] encrypted::<AesKey<A256CbcHs512>, Ecdh1PU<'_, P256KeyPair>, P256KeyPair, AesKey<A256Kw>>(text, jwe::Algorithm::Ecdh1puA256kw, jwe::EncAlgorithm::A256cbcHs512, s, r, inner) && p_keys(to, r)
                && s is Some && (s->0).0@ == from.id@ && own.pair() == Some(KnownKeyPair::P256(*(s->0).1)) && (if cover { es_p(utf8(inner), alg, to, out) } else { out == inner });
            let k = KnownKeyPair::P256(*(s->0).1);
            assert(pu_p(text, to, from.id@, k, inner)); assert(cover ==> es_for(utf8(inner), alg, KnownKeyAlg::P256, to, out)); (k, inner)
        }
    }
}
/// an authenticated encryption is by the key it names, one of the sender's key agreement keys, for the keys it names
pub proof fn auth_made(to: Seq<char>, from: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, td: DIDDoc, fd: DIDDoc, text: Seq<u8>, alg: AnonCryptAlg, cover: bool, q: Result<(String, String, Vec<String>)>)
    requires auth(to, from, dr, sr, text, alg, cover, q), q is Ok, answers(dr, did_part(to), td), answers(dr, did_part(from), fd), tidy_doc(td), tidy_doc(fd),
    ensures pu_some(sr, text, alg, cover, methods(td, (q->Ok_0).2@), (q->Ok_0).1@, (q->Ok_0).0@), tidy(methods(td, (q->Ok_0).2@)), method_ids(methods(td, (q->Ok_0).2@)) == texts((q->Ok_0).2@), plain((q->Ok_0).1@), (q->Ok_0).1@.contains('#'), did_part((q->Ok_0).1@) == did_part(fd.key_agreement@[0]@), agreement_key(fd, (q->Ok_0).1@) is Some
{
    hide(auth_x); hide(auth_p); hide(method_pair); hide(method_alg); hide(secret_pair); hide(readable);
    let (out, by, kids) = ((q->Ok_0).0@, (q->Ok_0).1@, (q->Ok_0).2@);
    assert(auth_from(td, kid_of(to), from, dr, sr, text, alg, cover, q));
    assert(auth_docs(td, kid_of(to), fd, kid_of(from), sr, text, alg, cover, q));
    let ids = meant(fd, kid_of(from));
    let (qs, f) = choose|qs: Seq<&str>, f: Result<Vec<&str>>| #[trigger] sr.found(qs, f) && views(qs) =~= texts(ids) && match f { Err(e) => fails(q, e.kind), Ok(v) => all_asked(qs, v@) && auth_found(td, kid_of(to), fd, v@, sr, text, alg, cover, q) };
    let own = f->Ok_0@; let tms = methods(td, meant(td, kid_of(to))); let fms = named_methods(fd, own);
    assert(auth_keys(tms, fms, sr, text, alg, cover, q));
    let k = sender_key(fms, tms)->0;
    first_has(fms.filter(supported()), shared(tms)); filter_order(fms, supported());
    let u = fms.filter(supported()); let e = choose|e: int| 0 <= e < u.len() && u[e] == k; assert(fms.contains(u[e])); let b = choose|b: int| 0 <= b < fms.len() && fms[b] == k;
    assert(fms[b] == method(fd.verification_method@, own[b]@)->0); assert(method(fd.verification_method@, own[b]@) is Some); method_id(fd.verification_method@, own[b]@);
    assert(asked(qs, own[b]@)); let j = choose|j: int| 0 <= j < qs.len() && (#[trigger] qs[j])@ == own[b]@;
    assert(views(qs).len() == qs.len() && texts(ids).len() == ids.len() && views(qs) == texts(ids)); assert(views(qs)[j] == qs[j]@); assert(texts(ids)[j] == ids[j]@);
    let all = fd.key_agreement@; filter_order(all, wanted(kid_of(from))); assert(all.contains(ids[j])); let a = choose|a: int| 0 <= a < all.len() && all[a] == ids[j]; assert(texts(all)[a] == all[a]@); assert(texts(all)[0] == all[0]@);
    assert(k.id@ == all[a]@); assert(lists(all, k.id@));
    let s = choose|s: Result<Option<Secret>>| #[trigger] sr.secret(k.id@, s) && match s { Err(e) => fails(q, e.kind), Ok(None) => fails(q, ErrorKind::InvalidState), Ok(Some(s)) => auth_by(tms, k, s, text, alg, cover, q) };
    let sec = s->Ok_0->0; let v = tms.filter(of_type(k.alg()));
    assert(auth_by(tms, k, sec, text, alg, cover, q));
    let (kp, inner) = auth_split(text, v, k, sec, alg, cover, out);
    let i = choose|i: int| 0 <= i < tms.len() && (#[trigger] tms[i]).alg() == k.alg(); assert(of_type(k.alg())(tms[i])); filter_keeps(tms, of_type(k.alg()), i);
    picked_tidy(td, kid_of(to), of_type(k.alg())); named_by(td, v, kids);
    assert(secret_key(sr, by, kp)); assert(pu_made(text, alg, cover, v, by, kp, inner, out));
}

@module crate::message::unpack src/message/unpack/mod.rs
@raw
use crate::message::pack_encrypted::MessagingServiceMetadata; use crate::message::pack_encrypted::anoncrypt::anon_packed; use crate::vx::plain; use crate::jwe::decrypt::plain_ids; use crate::utils::crypto::{KnownKeyPair, KnownKeyAlg, AsKnownKeyPair}; use crate::message::pack_encrypted::{PackEncryptedOptions, PackEncryptedMetadata}; use crate::message::pack_encrypted::anoncrypt::{methods, es_some, es_for, answers, tidy_doc, anon, anon_made}; use crate::message::pack_encrypted::authcrypt::{auth, auth_made}; use crate::message::pack_encrypted::authcrypt::{pu_made, pu_some, secret_key}; use crate::jwe::envelope::JWE;
// ---------- the encrypted layers of a packed message, unpacked ----------
/// the text that was packed is no envelope itself, and no forward that the caller would unwrap
pub open spec fn content(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions) -> bool { no_jwe(t) && (o.unwrap_re_wrapping_forward ==> unforwarded(t, dr, sr)) }
pub open spec fn no_jwe(t: Seq<char>) -> bool { json_de::<JWE>(t) is Err && crate::error::json_kind(json_de::<JWE>(t)->Err_0) == ErrorKind::Malformed }
pub open spec fn unforwarded(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver) -> bool { forall|u: Result<Option<String>>| #[trigger] rewrapped(t, dr, sr, u) ==> u == Ok::<Option<String>, Error>(None) }
pub proof fn no_hops(x: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, k: nat, t: Seq<char>, m: UnpackMetadata)
    requires hops(dr, sr, o, k, x, t, m), forall|t2: Seq<char>, m2: UnpackMetadata| !#[trigger] hop(dr, sr, o, x, fresh(), t2, m2), ensures k == 0, t == x, m == fresh() decreases k
{ if k > 0 { let (t1, m1) = choose|t1: Seq<char>, m1: UnpackMetadata| hops(dr, sr, o, (k - 1) as nat, x, t1, m1) && #[trigger] hop(dr, sr, o, t1, m1, t, m); no_hops(x, dr, sr, o, (k - 1) as nat, t1, m1); } }
/// what removing the outer anonymous layer leaves: the text of the envelope, or the envelope when it is not anonymous
pub open spec fn anon_leaves(x: Seq<char>, sr: &dyn SecretsResolver, o: UnpackOptions, t: Seq<char>, m: UnpackMetadata, removed: bool) -> bool {
    forall|n: UnpackMetadata, r: Result<Option<String>>| #[trigger] anon_layer(x, sr, o, fresh(), n, r) ==> r is Ok && (r->Ok_0 is Some) == removed && inner(r, x) == t && n == (UnpackMetadata { encrypted_to_kids: n.encrypted_to_kids, ..m }) && (m.encrypted_to_kids is Some) == (n.encrypted_to_kids is Some) && (m.encrypted_to_kids is Some ==> texts(n.encrypted_to_kids->0@) =~= texts(m.encrypted_to_kids->0@))
}
pub open spec fn like(n: UnpackMetadata, m: UnpackMetadata) -> bool { n == (UnpackMetadata { encrypted_to_kids: n.encrypted_to_kids, ..m }) && (m.encrypted_to_kids is Some) == (n.encrypted_to_kids is Some) && (m.encrypted_to_kids is Some ==> texts(n.encrypted_to_kids->0@) =~= texts(m.encrypted_to_kids->0@)) }
/// so unpacking goes on with that
pub proof fn peels(x: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions, t: Seq<char>, m: UnpackMetadata, removed: bool, r: Result<(Message, UnpackMetadata)>)
    requires unpacked(x, dr, sr, o, r), anon_leaves(x, sr, o, t, m, removed), removed && o.unwrap_re_wrapping_forward ==> unforwarded(t, dr, sr),
    ensures exists|n: UnpackMetadata, n2: UnpackMetadata, y: Result<Option<String>>| like(n, m) && #[trigger] auth_layer(t, dr, sr, o, n, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(y, t), dr, n2, r) }
{
    hide(anon_layer); hide(auth_layer); hide(rewrapped); hide(then_sign);
    assert forall|t2: Seq<char>, m2: UnpackMetadata| !#[trigger] hop(dr, sr, o, x, fresh(), t2, m2) by {
        if hop(dr, sr, o, x, fresh(), t2, m2) {
            let (n, r, u) = choose|n: UnpackMetadata, r: Result<Option<String>>, u: Result<Option<String>>| #![trigger anon_layer(x, sr, o, fresh(), n, r), rewrapped((r->Ok_0)->0@, dr, sr, u)]
                anon_layer(x, sr, o, fresh(), n, r) && r is Ok && r->Ok_0 is Some && o.unwrap_re_wrapping_forward && rewrapped((r->Ok_0)->0@, dr, sr, u) && u is Ok && u->Ok_0 is Some && t2 == (u->Ok_0)->0@ && m2 == (UnpackMetadata { re_wrapped_in_forward: true, ..n });
            assert(inner(r, x) == t);
        }
    }
    if r is Err && unpeeled(x, dr, sr, o, r->Err_0.kind) {
        let kind = r->Err_0.kind;
        let (t1, m1) = choose|t1: Seq<char>, m1: UnpackMetadata| #[trigger] reached(dr, sr, o, x, t1, m1) && anon_stops(t1, dr, sr, o, m1, kind);
        let k = choose|k: nat| #[trigger] hops(dr, sr, o, k, x, t1, m1); no_hops(x, dr, sr, o, k, t1, m1);
        let (n, y) = choose|n: UnpackMetadata, y: Result<Option<String>>| #[trigger] anon_layer(t1, sr, o, m1, n, y) && match y { Err(e) => e.kind == kind, Ok(a) => a is Some && o.unwrap_re_wrapping_forward && exists|u: Result<Option<String>>| #[trigger] rewrapped(a->0@, dr, sr, u) && u is Err && u->Err_0.kind == kind };
        assert(inner(y, x) == t); assert(false);
    }
    let (t2, m2, n2, y) = choose|t2: Seq<char>, m2: UnpackMetadata, n2: UnpackMetadata, y: Result<Option<String>>| #[trigger] auth_at(x, dr, sr, o, t2, m2, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(y, t2), dr, n2, r) };
    let (t1, m1) = choose|t1: Seq<char>, m1: UnpackMetadata| #[trigger] reached(dr, sr, o, x, t1, m1) && anon_done(t1, dr, sr, o, m1, t2, m2);
    let k = choose|k: nat| #[trigger] hops(dr, sr, o, k, x, t1, m1); no_hops(x, dr, sr, o, k, t1, m1);
    let z = choose|z: Result<Option<String>>| #[trigger] anon_layer(t1, sr, o, m1, m2, z) && z is Ok && t2 == inner(z, t1) && (o.unwrap_re_wrapping_forward && z->Ok_0 is Some ==> rewrapped((z->Ok_0)->0@, dr, sr, Ok::<Option<String>, Error>(None)));
    assert(t2 == t && like(m2, m)); assert(auth_layer(t, dr, sr, o, m2, n2, y));
}
pub proof fn same_strings(a: Vec<String>, b: Vec<String>) requires texts(a@) =~= texts(b@) ensures a == b
{
    broadcast use crate::vx::value_axioms;
    assert(texts(a@) == texts(b@)); assert(texts(a@).len() == a@.len() && texts(b@).len() == b@.len());
    assert forall|i: int| 0 <= i < a@.len() implies #[trigger] a@[i] == b@[i] by { assert(texts(a@)[i] == a@[i]@); assert(texts(b@)[i] == b@[i]@); assert(str_of(a@[i]@) == str_of(b@[i]@)); }
    assert(a@ =~= b@); assert(vec_of(a@) == vec_of(b@));
}
pub proof fn same_string(a: String, b: String) requires a@ == b@ ensures a == b
{ broadcast use crate::vx::value_axioms; assert(str_of(a@) == str_of(b@)); }
/// an object without an id is no message
pub proof fn no_message(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver) requires tree(t) is Some, tree(t)->0 is Object, at(tree(t)->0, "id"@) is None ensures unforwarded(t, dr, sr)
{
    broadcast use {crate::vx::value_axioms, json_axioms};
    message_text(t); message_read(tree(t)->0->Object_0);
}
/// env is the text encrypted as asked: by the key `by` of the sender, if there is one, for the keys that are named
pub open spec fn enveloped(t: Seq<char>, to: Seq<char>, from: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: PackEncryptedOptions, env: Seq<char>, by: Option<String>, kids: Vec<String>) -> bool { match from {
    None => by is None && exists|q: Result<(String, Vec<String>)>| #[trigger] anon(to, dr, utf8(t), o.enc_alg_anon, q) && q is Ok && (q->Ok_0).0@ == env && (q->Ok_0).1 == kids,
    Some(f) => by is Some && exists|q: Result<(String, String, Vec<String>)>| #[trigger] auth(to, f@, dr, sr, utf8(t), o.enc_alg_anon, o.protect_sender, q) && q is Ok && (q->Ok_0).0@ == env && (q->Ok_0).1 == by->0 && (q->Ok_0).2 == kids } }
/// the metadata names exactly these layers and keys
pub open spec fn enc_meta(from: Option<&str>, o: PackEncryptedOptions, by: Option<String>, kids: Vec<String>) -> UnpackMetadata {
    let anon = from is None || o.protect_sender;
    UnpackMetadata { encrypted: true, authenticated: from is Some, anonymous_sender: anon, encrypted_from_kid: by, encrypted_to_kids: Some(kids), enc_alg_auth: if from is Some { Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw) } else { None }, enc_alg_anon: if anon { Some(o.enc_alg_anon) } else { None }, ..fresh() }
}
/// the recipient holds secrets of keys that the envelope is for, and they are the halves of the published keys; so is the sender's
pub open spec fn can_read(from: Option<&str>, td: DIDDoc, fd: DIDDoc, sr: &dyn SecretsResolver, o: PackEncryptedOptions, by: Option<String>, kids: Vec<String>, sr2: &dyn SecretsResolver) -> bool {
    &&& from is None || o.protect_sender ==> holds(sr2, methods(td, kids@), es_half())
    &&& from is Some && agreement_key(fd, by->0@) is Some ==> agreement_key(fd, by->0@)->0.pair() is Some && forall|s: KnownKeyPair| #[trigger] secret_key(sr, by->0@, s) ==> holds(sr2, methods(td, kids@), pu_half(s, agreement_key(fd, by->0@)->0.pair()->0))
}
/// the documents: tidy, and with keys of their own DID
pub open spec fn document(dr: &dyn DIDResolver, a: Seq<char>, d: DIDDoc) -> bool { answers(dr, did_part(a), d) && tidy_doc(d) && (d.key_agreement@.len() > 0 ==> did_part(d.key_agreement@[0]@) == did_part(a)) }
/// the metadata of an anonymous layer alone
pub open spec fn anon_meta(alg: AnonCryptAlg, kids: Vec<String>) -> UnpackMetadata { UnpackMetadata { encrypted: true, anonymous_sender: true, encrypted_to_kids: Some(kids), enc_alg_anon: Some(alg), ..fresh() } }
pub proof fn cover_leaves(t: Seq<char>, alg: AnonCryptAlg, vms: Seq<VerificationMethod>, kids: Vec<String>, out: Seq<char>, x: Seq<char>, sr: &dyn SecretsResolver, u: UnpackOptions)
    requires es_some(utf8(t), alg, vms, out), same_json(x, out), tidy(vms), ciphers_work(), holds(sr, vms, es_half()), method_ids(vms) == texts(kids@), ensures anon_leaves(x, sr, u, t, anon_meta(alg, kids), true)
{
    hide(anon_layer); hide(ciphers_work); hide(holds); hide(tidy); hide(es_for);
    let a = choose|a: KnownKeyAlg| #[trigger] es_for(utf8(t), alg, a, vms, out);
    assert forall|n: UnpackMetadata, r: Result<Option<String>>| #[trigger] anon_layer(x, sr, u, fresh(), n, r) implies r is Ok && (r->Ok_0 is Some) == true && inner(r, x) == t && like(n, anon_meta(alg, kids)) by { anon_reads(t, alg, a, vms, out, x, sr, u, fresh(), n, r); }
}
pub proof fn pu_leaves(t: Seq<char>, vms: Seq<VerificationMethod>, by: Seq<char>, s: KnownKeyPair, out: Seq<char>, x: Seq<char>, sr: &dyn SecretsResolver, u: UnpackOptions)
    requires pu_for(utf8(t), vms, by, s, out), same_json(x, out), tidy(vms), plain(by), ciphers_work(), ensures anon_leaves(x, sr, u, x, fresh(), false)
{
    hide(anon_layer); hide(ciphers_work); hide(tidy); hide(pu_for);
    assert forall|n: UnpackMetadata, r: Result<Option<String>>| #[trigger] anon_layer(x, sr, u, fresh(), n, r) implies r is Ok && (r->Ok_0 is Some) == false && inner(r, x) == x && like(n, fresh()) by { pu_passes(utf8(t), vms, by, s, out, x, sr, u, fresh(), n, r); }
}
/// what was packed comes out of its encryption, with its metadata
pub proof fn opens(t: Seq<char>, to: Seq<char>, from: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, td: DIDDoc, fd: DIDDoc, o: PackEncryptedOptions, env: Seq<char>, by: Option<String>, kids: Vec<String>, x: Seq<char>, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions, r: Result<(Message, UnpackMetadata)>)
    requires enveloped(t, to, from, dr, sr, o, env, by, kids), same_json(x, env), document(dr, to, td), from is Some ==> document(dr, from->0@, fd) && answers(dr2, did_part(from->0@), fd), can_read(from, td, fd, sr, o, by, kids, sr2), ciphers_work(), content(t, dr2, sr2, u), unpacked(x, dr2, sr2, u, r),
    ensures then_sign(t, dr2, enc_meta(from, o, by, kids), r)
{
    hide(anon_layer); hide(rewrapped); hide(then_sign); hide(unpacked); hide(ciphers_work); hide(holds); hide(tidy); hide(method_pair); hide(method_alg); hide(pu_for); hide(auth_opened); hide(anon); hide(auth); hide(es_some);
    let vms = methods(td, kids@); let want = enc_meta(from, o, by, kids);
    match from {
        None => {
            let q = choose|q: Result<(String, Vec<String>)>| #[trigger] anon(to, dr, utf8(t), o.enc_alg_anon, q) && q is Ok && (q->Ok_0).0@ == env && (q->Ok_0).1 == kids;
            anon_made(to, dr, td, utf8(t), o.enc_alg_anon, q);
            cover_leaves(t, o.enc_alg_anon, vms, kids, env, x, sr2, u);
            peels(x, dr2, sr2, u, t, anon_meta(o.enc_alg_anon, kids), true, r);
            let (n, n2, y) = choose|n: UnpackMetadata, n2: UnpackMetadata, y: Result<Option<String>>| like(n, anon_meta(o.enc_alg_anon, kids)) && #[trigger] auth_layer(t, dr2, sr2, u, n, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(y, t), dr2, n2, r) };
            same_strings(n.encrypted_to_kids->0, kids);
            assert(n2 == want);
        }
        Some(f) => {
            let q = choose|q: Result<(String, String, Vec<String>)>| #[trigger] auth(to, f@, dr, sr, utf8(t), o.enc_alg_anon, o.protect_sender, q) && q is Ok && (q->Ok_0).0@ == env && (q->Ok_0).1 == by->0 && (q->Ok_0).2 == kids;
            auth_made(to, f@, dr, sr, td, fd, utf8(t), o.enc_alg_anon, o.protect_sender, q);
            let b = by->0@; let key = agreement_key(fd, b)->0;
            let (s, e) = choose|s: KnownKeyPair, e: Seq<char>| secret_key(sr, b, s) && #[trigger] pu_made(utf8(t), o.enc_alg_anon, o.protect_sender, vms, b, s, e, env);
            assert(fd.key_agreement@.len() > 0) by { let i = choose|i: int| 0 <= i < fd.key_agreement@.len() && (#[trigger] fd.key_agreement@[i])@ == b; }
            if o.protect_sender {
                cover_leaves(e, o.enc_alg_anon, vms, kids, env, x, sr2, u);
                assert(plain_ids(method_ids(vms))) by { reveal(tidy); } pu_legible(utf8(t), vms, b, s, e, e);
                no_message(e, dr2, sr2);
                let m = anon_meta(o.enc_alg_anon, kids);
                peels(x, dr2, sr2, u, e, m, true, r);
                let (n, n2, y) = choose|n: UnpackMetadata, n2: UnpackMetadata, y: Result<Option<String>>| like(n, m) && #[trigger] auth_layer(e, dr2, sr2, u, n, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(y, e), dr2, n2, r) };
                same_strings(n.encrypted_to_kids->0, kids);
                auth_reads(t, vms, b, s, key, fd, e, e, dr2, sr2, u, n, n2, y);
                same_string(n2.encrypted_from_kid->0, by->0);
                assert(n2 == want);
            } else {
                pu_leaves(t, vms, b, s, env, x, sr2, u);
                peels(x, dr2, sr2, u, x, fresh(), false, r);
                let (n, n2, y) = choose|n: UnpackMetadata, n2: UnpackMetadata, y: Result<Option<String>>| like(n, fresh()) && #[trigger] auth_layer(x, dr2, sr2, u, n, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(y, x), dr2, n2, r) };
                assert(n == fresh());
                auth_reads(t, vms, b, s, key, fd, env, x, dr2, sr2, u, n, n2, y);
                same_strings(n2.encrypted_to_kids->0, kids);
                same_string(n2.encrypted_from_kid->0, by->0);
                assert(n2 == want);
            }
        }
    }
}

@module crate::jws::verify src/jws/verify.rs
@raw
use crate::vx::plain; use crate::serde_json::{no_members, jstr, members, obj};
pub proof fn jws_texts_plain() ensures plain("application/didcomm-signed+json"@), plain("EdDSA"@), plain("ES256"@), plain("ES256K"@)
{
    reveal_strlit("application/didcomm-signed+json"); assert forall|i: int| 0 <= i < "application/didcomm-signed+json"@.len() implies (#[trigger] "application/didcomm-signed+json"@[i]) != '"' && "application/didcomm-signed+json"@[i] != '\\' && "application/didcomm-signed+json"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14 || i == 15 || i == 16 || i == 17 || i == 18 || i == 19 || i == 20 || i == 21 || i == 22 || i == 23 || i == 24 || i == 25 || i == 26 || i == 27 || i == 28 || i == 29 || i == 30); }
    reveal_strlit("EdDSA"); assert forall|i: int| 0 <= i < "EdDSA"@.len() implies (#[trigger] "EdDSA"@[i]) != '"' && "EdDSA"@[i] != '\\' && "EdDSA"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4); }
    reveal_strlit("ES256"); assert forall|i: int| 0 <= i < "ES256"@.len() implies (#[trigger] "ES256"@[i]) != '"' && "ES256"@[i] != '\\' && "ES256"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4); }
    reveal_strlit("ES256K"); assert forall|i: int| 0 <= i < "ES256K"@.len() implies (#[trigger] "ES256K"@[i]) != '"' && "ES256K"@[i] != '\\' && "ES256K"@[i] as u32 >= 0x20 by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5); }
}
/// a signed message is an object with a payload, without an id and without what an encrypted one has
pub open spec fn jws_like(t: Seq<char>) -> bool { tree(t) is Some && tree(t)->0 is Object && at(tree(t)->0, "id"@) is None && at(tree(t)->0, "ciphertext"@) is None }
/// what sign makes for a plain key id can be read and parsed
pub proof fn signed_legible<K>(payload: Seq<u8>, kid: Seq<char>, key: K, alg: Algorithm, out: Seq<char>)
    requires crate::jws::sign::signed(payload, kid, key, alg, out), plain(kid), !(alg is Other),
    ensures json_de::<JWS>(out) is Ok, forall|k: ErrorKind| !jws_bad(json_de::<JWS>(out)->Ok_0, seq![], k), jws_like(out)
{
    broadcast use {value_axioms, json_axioms, clean_axioms}; jws_names(); jws_texts_plain();
    let u = crate::base64::URL_SAFE_NO_PAD;
    let (j, h, m, ty, sig) = choose|j: JWS, h: ProtectedHeader, m: Seq<u8>, ty: Option<SignatureType>, sig: Seq<u8>| crate::jws::sign::is_signed(payload, kid, key, alg, j, h, m, ty, sig, out);
    let t = json_ser(&h)->Ok_0; let s = j.signatures@[0];
    crate::base64::enc_plain(u, payload); crate::base64::enc_plain(u, sig); crate::base64::enc_plain(u, utf8(t));
    jws_written(j); header_written(h); jws_alg_names(alg, str_of(seq![]));
    assert(clean(sig_wire(s)));
    assert forall|i: int| 0 <= i < j.signatures@.len() implies clean(sig_wire(#[trigger] j.signatures@[i])) by {}
    assert(clean(j.ser()));
    let v = j.signatures@.map_values(|s: Signature| sig_wire(s));
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] Signature::de(v[i])) is Some by { assert(v[i] == sig_wire(j.signatures@[i])); }
    assert(JWS::de(j.ser()) is Some);
    reads_same::<JWS, JWS>(j, out); writes(j);
    let b = json_de::<JWS>(out)->Ok_0;
    assert(clean(h.ser()) && ProtectedHeader::de(h.ser()) is Some);
    reads_same::<ProtectedHeader, ProtectedHeader>(h, t); reads_bytes::<ProtectedHeader>(t);
    crate::base64::dec_enc(u, utf8(t)); assert(Seq::<u8>::empty() + utf8(t) =~= utf8(t));
    assert(b.signatures@.len() == 1); assert(b.signatures@[0].protected@ == s.protected@);
    reveal_strlit("id"); reveal_strlit("ciphertext"); reveal_strlit("payload"); reveal_strlit("signatures"); assert("id"@.len() == 2 && "ciphertext"@.len() == 10 && "payload"@.len() == 7 && "signatures"@.len() == 10); assert("ciphertext"@[0] != "signatures"@[0]);
}

@module crate::message::unpack src/message/unpack/mod.rs
@raw
use crate::message::from_prior::pack::fails as refused; use crate::message::pack_plaintext::{written, plaintext, carried}; use crate::message::pack_signed::{sealed, signature, with_doc, with_secret, with_key, may_sign, key_named, PackSignedMetadata}; use crate::message::from_prior::unpack::{auth_key, prior}; use crate::message::pack_encrypted::{packing, conveyed, sent}; use crate::jws::verify::{jws_like, signed_legible, sign_then_verify}; use crate::askar_crypto::sign::verifies;
// ---------- the signature of a packed message, unpacked ----------
/// public is the public half of s
pub open spec fn sig_match(s: KnownKeyPair, public: Option<KnownKeyPair>) -> bool { match (s, public) {
    (KnownKeyPair::Ed25519(s), Some(KnownKeyPair::Ed25519(p))) => verifies(s, p), (KnownKeyPair::P256(s), Some(KnownKeyPair::P256(p))) => verifies(s, p), (KnownKeyPair::K256(s), Some(KnownKeyPair::K256(p))) => verifies(s, p), _ => false } }
pub open spec fn sign_alg_by(s: KnownKeyPair) -> Option<SignAlg> { match s { KnownKeyPair::Ed25519(_) => Some(SignAlg::EdDSA), KnownKeyPair::P256(_) => Some(SignAlg::ES256), KnownKeyPair::K256(_) => Some(SignAlg::ES256K), KnownKeyPair::X25519(_) => None } }
/// the metadata m with the signature of env
pub open spec fn sign_meta(m: UnpackMetadata, s: KnownKeyPair, kid: String, env: String) -> UnpackMetadata { UnpackMetadata { authenticated: true, non_repudiation: true, sign_from: Some(kid), sign_alg: sign_alg_by(s), signed_message: Some(env), ..m } }
/// a signed text is no encrypted one and no message
pub proof fn signed_content(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: UnpackOptions) requires jws_like(t) ensures content(t, dr, sr, o)
{ not_jwe(t); no_message(t, dr, sr); }
pub proof fn not_jwe(t: Seq<char>) requires tree(t) is Some, tree(t)->0 is Object, at(tree(t)->0, "ciphertext"@) is None ensures no_jwe(t)
{ broadcast use {crate::vx::value_axioms, json_axioms}; reads_ok::<JWE>(t); reads_data::<JWE>(t); }
pub proof fn not_jws(t: Seq<char>, dr: &dyn DIDResolver, m: UnpackMetadata, n: UnpackMetadata, y: Result<Option<String>>) requires tree(t) is Some, tree(t)->0 is Object, at(tree(t)->0, "payload"@) is None, sign_layer(t, dr, m, n, y) ensures passed(m, n, y)
{ broadcast use {crate::vx::value_axioms, json_axioms}; reads_ok::<crate::jws::JWS>(t); reads_data::<crate::jws::JWS>(t); }
/// the key that signs: the document lists it, and it is the half of the published one
pub open spec fn can_verify(sr: &dyn SecretsResolver, sd: DIDDoc, kid: Seq<char>) -> bool { forall|s: KnownKeyPair| #[trigger] secret_key(sr, kid, s) ==> auth_key(sd, kid) is Some && sig_match(s, auth_key(sd, kid)->0.pair()) }
pub open spec fn signer(dr: &dyn DIDResolver, a: Seq<char>, d: DIDDoc) -> bool { answers(dr, did_part(a), d) && forall|i: int| 0 <= i < d.authentication@.len() ==> plain((#[trigger] d.authentication@[i])@) && of_did(d.authentication@[i]@, did_part(a)) }
pub open spec fn sealed_by(t: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, kid: Seq<char>, s: KnownKeyPair, r: Result<(String, PackSignedMetadata)>) -> bool { secret_key(sr, kid, s) && sealed(t, kid, s, r) }
pub open spec fn signed_text_of(m: Message, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, sd: DIDDoc, t: Seq<char>, s: KnownKeyPair, r: Result<(String, PackSignedMetadata)>) -> bool {
    let kid = (r->Ok_0).1.sign_by_kid@; r is Ok && sealed_by(t, dr, sr, kid, s, r) && lists(sd.authentication@, kid) && plaintext_is(m, dr, t) }
pub open spec fn plaintext_is(m: Message, dr: &dyn DIDResolver, t: Seq<char>) -> bool { exists|p: Result<String>| #[trigger] plaintext(m, dr, p) && p is Ok && p->Ok_0@ == t }
/// a signed message holds the message's text, signed by a key that the signer's document lists
pub proof fn signed_made(m: Message, by: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, sd: DIDDoc, r: Result<(String, PackSignedMetadata)>) -> (c: (Seq<char>, KnownKeyPair))
    requires signature(m, by, dr, sr, r), r is Ok, signer(dr, by, sd), ensures signed_text_of(m, dr, sr, sd, c.0, c.1, r)
{
    hide(plaintext); hide(secret_pair);
    assert(with_doc(m, dr, sd, key_named(by), sr, r));
    let kids = may_sign(sd, key_named(by))->0;
    let (ids, f) = choose|ids: Seq<&str>, f: Result<Vec<&str>>| ids.map_values(|s: &str| s@) =~= kids && #[trigger] sr.found(ids, f) && match f { Err(e) => refused(r, e.kind), Ok(v) => all_asked(ids, v@) && if v@.len() == 0 { refused(r, ErrorKind::SecretNotFound) } else { with_secret(m, dr, v@[0]@, sr, r) } };
    let v = f->Ok_0@; let kid = v[0]@;
    let x = choose|x: Result<Option<Secret>>| #[trigger] sr.secret(kid, x) && match x { Err(e) => refused(r, e.kind), Ok(None) => refused(r, ErrorKind::SecretNotFound), Ok(Some(x)) => with_key(m, dr, kid, x.pair(), r) };
    let s = (x->Ok_0)->0.pair()->0;
    let p = choose|p: Result<String>| #[trigger] plaintext(m, dr, p) && match p { Err(e) => refused(r, e.kind), Ok(t) => sealed(t@, kid, s, r) };
    assert(asked(ids, kid)); let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j])@ == kid;
    let w = ids.map_values(|s: &str| s@); assert(w.len() == ids.len() && w == kids); assert(w[j] == kid);
    assert(lists(sd.authentication@, kid)) by { if key_named(by) is None { assert(kids == sd.authentication@.map_values(|s: String| s@)); assert(kids[j] == sd.authentication@[j]@); } }
    (p->Ok_0@, s)
}
/// a signed message looks like one
pub proof fn signed_like(m: Message, by: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, sd: DIDDoc, r: Result<(String, PackSignedMetadata)>, t: Seq<char>, s: KnownKeyPair)
    requires signed_text_of(m, dr, sr, sd, t, s, r), signer(dr, by, sd), ensures jws_like((r->Ok_0).0@)
{
    hide(plaintext); hide(secret_pair); hide(method_pair); hide(crate::jws::sign::signed); hide(secret_key); hide(verifies); hide(auth_key); hide(jws_like);
    let out = (r->Ok_0).0@; let kid = (r->Ok_0).1.sign_by_kid@;
    let i = choose|i: int| 0 <= i < sd.authentication@.len() && (#[trigger] sd.authentication@[i])@ == kid;
    match s {
        KnownKeyPair::Ed25519(k) => { signed_legible(utf8(t), kid, k, crate::jws::Algorithm::EdDSA, out); }
        KnownKeyPair::P256(k) => { signed_legible(utf8(t), kid, k, crate::jws::Algorithm::Es256, out); }
        KnownKeyPair::K256(k) => { signed_legible(utf8(t), kid, k, crate::jws::Algorithm::Es256K, out); }
        _ => {}
    }
}
/// what was signed is verified, and the text comes out
pub proof fn sign_reads(m: Message, by: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, sd: DIDDoc, r: Result<(String, PackSignedMetadata)>, t: Seq<char>, s: KnownKeyPair, dr2: &dyn DIDResolver, n: UnpackMetadata, n2: UnpackMetadata, y: Result<Option<String>>)
    requires signed_text_of(m, dr, sr, sd, t, s, r), signer(dr, by, sd), answers(dr2, did_part(by), sd), can_verify(sr, sd, (r->Ok_0).1.sign_by_kid@), sign_layer((r->Ok_0).0@, dr2, n, n2, y),
    ensures jws_like((r->Ok_0).0@), y is Ok, y->Ok_0 is Some, (y->Ok_0)->0@ == t, n2 == sign_meta(n, s, (r->Ok_0).1.sign_by_kid, (r->Ok_0).0)
{
    hide(plaintext); hide(secret_pair); hide(method_pair); hide(crate::jws::sign::signed); hide(secret_key); hide(verifies); hide(auth_key);
    let out = (r->Ok_0).0@; let kid = (r->Ok_0).1.sign_by_kid@;
    let i = choose|i: int| 0 <= i < sd.authentication@.len() && (#[trigger] sd.authentication@[i])@ == kid;
    let v = auth_key(sd, kid)->0;
    text_of_utf8(t);
    match s {
        KnownKeyPair::Ed25519(k) => { signed_legible(utf8(t), kid, k, crate::jws::Algorithm::EdDSA, out); }
        KnownKeyPair::P256(k) => { signed_legible(utf8(t), kid, k, crate::jws::Algorithm::Es256, out); }
        KnownKeyPair::K256(k) => { signed_legible(utf8(t), kid, k, crate::jws::Algorithm::Es256K, out); }
        _ => {}
    }
    let j = json_de::<crate::jws::JWS>(out)->Ok_0;
    let p = choose|p: crate::jws::ParsedJWS| p.jws == j && #[trigger] crate::jws::parse::jws_read(j, p.protected@, seq![]) && signed_by(p, dr2, out, n, n2, y);
    match (s, v.pair()->0) {
        (KnownKeyPair::Ed25519(k), KnownKeyPair::Ed25519(q)) => { sign_then_verify(utf8(t), kid, k, q, crate::jws::Algorithm::EdDSA, out, p); }
        (KnownKeyPair::P256(k), KnownKeyPair::P256(q)) => { sign_then_verify(utf8(t), kid, k, q, crate::jws::Algorithm::Es256, out, p); }
        (KnownKeyPair::K256(k), KnownKeyPair::K256(q)) => { sign_then_verify(utf8(t), kid, k, q, crate::jws::Algorithm::Es256K, out, p); }
        _ => {}
    }
    assert(signed_in(p, sd, out, n, n2, y));
    assert(first_signature(p, v.pair()) == Some(true));
    same_string(n2.sign_from->0, (r->Ok_0).1.sign_by_kid); same_string(n2.signed_message->0, (r->Ok_0).0);
}
// ---------- the message itself ----------
/// a message whose extra headers are none of the specification's and none of an envelope's, of the plaintext type
pub open spec fn ordinary(m: Message) -> bool { no_reuse(m) && m.typ@ == plaintext_typ() && !hm(m.extra_headers).contains_key("ciphertext"@) && !hm(m.extra_headers).contains_key("payload"@) }
/// the metadata with the message's claim, if it has one
pub open spec fn with_claim(j: Option<String>, dr: &dyn DIDResolver, m: UnpackMetadata, n: UnpackMetadata) -> bool { match j {
    None => n == m,
    Some(j) => n == (UnpackMetadata { from_prior: n.from_prior, from_prior_issuer_kid: n.from_prior_issuer_kid, ..m }) && n.from_prior is Some && n.from_prior_issuer_kid is Some && prior(j@, dr, Ok::<(FromPrior, String), Error>((n.from_prior->0, n.from_prior_issuer_kid->0))) } }
/// the claim, if there is one, can be verified
pub open spec fn claim_ok(m: Message, dr: &dyn DIDResolver) -> bool { m.from_prior is Some ==> forall|c: Result<(FromPrior, String)>| #[trigger] prior(m.from_prior->0@, dr, c) ==> c is Ok }
pub proof fn message_like(m: Message, t: Seq<char>) requires json_ser(&m) == Ok::<Seq<char>, serde_json::Error>(t), ordinary(m)
    ensures tree(t) == Some(m.ser()), m.ser() is Object, at(m.ser(), "ciphertext"@) is None, at(m.ser(), "payload"@) is None, json_de::<Message>(t) == Ok::<Message, serde_json::Error>(m)
{
    broadcast use {crate::vx::value_axioms, json_axioms, hm_axioms}; message_names(); writes(m); reads_owned::<Message>(t); message_round_trip(m); message_written(m);
    reveal_strlit("ciphertext"); reveal_strlit("payload"); reveal_strlit("id"); reveal_strlit("typ"); reveal_strlit("type"); reveal_strlit("body"); reveal_strlit("from"); reveal_strlit("to"); reveal_strlit("thid"); reveal_strlit("pthid"); reveal_strlit("created_time"); reveal_strlit("expires_time"); reveal_strlit("from_prior"); reveal_strlit("attachments");
    assert("ciphertext"@.len() == 10 && "payload"@.len() == 7 && "id"@.len() == 2 && "typ"@.len() == 3 && "type"@.len() == 4 && "body"@.len() == 4 && "from"@.len() == 4 && "to"@.len() == 2 && "thid"@.len() == 4 && "pthid"@.len() == 5 && "created_time"@.len() == 12 && "expires_time"@.len() == 12 && "from_prior"@.len() == 10 && "attachments"@.len() == 11);
    assert("ciphertext"@[0] != "from_prior"@[0]);
}
pub proof fn plain_reads(m: Message, dr: &dyn DIDResolver, t: Seq<char>, dr2: &dyn DIDResolver, n: UnpackMetadata, r: Result<(Message, UnpackMetadata)>)
    requires plaintext_is(m, dr, t), ordinary(m), claim_ok(m, dr2), last_plain(t, dr2, n, r), ensures r is Ok, (r->Ok_0).0 == m, with_claim(m.from_prior, dr2, n, (r->Ok_0).1)
{
    hide(prior);
    let p = choose|p: Result<String>| #[trigger] plaintext(m, dr, p) && p is Ok && p->Ok_0@ == t;
    assert(written(m, p)); message_like(m, t);
}
pub proof fn plain_content(m: Message, dr: &dyn DIDResolver, t: Seq<char>, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions) requires plaintext_is(m, dr, t), ordinary(m), u.unwrap_re_wrapping_forward ==> forward_of(m) is None ensures content(t, dr2, sr2, u)
{
    hide(prior);
    let p = choose|p: Result<String>| #[trigger] plaintext(m, dr, p) && p is Ok && p->Ok_0@ == t;
    assert(written(m, p)); message_like(m, t); not_jwe(t);
}
/// the same, when there is no signature
pub proof fn unsigned_reads(m: Message, dr: &dyn DIDResolver, t: Seq<char>, dr2: &dyn DIDResolver, n: UnpackMetadata, r: Result<(Message, UnpackMetadata)>)
    requires plaintext_is(m, dr, t), ordinary(m), claim_ok(m, dr2), then_sign(t, dr2, n, r), ensures r is Ok, (r->Ok_0).0 == m, with_claim(m.from_prior, dr2, n, (r->Ok_0).1)
{
    hide(prior); hide(sign_layer); hide(last_plain);
    let p = choose|p: Result<String>| #[trigger] plaintext(m, dr, p) && p is Ok && p->Ok_0@ == t;
    assert(written(m, p)); message_like(m, t);
    let (n2, y) = choose|n2: UnpackMetadata, y: Result<Option<String>>| #[trigger] sign_layer(t, dr2, n, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => last_plain(inner(y, t), dr2, n2, r) };
    not_jws(t, dr2, n, n2, y); plain_reads(m, dr, t, dr2, n, r);
}
/// a text that is no encrypted message: unpacking starts at the signature
pub proof fn bare(t: Seq<char>, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions, r: Result<(Message, UnpackMetadata)>) requires no_jwe(t), unpacked(t, dr2, sr2, u, r) ensures then_sign(t, dr2, fresh(), r)
{
    hide(then_sign); hide(unpacked);
    assert(anon_leaves(t, sr2, u, t, fresh(), false));
    peels(t, dr2, sr2, u, t, fresh(), false, r);
}
// ---------- the round trips ----------
pub proof fn round_trip_plain(m: Message, dr: &dyn DIDResolver, t: String, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions, r: Result<(Message, UnpackMetadata)>)
    requires plaintext(m, dr, Ok::<String, Error>(t)), ordinary(m), claim_ok(m, dr2), unpacked(t@, dr2, sr2, u, r), ensures r is Ok, (r->Ok_0).0 == m, with_claim(m.from_prior, dr2, fresh(), (r->Ok_0).1)
{
    hide(unpacked); hide(then_sign); hide(plaintext);
    assert(plaintext_is(m, dr, t@));
    plain_content(m, dr, t@, dr2, sr2, UnpackOptions { unwrap_re_wrapping_forward: false, ..u }); bare(t@, dr2, sr2, u, r); unsigned_reads(m, dr, t@, dr2, fresh(), r);
}
/// a signed message, with whatever was removed around it
pub proof fn signed_reads(m: Message, by: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, sd: DIDDoc, e: Result<(String, PackSignedMetadata)>, t: Seq<char>, s: KnownKeyPair, dr2: &dyn DIDResolver, n: UnpackMetadata, r: Result<(Message, UnpackMetadata)>)
    requires signed_text_of(m, dr, sr, sd, t, s, e), signer(dr, by, sd), answers(dr2, did_part(by), sd), can_verify(sr, sd, (e->Ok_0).1.sign_by_kid@), ordinary(m), claim_ok(m, dr2), then_sign((e->Ok_0).0@, dr2, n, r),
    ensures r is Ok, (r->Ok_0).0 == m, with_claim(m.from_prior, dr2, sign_meta(n, s, (e->Ok_0).1.sign_by_kid, (e->Ok_0).0), (r->Ok_0).1)
{
    hide(sign_layer); hide(last_plain); hide(signer); hide(can_verify); hide(claim_ok);
    let x = (e->Ok_0).0@;
    let (n2, y) = choose|n2: UnpackMetadata, y: Result<Option<String>>| #[trigger] sign_layer(x, dr2, n, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => last_plain(inner(y, x), dr2, n2, r) };
    sign_reads(m, by, dr, sr, sd, e, t, s, dr2, n, n2, y);
    plain_reads(m, dr, t, dr2, n2, r);
}
/// with_claim over the metadata of a signature by a key of this id
pub open spec fn sign_claim(m: Message, sr: &dyn SecretsResolver, kid: String, env: String, dr: &dyn DIDResolver, n: UnpackMetadata, r: UnpackMetadata) -> bool { exists|s: KnownKeyPair| #[trigger] secret_key(sr, kid@, s) && with_claim(m.from_prior, dr, sign_meta(n, s, kid, env), r) }
pub proof fn round_trip_signed(m: Message, by: Seq<char>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, sd: DIDDoc, e: Result<(String, PackSignedMetadata)>, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions, r: Result<(Message, UnpackMetadata)>)
    requires signature(m, by, dr, sr, e), e is Ok, signer(dr, by, sd), answers(dr2, did_part(by), sd), can_verify(sr, sd, (e->Ok_0).1.sign_by_kid@), ordinary(m), claim_ok(m, dr2), unpacked((e->Ok_0).0@, dr2, sr2, u, r),
    ensures r is Ok, (r->Ok_0).0 == m, sign_claim(m, sr, (e->Ok_0).1.sign_by_kid, (e->Ok_0).0, dr2, fresh(), (r->Ok_0).1)
{
    hide(unpacked); hide(then_sign); hide(plaintext); hide(signature); hide(secret_key); hide(can_verify); hide(claim_ok); hide(with_claim);
    let (t, s) = signed_made(m, by, dr, sr, sd, e);
    signed_like(m, by, dr, sr, sd, e, t, s);
    not_jwe((e->Ok_0).0@); bare((e->Ok_0).0@, dr2, sr2, u, r);
    signed_reads(m, by, dr, sr, sd, e, t, s, dr2, fresh(), r);
}
// ---------- and of encrypted messages ----------
/// env is m encrypted, signed before that if it was asked for; the metadata names the keys
pub open spec fn packed_as(m: Message, to: Seq<char>, from: Option<&str>, by: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: PackEncryptedOptions, env: Seq<char>, pm: PackEncryptedMetadata) -> bool { match by {
    None => exists|t: Seq<char>| plaintext_is(m, dr, t) && pm.sign_by_kid is None && #[trigger] enveloped(t, to, from, dr, sr, o, env, pm.from_kid, pm.to_kids),
    Some(b) => exists|c: Result<(String, PackSignedMetadata)>| #[trigger] signature(m, b@, dr, sr, c) && c is Ok && pm.sign_by_kid == Some((c->Ok_0).1.sign_by_kid) && enveloped((c->Ok_0).0@, to, from, dr, sr, o, env, pm.from_kid, pm.to_kids) } }
/// what is sent: the envelope, or the onion around it
pub open spec fn sent_as(env: Seq<char>, to: Seq<char>, dr: &dyn DIDResolver, o: PackEncryptedOptions, pm: PackEncryptedMetadata, out: Seq<char>) -> bool { match pm.messaging_service {
    None => out == env,
    Some(_) => exists|c: Result<Vec<(String, DIDCommMessagingService)>>| #[trigger] chain(dr, to, opt_str(o.messaging_service), c) && c is Ok && onion(dr, env, headers_opt(o.forward_headers), to, route((c->Ok_0)@), o.enc_alg_anon, 0, out) } }
pub open spec fn sends(m: Message, to: Seq<char>, from: Option<&str>, by: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: PackEncryptedOptions, env: Seq<char>, pm: PackEncryptedMetadata, out: Seq<char>) -> bool { packed_as(m, to, from, by, dr, sr, o, env, pm) && sent_as(env, to, dr, o, pm, out) }
pub proof fn conveys(t: Seq<char>, sb: Option<String>, to: Seq<char>, from: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: PackEncryptedOptions, p: Result<(String, PackEncryptedMetadata)>) -> (env: Seq<char>)
    requires conveyed(t, sb, to, from, dr, sr, o, p), p is Ok, ensures enveloped(t, to, from, dr, sr, o, env, (p->Ok_0).1.from_kid, (p->Ok_0).1.to_kids), sent_as(env, to, dr, o, (p->Ok_0).1, (p->Ok_0).0@), (p->Ok_0).1.sign_by_kid == sb
{
    hide(anon); hide(auth); hide(chain); hide(onion);
    match from {
        None => { let q = choose|q: Result<(String, Vec<String>)>| #[trigger] anon(to, dr, utf8(t), o.enc_alg_anon, q) && match q { Err(e) => refused(p, e.kind), Ok(q) => sent(q.0@, None, q.1, sb, to, dr, o, p) };
            let z = q->Ok_0;
            let w = choose|w: Result<Option<(String, MessagingServiceMetadata)>>| #[trigger] routed(z.0@, to, dr, o, w) && match w { Err(e) => refused(p, e.kind), Ok(None) => p is Ok && (p->Ok_0).0@ == z.0@ && (p->Ok_0).1 == (PackEncryptedMetadata { messaging_service: None, from_kid: None, sign_by_kid: sb, to_kids: z.1 }),
                Ok(Some(w)) => p is Ok && (p->Ok_0).0 == w.0 && (p->Ok_0).1 == (PackEncryptedMetadata { messaging_service: Some(w.1), from_kid: None, sign_by_kid: sb, to_kids: z.1 }) };
            z.0@ }
        Some(f) => { let q = choose|q: Result<(String, String, Vec<String>)>| #[trigger] auth(to, f@, dr, sr, utf8(t), o.enc_alg_anon, o.protect_sender, q) && match q { Err(e) => refused(p, e.kind), Ok(q) => sent(q.0@, Some(q.1), q.2, sb, to, dr, o, p) };
            let z = q->Ok_0;
            let w = choose|w: Result<Option<(String, MessagingServiceMetadata)>>| #[trigger] routed(z.0@, to, dr, o, w) && match w { Err(e) => refused(p, e.kind), Ok(None) => p is Ok && (p->Ok_0).0@ == z.0@ && (p->Ok_0).1 == (PackEncryptedMetadata { messaging_service: None, from_kid: Some(z.1), sign_by_kid: sb, to_kids: z.2 }),
                Ok(Some(w)) => p is Ok && (p->Ok_0).0 == w.0 && (p->Ok_0).1 == (PackEncryptedMetadata { messaging_service: Some(w.1), from_kid: Some(z.1), sign_by_kid: sb, to_kids: z.2 }) };
            z.0@ }
    }
}
/// a packed message is its envelope, or the onion around it
pub proof fn packs(m: Message, to: Seq<char>, from: Option<&str>, by: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, o: PackEncryptedOptions, p: Result<(String, PackEncryptedMetadata)>) -> (env: Seq<char>)
    requires packing(m, to, from, by, dr, sr, o, p), p is Ok, ensures sends(m, to, from, by, dr, sr, o, env, (p->Ok_0).1, (p->Ok_0).0@)
{
    hide(plaintext); hide(signature); hide(conveyed); hide(enveloped); hide(sent_as);
    match by {
        None => { let c = choose|c: Result<String>| #[trigger] plaintext(m, dr, c) && match c { Err(e) => refused(p, e.kind), Ok(t) => conveyed(t@, None, to, from, dr, sr, o, p) };
            assert(plaintext_is(m, dr, (c->Ok_0)@)); let e = conveys((c->Ok_0)@, None, to, from, dr, sr, o, p); assert(enveloped((c->Ok_0)@, to, from, dr, sr, o, e, (p->Ok_0).1.from_kid, (p->Ok_0).1.to_kids)); e }
        Some(b) => { let c = choose|c: Result<(String, PackSignedMetadata)>| #[trigger] signature(m, b@, dr, sr, c) && match c { Err(e) => refused(p, e.kind), Ok(t) => conveyed(t.0@, Some(t.1.sign_by_kid), to, from, dr, sr, o, p) };
            conveys((c->Ok_0).0@, Some((c->Ok_0).1.sign_by_kid), to, from, dr, sr, o, p) }
    }
}
/// what the recipient, the sender and the signer need to have
pub open spec fn parties(m: Message, to: Seq<char>, from: Option<&str>, by: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, td: DIDDoc, fd: DIDDoc, sd: DIDDoc, o: PackEncryptedOptions, pm: PackEncryptedMetadata, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions) -> bool {
    document(dr, to, td) && (from is Some ==> document(dr, from->0@, fd) && answers(dr2, did_part(from->0@), fd)) && can_read(from, td, fd, sr, o, pm.from_kid, pm.to_kids, sr2) && ciphers_work()
    && (by is Some ==> signer(dr, by->0@, sd) && answers(dr2, did_part(by->0@), sd) && (pm.sign_by_kid is Some ==> can_verify(sr, sd, pm.sign_by_kid->0@)))
    && ordinary(m) && claim_ok(m, dr2) && (by is None && u.unwrap_re_wrapping_forward ==> forward_of(m) is None)
}
/// the metadata names exactly the layers and the keys that packing named, and the claim of the message
pub open spec fn told(m: Message, from: Option<&str>, by: Option<&str>, sr: &dyn SecretsResolver, o: PackEncryptedOptions, pm: PackEncryptedMetadata, dr2: &dyn DIDResolver, n: UnpackMetadata) -> bool {
    let e = enc_meta(from, o, pm.from_kid, pm.to_kids);
    match by { None => with_claim(m.from_prior, dr2, e, n), Some(_) => pm.sign_by_kid is Some && exists|env: String| #[trigger] sign_claim(m, sr, pm.sign_by_kid->0, env, dr2, e, n) }
}
/// the envelope, as it was packed or as a mediator writes it again, gives back the message
pub proof fn envelope_reads(m: Message, to: Seq<char>, from: Option<&str>, by: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, td: DIDDoc, fd: DIDDoc, sd: DIDDoc, o: PackEncryptedOptions, env: Seq<char>, pm: PackEncryptedMetadata, x: Seq<char>, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions, r: Result<(Message, UnpackMetadata)>)
    requires packed_as(m, to, from, by, dr, sr, o, env, pm), same_json(x, env), parties(m, to, from, by, dr, sr, td, fd, sd, o, pm, dr2, sr2, u), unpacked(x, dr2, sr2, u, r),
    ensures r is Ok, (r->Ok_0).0 == m, told(m, from, by, sr, o, pm, dr2, (r->Ok_0).1)
{
    hide(unpacked); hide(then_sign); hide(plaintext); hide(signature); hide(secret_key); hide(can_verify); hide(claim_ok); hide(with_claim); hide(enveloped); hide(can_read); hide(document); hide(ciphers_work); hide(content); hide(jws_like);
    let (fk, tk) = (pm.from_kid, pm.to_kids); let e = enc_meta(from, o, fk, tk);
    match by {
        None => {
            let t = choose|t: Seq<char>| plaintext_is(m, dr, t) && pm.sign_by_kid is None && #[trigger] enveloped(t, to, from, dr, sr, o, env, fk, tk);
            plain_content(m, dr, t, dr2, sr2, u);
            opens(t, to, from, dr, sr, td, fd, o, env, fk, tk, x, dr2, sr2, u, r);
            unsigned_reads(m, dr, t, dr2, e, r);
        }
        Some(b) => {
            let c = choose|c: Result<(String, PackSignedMetadata)>| #[trigger] signature(m, b@, dr, sr, c) && c is Ok && pm.sign_by_kid == Some((c->Ok_0).1.sign_by_kid) && enveloped((c->Ok_0).0@, to, from, dr, sr, o, env, fk, tk);
            let (t, s) = signed_made(m, b@, dr, sr, sd, c);
            signed_like(m, b@, dr, sr, sd, c, t, s);
            signed_content((c->Ok_0).0@, dr2, sr2, u);
            opens((c->Ok_0).0@, to, from, dr, sr, td, fd, o, env, fk, tk, x, dr2, sr2, u, r);
            signed_reads(m, b@, dr, sr, sd, c, t, s, dr2, e, r);
            assert(sign_claim(m, sr, pm.sign_by_kid->0, (c->Ok_0).0, dr2, e, (r->Ok_0).1));
        }
    }
}
pub proof fn round_trip_encrypted(m: Message, to: Seq<char>, from: Option<&str>, by: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, td: DIDDoc, fd: DIDDoc, sd: DIDDoc, o: PackEncryptedOptions, p: Result<(String, PackEncryptedMetadata)>, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions, r: Result<(Message, UnpackMetadata)>)
    requires packing(m, to, from, by, dr, sr, o, p), p is Ok, (p->Ok_0).1.messaging_service is None, parties(m, to, from, by, dr, sr, td, fd, sd, o, (p->Ok_0).1, dr2, sr2, u), unpacked((p->Ok_0).0@, dr2, sr2, u, r),
    ensures r is Ok, (r->Ok_0).0 == m, told(m, from, by, sr, o, (p->Ok_0).1, dr2, (r->Ok_0).1)
{
    hide(unpacked); hide(packing); hide(packed_as); hide(parties); hide(told);
    let env = packs(m, to, from, by, dr, sr, o, p);
    envelope_reads(m, to, from, by, dr, sr, td, fd, sd, o, env, (p->Ok_0).1, (p->Ok_0).0@, dr2, sr2, u, r);
}
// ---------- through mediators ----------
/// what a mediator needs to have: the secrets of its document's keys, and none of the next hop's
pub ghost struct Mediator<'a> { pub dr: &'a dyn DIDResolver, pub sr: &'a dyn SecretsResolver, pub u: UnpackOptions, pub doc: DIDDoc }
pub open spec fn mediates(g: Mediator<'_>, dr: &dyn DIDResolver, key: Seq<char>, next: Seq<char>, alg: AnonCryptAlg) -> bool {
    &&& document(dr, key, g.doc)
    &&& forall|text: Seq<u8>, out: Seq<char>, kids: Seq<String>| #[trigger] anon_packed(key, dr, text, alg, out, kids) ==> holds(g.sr, methods(g.doc, kids), es_half())
    &&& g.u.unwrap_re_wrapping_forward ==> forall|h: Result<bool>| #[trigger] has_secret(next, g.dr, g.sr, h) ==> h == Ok::<bool, Error>(false)
}
pub open spec fn no_envelope_names(h: Map<Seq<char>, Value>) -> bool { h.dom().disjoint(reserved()) && !h.contains_key("ciphertext"@) && !h.contains_key("payload"@) }
/// one layer of the onion: its mediator reads the forward message, with the next hop and the rest of the onion
pub proof fn mediator_reads(g: Mediator<'_>, dr: &dyn DIDResolver, inside: Seq<char>, headers: Map<Seq<char>, Value>, next: Seq<char>, key: Seq<char>, alg: AnonCryptAlg, out: Seq<char>, x: Seq<char>, r: Result<(Message, UnpackMetadata)>)
    requires layer(dr, inside, headers, next, key, alg, out), same_json(x, out), mediates(g, dr, key, next, alg), ciphers_work(), no_envelope_names(headers), unpacked(x, g.dr, g.sr, g.u, r),
    ensures r is Ok, forward_of((r->Ok_0).0) is Some, (forward_of((r->Ok_0).0)->0).0 == next, (r->Ok_0).1.encrypted && (r->Ok_0).1.anonymous_sender && !(r->Ok_0).1.authenticated,
        tree(inside) is Some ==> forall|y: Seq<char>| json_ser(&(forward_of((r->Ok_0).0)->0).1) == Ok::<Seq<char>, serde_json::Error>(y) ==> #[trigger] same_json(y, inside)
{
    hide(unpacked); hide(then_sign); hide(anon); hide(holds); hide(ciphers_work); hide(tidy); hide(has_secret); hide(es_some); hide(auth_layer); hide(sign_layer);
    let v = json_de::<Value>(inside)->Ok_0;
    let (m, s, kids) = choose|m: Message, s: Seq<char>, kids: Seq<String>| is_forward(m, next, v, headers) && #[trigger] json_ser(&m) == Ok::<Seq<char>, serde_json::Error>(s) && #[trigger] anon_packed(key, dr, utf8(s), alg, out, kids);
    let q = choose|q: Result<(String, Vec<String>)>| #[trigger] anon(key, dr, utf8(s), alg, q) && q is Ok && (q->Ok_0).0@ == out && (q->Ok_0).1@ == kids;
    let ks = (q->Ok_0).1;
    anon_made(key, dr, g.doc, utf8(s), alg, q);
    cover_leaves(s, alg, methods(g.doc, ks@), ks, out, x, g.sr, g.u);
    message_like(m, s); not_jwe(s);
    assert forall|w: Result<Option<String>>| g.u.unwrap_re_wrapping_forward && #[trigger] rewrapped(s, g.dr, g.sr, w) implies w == Ok::<Option<String>, Error>(None) by {}
    assert(g.u.unwrap_re_wrapping_forward ==> unforwarded(s, g.dr, g.sr));
    peels(x, g.dr, g.sr, g.u, s, anon_meta(alg, ks), true, r);
    let (n, n2, y) = choose|n: UnpackMetadata, n2: UnpackMetadata, y: Result<Option<String>>| like(n, anon_meta(alg, ks)) && #[trigger] auth_layer(s, g.dr, g.sr, g.u, n, n2, y) && match y { Err(e) => fails(r, e.kind), Ok(_) => then_sign(inner(y, s), g.dr, n2, r) };
    assert(n2 == n && y == Ok::<Option<String>, Error>(None)) by { reveal(auth_layer); }
    reveal(then_sign);
    let (n3, z) = choose|n3: UnpackMetadata, z: Result<Option<String>>| #[trigger] sign_layer(s, g.dr, n2, n3, z) && match z { Err(e) => fails(r, e.kind), Ok(_) => last_plain(inner(z, s), g.dr, n3, r) };
    not_jws(s, g.dr, n2, n3, z);
    assert(r is Ok && (r->Ok_0).0 == m);
    if tree(inside) is Some {
        reads_owned::<Value>(inside);
        assert forall|y: Seq<char>| json_ser(&v) == Ok::<Seq<char>, serde_json::Error>(y) implies #[trigger] same_json(y, inside) by {}
    }
}
/// a layer is JSON
pub proof fn layer_tree(g: Mediator<'_>, dr: &dyn DIDResolver, inside: Seq<char>, headers: Map<Seq<char>, Value>, next: Seq<char>, key: Seq<char>, alg: AnonCryptAlg, out: Seq<char>)
    requires layer(dr, inside, headers, next, key, alg, out), document(dr, key, g.doc), ensures tree(out) is Some
{
    hide(anon); hide(es_for);
    let (m, s, kids) = choose|m: Message, s: Seq<char>, kids: Seq<String>| is_forward(m, next, json_de::<Value>(inside)->Ok_0, headers) && #[trigger] json_ser(&m) == Ok::<Seq<char>, serde_json::Error>(s) && #[trigger] anon_packed(key, dr, utf8(s), alg, out, kids);
    let q = choose|q: Result<(String, Vec<String>)>| #[trigger] anon(key, dr, utf8(s), alg, q) && q is Ok && (q->Ok_0).0@ == out && (q->Ok_0).1@ == kids;
    anon_made(key, dr, g.doc, utf8(s), alg, q);
    let vms = methods(g.doc, (q->Ok_0).1@);
    let a = choose|a: KnownKeyAlg| #[trigger] es_for(utf8(s), alg, a, vms, out);
    es_legible(utf8(s), alg, a, vms, out, out);
}
pub open spec fn all_mediate(gs: Seq<Mediator<'_>>, dr: &dyn DIDResolver, to: Seq<char>, keys: Seq<String>, alg: AnonCryptAlg) -> bool { gs.len() == keys.len() && forall|i: int| 0 <= i < keys.len() ==> mediates(#[trigger] gs[i], dr, keys[i]@, crate::protocols::routing::hop(keys, to, i), alg) }
pub proof fn onion_tree(gs: Seq<Mediator<'_>>, dr: &dyn DIDResolver, msg: Seq<char>, headers: Map<Seq<char>, Value>, to: Seq<char>, keys: Seq<String>, alg: AnonCryptAlg, i: int, out: Seq<char>)
    requires 0 <= i <= keys.len(), onion(dr, msg, headers, to, keys, alg, i, out), all_mediate(gs, dr, to, keys, alg), tree(msg) is Some, ensures tree(out) is Some
{
    hide(layer); hide(document);
    if i < keys.len() {
        let inside = choose|inside: Seq<char>| onion(dr, msg, headers, to, keys, alg, i + 1, inside) && #[trigger] layer(dr, inside, headers, crate::protocols::routing::hop(keys, to, i), keys[i]@, alg, out);
        assert(mediates(gs[i], dr, keys[i]@, crate::protocols::routing::hop(keys, to, i), alg));
        layer_tree(gs[i], dr, inside, headers, crate::protocols::routing::hop(keys, to, i), keys[i]@, alg, out);
    }
}
/// x, given to the mediators from i on, each sending on what the forward message that it unpacked carries, arrives as y
pub open spec fn relayed(gs: Seq<Mediator<'_>>, i: int, x: Seq<char>, y: Seq<char>) -> bool decreases gs.len() - i when 0 <= i <= gs.len() {
    if i == gs.len() { x == y }
    else { exists|r: Result<(Message, UnpackMetadata)>, z: Seq<char>| #[trigger] passes_on(gs[i], x, r, z) && relayed(gs, i + 1, z, y) } }
pub open spec fn passes_on(g: Mediator<'_>, x: Seq<char>, r: Result<(Message, UnpackMetadata)>, z: Seq<char>) -> bool { unpacked(x, g.dr, g.sr, g.u, r) && r is Ok && forward_of((r->Ok_0).0) is Some && json_ser(&(forward_of((r->Ok_0).0)->0).1) == Ok::<Seq<char>, serde_json::Error>(z) }
/// what arrives is the envelope
pub proof fn onion_peels(gs: Seq<Mediator<'_>>, dr: &dyn DIDResolver, msg: Seq<char>, headers: Map<Seq<char>, Value>, to: Seq<char>, keys: Seq<String>, alg: AnonCryptAlg, i: int, out: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires 0 <= i <= keys.len(), onion(dr, msg, headers, to, keys, alg, i, out), same_json(x, out), all_mediate(gs, dr, to, keys, alg), tree(msg) is Some, ciphers_work(), no_envelope_names(headers), relayed(gs, i, x, y), ensures same_json(y, msg) decreases keys.len() - i
{
    hide(layer); hide(unpacked); hide(ciphers_work); hide(mediates); hide(no_envelope_names);
    if i < keys.len() {
        let inside = choose|inside: Seq<char>| onion(dr, msg, headers, to, keys, alg, i + 1, inside) && #[trigger] layer(dr, inside, headers, crate::protocols::routing::hop(keys, to, i), keys[i]@, alg, out);
        let (r, z) = choose|r: Result<(Message, UnpackMetadata)>, z: Seq<char>| #[trigger] passes_on(gs[i], x, r, z) && relayed(gs, i + 1, z, y);
        onion_tree(gs, dr, msg, headers, to, keys, alg, i + 1, inside);
        mediator_reads(gs[i], dr, inside, headers, crate::protocols::routing::hop(keys, to, i), keys[i]@, alg, out, x, r);
        onion_peels(gs, dr, msg, headers, to, keys, alg, i + 1, inside, z, y);
    }
}
/// an envelope is JSON
pub proof fn envelope_tree(t: Seq<char>, to: Seq<char>, from: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, td: DIDDoc, fd: DIDDoc, o: PackEncryptedOptions, env: Seq<char>, by: Option<String>, kids: Vec<String>)
    requires enveloped(t, to, from, dr, sr, o, env, by, kids), document(dr, to, td), from is Some ==> document(dr, from->0@, fd), ensures tree(env) is Some
{
    hide(anon); hide(auth); hide(es_for); hide(pu_for);
    let vms = methods(td, kids@);
    match from {
        None => {
            let q = choose|q: Result<(String, Vec<String>)>| #[trigger] anon(to, dr, utf8(t), o.enc_alg_anon, q) && q is Ok && (q->Ok_0).0@ == env && (q->Ok_0).1 == kids;
            anon_made(to, dr, td, utf8(t), o.enc_alg_anon, q);
            let a = choose|a: KnownKeyAlg| #[trigger] es_for(utf8(t), o.enc_alg_anon, a, vms, env);
            es_legible(utf8(t), o.enc_alg_anon, a, vms, env, env);
        }
        Some(f) => {
            let q = choose|q: Result<(String, String, Vec<String>)>| #[trigger] auth(to, f@, dr, sr, utf8(t), o.enc_alg_anon, o.protect_sender, q) && q is Ok && (q->Ok_0).0@ == env && (q->Ok_0).1 == by->0 && (q->Ok_0).2 == kids;
            auth_made(to, f@, dr, sr, td, fd, utf8(t), o.enc_alg_anon, o.protect_sender, q);
            let b = by->0@;
            let (s, e) = choose|s: KnownKeyPair, e: Seq<char>| secret_key(sr, b, s) && #[trigger] pu_made(utf8(t), o.enc_alg_anon, o.protect_sender, vms, b, s, e, env);
            if o.protect_sender { let a = choose|a: KnownKeyAlg| #[trigger] es_for(utf8(e), o.enc_alg_anon, a, vms, env); es_legible(utf8(e), o.enc_alg_anon, a, vms, env, env); }
            else { pu_legible(utf8(t), vms, b, s, env, env); }
        }
    }
}
/// the mediators are those of the recipient's service
pub open spec fn mediators(gs: Seq<Mediator<'_>>, dr: &dyn DIDResolver, to: Seq<char>, o: PackEncryptedOptions) -> bool { forall|c: Result<Vec<(String, DIDCommMessagingService)>>| #[trigger] chain(dr, to, opt_str(o.messaging_service), c) && c is Ok ==> all_mediate(gs, dr, to, route((c->Ok_0)@), o.enc_alg_anon) }
pub proof fn round_trip_onion(m: Message, to: Seq<char>, from: Option<&str>, by: Option<&str>, dr: &dyn DIDResolver, sr: &dyn SecretsResolver, td: DIDDoc, fd: DIDDoc, sd: DIDDoc, o: PackEncryptedOptions, p: Result<(String, PackEncryptedMetadata)>, gs: Seq<Mediator<'_>>, y: Seq<char>, dr2: &dyn DIDResolver, sr2: &dyn SecretsResolver, u: UnpackOptions, r: Result<(Message, UnpackMetadata)>)
    requires packing(m, to, from, by, dr, sr, o, p), p is Ok, (p->Ok_0).1.messaging_service is Some, parties(m, to, from, by, dr, sr, td, fd, sd, o, (p->Ok_0).1, dr2, sr2, u), mediators(gs, dr, to, o), no_envelope_names(headers_opt(o.forward_headers)), relayed(gs, 0, (p->Ok_0).0@, y), unpacked(y, dr2, sr2, u, r),
    ensures r is Ok, (r->Ok_0).0 == m, told(m, from, by, sr, o, (p->Ok_0).1, dr2, (r->Ok_0).1)
{
    hide(unpacked); hide(packing); hide(enveloped); hide(told); hide(all_mediate); hide(relayed); hide(onion); hide(chain); hide(document); hide(can_read); hide(ciphers_work); hide(can_verify); hide(claim_ok); hide(signature); hide(no_envelope_names);
    let pm = (p->Ok_0).1; let out = (p->Ok_0).0@;
    let env = packs(m, to, from, by, dr, sr, o, p);
    let t = match by { None => choose|t: Seq<char>| plaintext_is(m, dr, t) && pm.sign_by_kid is None && #[trigger] enveloped(t, to, from, dr, sr, o, env, pm.from_kid, pm.to_kids),
        Some(b) => { let c = choose|c: Result<(String, PackSignedMetadata)>| #[trigger] signature(m, b@, dr, sr, c) && c is Ok && pm.sign_by_kid == Some((c->Ok_0).1.sign_by_kid) && enveloped((c->Ok_0).0@, to, from, dr, sr, o, env, pm.from_kid, pm.to_kids); (c->Ok_0).0@ } };
    assert(enveloped(t, to, from, dr, sr, o, env, pm.from_kid, pm.to_kids));
    envelope_tree(t, to, from, dr, sr, td, fd, o, env, pm.from_kid, pm.to_kids);
    let c = choose|c: Result<Vec<(String, DIDCommMessagingService)>>| #[trigger] chain(dr, to, opt_str(o.messaging_service), c) && c is Ok && onion(dr, env, headers_opt(o.forward_headers), to, route((c->Ok_0)@), o.enc_alg_anon, 0, out);
    onion_peels(gs, dr, env, headers_opt(o.forward_headers), to, route((c->Ok_0)@), o.enc_alg_anon, 0, out, out, y);
    envelope_reads(m, to, from, by, dr, sr, td, fd, sd, o, env, pm, y, dr2, sr2, u, r);
}
