#!/usr/bin/env python3
"""Behaviour-preserving edits; every check must stay quiet on each.
  refactor.py TREE [names]   applies one edit at a time to TREE (a clean clone of /repo) and runs the checks of the properties named with it"""
import os, subprocess, sys
R = []
def r(name, props, *edits): R.append((name, props.split(), edits))
U, P = "src/message/unpack/", "src/message/pack_encrypted/"

r("verify_didcomm-helper", "C01 C03 C05", ("src/jwe/parse.rs", '''        let did_comm_apv = {
            let mut kids = self
                .jwe
                .recipients
                .iter()
                .map(|r| r.header.kid)
                .collect::<Vec<_>>();

            kids.sort();
            Sha256::digest(kids.join(".").as_bytes())
        };
''', '''        let did_comm_apv = self.expected_apv();
'''), ("src/jwe/parse.rs", '''    /// Verifies that apv and apu filled according DID Comm specification.
''', '''    fn expected_apv(&self) -> Vec<u8> {
        let mut kids: Vec<&str> = vec![];
        for r in self.jwe.recipients.iter() {
            kids.push(r.header.kid);
        }
        kids.sort();
        Sha256::digest(kids.join(".").as_bytes()).to_vec()
    }

    /// Verifies that apv and apu filled according DID Comm specification.
'''))
r("verify_didcomm-if", "C01", ("src/jwe/parse.rs", '''        match (did_comm_apu, self.protected.skid) {
            (Some(apu), Some(skid)) if apu != skid => {
                Err(err_msg(ErrorKind::Malformed, "APU mismatch"))?
            }
            (None, Some(_)) => Err(err_msg(ErrorKind::Malformed, "SKID present, but no apu"))?,
            _ => (),
        };
''', '''        if let Some(skid) = self.protected.skid {
            let apu = did_comm_apu
                .ok_or_else(|| err_msg(ErrorKind::Malformed, "SKID present, but no apu"))?;

            if apu != skid {
                return Err(err_msg(ErrorKind::Malformed, "APU mismatch"));
            }
        }
'''))
r("parse-reorder", "C02", ("src/jwe/parse.rs", '''        let apv = base64::decode_config(protected.apv, base64::URL_SAFE_NO_PAD)
            .kind(ErrorKind::Malformed, "Unable decode apv")?;

        let apu = protected
            .apu
            .map(|apu| base64::decode_config(apu, base64::URL_SAFE_NO_PAD))
            .transpose()
            .kind(ErrorKind::Malformed, "Unable decode apu")?;
''', '''        let apu = match protected.apu {
            Some(apu) => Some(
                base64::decode_config(apu, base64::URL_SAFE_NO_PAD)
                    .kind(ErrorKind::Malformed, "Unable decode apu")?,
            ),
            None => None,
        };

        let apv = base64::decode_config(protected.apv, base64::URL_SAFE_NO_PAD)
            .kind(ErrorKind::Malformed, "Unable decode apv")?;
'''))
r("anon-unpack-helper", "C03 C05", (U + "anoncrypt.rs", '''    let (to_did, _) = did_or_url(to_kid);

    if let Some(_) = to_kids.iter().find(|k| {
        let (k_did, k_url) = did_or_url(k);
        (k_did != to_did) || (k_url.is_none())
    }) {
        Err(err_msg(
            ErrorKind::Malformed,
            "Recipient keys are outside of one did or can't be resolved to key agreement",
        ))?;
    }
''', '''    check_kids(to_kid, &to_kids)?;
'''), (U + "anoncrypt.rs", '''pub(crate) async fn _try_unpack_anoncrypt''', '''fn check_kids(to_kid: &str, to_kids: &[&str]) -> Result<()> {
    let (to_did, _) = did_or_url(to_kid);

    for k in to_kids {
        let (k_did, k_url) = did_or_url(k);
        if k_did != to_did || k_url.is_none() {
            return Err(err_msg(
                ErrorKind::Malformed,
                "Recipient keys are outside of one did or can't be resolved to key agreement",
            ));
        }
    }

    Ok(())
}

pub(crate) async fn _try_unpack_anoncrypt'''))
r("anon-unpack-any", "C05", (U + "anoncrypt.rs", '''    if let Some(_) = to_kids.iter().find(|k| {
        let (k_did, k_url) = did_or_url(k);
        (k_did != to_did) || (k_url.is_none())
    }) {''', '''    let outside = to_kids.iter().any(|k| {
        let (k_did, k_url) = did_or_url(k);
        k_url.is_none() || k_did != to_did
    });

    if outside {'''), (U + "anoncrypt.rs", '''    metadata.encrypted_to_kids = Some(to_kids.iter().map(|&k| k.to_owned()).collect());
    metadata.encrypted = true;
    metadata.anonymous_sender = true;
''', '''    metadata.anonymous_sender = true;
    metadata.encrypted = true;
    metadata.encrypted_to_kids = Some(to_kids.iter().map(|k| k.to_string()).collect());
'''))
r("anon-unpack-while", "C05", (U + "anoncrypt.rs", '''    let mut payload: Option<Vec<u8>> = None;

    for to_kid in to_kids_found {
''', '''    let mut payload: Option<Vec<u8>> = None;
    let mut kids_left = to_kids_found.into_iter();

    while let Some(to_kid) = kids_left.next() {
'''))
r("unpack-rename", "C03 C04 C05", (U + "mod.rs", '''        let msg = anoncrypted.as_deref().unwrap_or(msg);

        let authcrypted =
            _try_unpack_authcrypt(msg, did_resolver, secrets_resolver, options, &mut metadata)
                .await?;
        let msg = authcrypted.as_deref().unwrap_or(msg);

        let signed = _try_unpack_sign(msg, did_resolver, options, &mut metadata).await?;
        let msg = signed.as_deref().unwrap_or(msg);

        let msg = _try_unpack_plaintext(msg, did_resolver, &mut metadata)
''', '''        let inner = anoncrypted.as_deref().unwrap_or(msg);

        let auth_text =
            _try_unpack_authcrypt(inner, did_resolver, secrets_resolver, options, &mut metadata)
                .await?;
        let inner = auth_text.as_deref().unwrap_or(inner);

        let signed_text = _try_unpack_sign(inner, did_resolver, options, &mut metadata).await?;
        let plain = signed_text.as_deref().unwrap_or(inner);

        let msg = _try_unpack_plaintext(plain, did_resolver, &mut metadata)
'''))
r("unpack-iflet", "C05", (U + "mod.rs", '''                if forwarded_msg_opt.is_some() {
                    forwarded_msg = forwarded_msg_opt.unwrap();
                    msg = &forwarded_msg;

                    metadata.re_wrapped_in_forward = true;

                    continue;
                }
''', '''                if let Some(inner) = forwarded_msg_opt {
                    metadata.re_wrapped_in_forward = true;
                    forwarded_msg = inner;
                    msg = &forwarded_msg;
                    continue;
                }
'''))
r("unpack-metadata-fn", "C03 C04 C05", (U + "mod.rs", '''        let mut metadata = UnpackMetadata {
            encrypted: false,
            authenticated: false,
            non_repudiation: false,
            anonymous_sender: false,
            re_wrapped_in_forward: false,
            encrypted_from_kid: None,
            encrypted_to_kids: None,
            sign_from: None,
            from_prior_issuer_kid: None,
            enc_alg_auth: None,
            enc_alg_anon: None,
            sign_alg: None,
            signed_message: None,
            from_prior: None,
        };
''', '''        let mut metadata = empty_metadata();
'''), (U + "mod.rs", '''/// Allows fine customization of unpacking process
''', '''fn empty_metadata() -> UnpackMetadata {
    UnpackMetadata {
        encrypted: false,
        authenticated: false,
        non_repudiation: false,
        anonymous_sender: false,
        re_wrapped_in_forward: false,
        encrypted_from_kid: None,
        encrypted_to_kids: None,
        sign_from: None,
        from_prior_issuer_kid: None,
        enc_alg_auth: None,
        enc_alg_anon: None,
        sign_alg: None,
        signed_message: None,
        from_prior: None,
    }
}

/// Allows fine customization of unpacking process
'''))
r("sign-unpack", "C04 C05", (U + "sign.rs", '''    let signer_kid = signer_ddoc
        .authentication
        .iter()
        .find(|&k| k.as_str() == signer_kid)
        .ok_or_else(|| err_msg(ErrorKind::DIDUrlNotFound, "Signer kid not found in did"))?
        .as_str();
''', '''    if !signer_ddoc.authentication.iter().any(|k| k == signer_kid) {
        return Err(err_msg(
            ErrorKind::DIDUrlNotFound,
            "Signer kid not found in did",
        ));
    }
'''))
r("has-secret", "C05", (U + "mod.rs", '''    let kids = match did_or_url(did_or_kid) {
        (_, Some(kid)) => {
            vec![kid.to_owned()]
        }
        (did, None) => {
            let did_doc = did_resolver
                .resolve(did)
                .await?
                .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Next DID doc not found"))?;
            did_doc.key_agreement
        }
    };

    let kids = kids.iter().map(|k| k as &str).collect::<Vec<_>>();

    let secrets_ids = secrets_resolver.find_secrets(&kids[..]).await?;

    return Ok(!secrets_ids.is_empty());
''', '''    let (did, url) = did_or_url(did_or_kid);

    let kids = if let Some(kid) = url {
        vec![kid.to_string()]
    } else {
        let doc = did_resolver.resolve(did).await?;
        match doc {
            Some(doc) => doc.key_agreement,
            None => return Err(err_msg(ErrorKind::DIDNotResolved, "Next DID doc not found")),
        }
    };

    let kids: Vec<&str> = kids.iter().map(|k| k.as_str()).collect();
    let found = secrets_resolver.find_secrets(&kids).await?;

    Ok(found.len() > 0)
'''))
r("anon-pack-loop", "C06 C09 C24", (P + "anoncrypt.rs", '''    let to_keys = to_kids
        .into_iter()
        .map(|kid| {
            to_ddoc
                .verification_method
                .iter()
                .find(|vm| vm.id == kid)
                .ok_or_else(|| {
                    // TODO: support external keys
                    err_msg(
                        ErrorKind::Unsupported,
                        "External keys are unsupported in this version",
                    )
                })
        })
        .collect::<Result<Vec<_>>>()?;
''', '''    let mut to_keys = Vec::with_capacity(to_kids.len());
    for kid in to_kids {
        let method = to_ddoc
            .verification_method
            .iter()
            .find(|vm| vm.id == kid)
            .ok_or_else(|| {
                err_msg(
                    ErrorKind::Unsupported,
                    "External keys are unsupported in this version",
                )
            })?;
        to_keys.push(method);
    }
'''))
r("anon-pack-find", "C06", (P + "anoncrypt.rs", '''        .filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)
        .map(|key| key.key_alg())
        .next()
''', '''        .map(|key| key.key_alg())
        .find(|alg| *alg != KnownKeyAlg::Unsupported)
'''))
r("validate-split", "C07 C24", (P + "mod.rs", '''        match from {
            Some(from) if !is_did(from) => Err(err_msg(
                ErrorKind::IllegalArgument,
                "`from` value is not a valid DID or DID URL",
            ))?,
            _ => {}
        }
''', '''        if let Some(from) = from {
            if !is_did(from) {
                return Err(err_msg(
                    ErrorKind::IllegalArgument,
                    "`from` value is not a valid DID or DID URL",
                ));
            }
        }
'''), (P + "mod.rs", '''        let (to_did, _) = did_or_url(to);

        match self.to {
            Some(ref sto) if !sto.contains(&to_did.into()) => {
                Err(err_msg(
                    ErrorKind::IllegalArgument,
                    "`message.to` value does not contain `to` value's DID",
                ))?;
            }
            _ => {}
        }
''', '''        let to_did = did_or_url(to).0;

        if let Some(sto) = &self.to {
            if !sto.iter().any(|t| t == to_did) {
                return Err(err_msg(
                    ErrorKind::IllegalArgument,
                    "`message.to` value does not contain `to` value's DID",
                ));
            }
        }
'''))
r("pack-match", "C24", (P + "mod.rs", '''        let (msg, messaging_service) =
            match wrap_in_forward_if_needed(&msg, to, did_resolver, options).await? {
                Some((forward_msg, messaging_service)) => (forward_msg, Some(messaging_service)),
                None => (msg, None),
            };
''', '''        let wrapped = wrap_in_forward_if_needed(&msg, to, did_resolver, options).await?;

        let (msg, messaging_service) = if let Some((forward_msg, service)) = wrapped {
            (forward_msg, Some(service))
        } else {
            (msg, None)
        };
'''))
r("wrap-loop", "C09 C11", ("src/protocols/routing/mod.rs", '''    let mut tos = routing_keys.clone();

    let mut nexts = tos.clone();
    nexts.remove(0);
    nexts.push(to.to_owned());

    tos.reverse();
    nexts.reverse();

    let mut msg = msg.to_owned();

    for (to_, next_) in tos.iter().zip(nexts.iter()) {
        msg = build_forward_message(&msg, next_, headers)?;
        msg = anoncrypt(to_, did_resolver, msg.as_bytes(), enc_alg_anon)
            .await?
            .0;
    }
''', '''    let mut msg = msg.to_owned();
    let mut next: &str = to;

    for key in routing_keys.iter().rev() {
        let forward = build_forward_message(&msg, next, headers)?;
        let (wrapped, _) =
            anoncrypt(key, did_resolver, forward.as_bytes(), enc_alg_anon).await?;
        msg = wrapped;
        next = key;
    }
'''))
r("forward-parse", "C10", ("src/protocols/routing/mod.rs", '''    let next = match msg.body {
        Value::Object(ref body) => match body.get("next") {
            Some(&Value::String(ref next)) => Some(next),
            _ => None,
        },
        _ => None,
    };

    if next.is_none() {
        return None;
    }

    let next = next.unwrap();
''', '''    let next = msg.body.as_object()?.get("next")?.as_str()?.to_string();
'''))
r("service-accepts", "C11", ("src/protocols/routing/mod.rs", '''                ServiceKind::DIDCommMessaging { ref value } => match value.accept.as_ref() {
                    Some(accept) => {
                        if accept.is_empty() || accept.contains(&DIDCOMM_V2_PROFILE.into()) {
                            Some((service.id.clone(), value.clone()))
                        } else {
                            None
                        }
                    }
                    None => Some((service.id.clone(), value.clone())),
                },
''', '''                ServiceKind::DIDCommMessaging { ref value } => {
                    if accepts_didcomm(value) {
                        Some((service.id.clone(), value.clone()))
                    } else {
                        None
                    }
                }
'''), ("src/protocols/routing/mod.rs", '''async fn find_did_comm_service''', '''fn accepts_didcomm(service: &DIDCommMessagingService) -> bool {
    match &service.accept {
        Some(accept) => accept.is_empty() || accept.iter().any(|a| a == DIDCOMM_V2_PROFILE),
        None => true,
    }
}

async fn find_did_comm_service'''))
r("needed-flat", "C11", ("src/protocols/routing/mod.rs", '''    let mut routing_keys = services_chain[1..]
        .iter()
        .map(|service| service.1.uri.clone())
        .collect::<Vec<_>>();

    routing_keys.append(&mut services_chain.last().unwrap().1.routing_keys.clone());
''', '''    let mut routing_keys: Vec<String> = vec![];
    for (_, service) in &services_chain[1..] {
        routing_keys.push(service.uri.clone());
    }
    routing_keys.extend(services_chain.last().unwrap().1.routing_keys.iter().cloned());
'''))
r("is-did", "C21 C07", ("src/utils/did.rs", '''    let parts: Vec<_> = did.split(':').collect();
    return parts.len() >= 3 && parts.get(0).unwrap() == &"did";
''', '''    let mut parts = did.split(':');
    parts.next() == Some("did") && parts.count() >= 2
'''), ("src/utils/did.rs", '''    match did_or_url.split_once("#") {
        Some((did, _)) => (did, Some(did_or_url)),
        None => (did_or_url, None),
    }
''', '''    match did_or_url.find('#') {
        Some(pos) => (&did_or_url[..pos], Some(did_or_url)),
        None => (did_or_url, None),
    }
'''))
r("example-loop", "C19", ("src/did/resolvers/example.rs", '''        Ok(self
            .known_dids
            .iter()
            .find(|ddoc| ddoc.id == did)
            .map(|ddoc| ddoc.clone()))
''', '''        for ddoc in &self.known_dids {
            if ddoc.id == did {
                return Ok(Some(ddoc.clone()));
            }
        }
        Ok(None)
'''), ("src/secrets/resolvers/example.rs", '''            .filter(|&&sid| self.known_secrets.iter().find(|s| s.id == sid).is_some())
            .map(|sid| *sid)
''', '''            .copied()
            .filter(|sid| self.known_secrets.iter().any(|s| s.id == *sid))
'''))
r("validate-msg", "C13", ("src/message/message.rs", '''        if self.typ != PLAINTEXT_TYP {
            Err(err_msg(
                ErrorKind::Malformed,
                format!("`typ` must be \\"{}\\"", PLAINTEXT_TYP),
            ))?;
        }
        Ok(self)
''', '''        if self.typ == PLAINTEXT_TYP {
            return Ok(self);
        }
        Err(err_msg(
            ErrorKind::Malformed,
            format!("`typ` must be \\"{}\\"", PLAINTEXT_TYP),
        ))
'''))
r("message-fields", "C12 C13 C14", ("src/message/message.rs", '''    /// Message id. Must be unique to the sender.
    pub id: String,

    /// Optional, if present it must be "application/didcomm-plain+json"
    #[serde(default = "default_typ")]
    pub typ: String,
''', '''    /// Optional, if present it must be "application/didcomm-plain+json"
    #[serde(default = "default_typ")]
    pub typ: String,

    /// Message id. Must be unique to the sender.
    pub id: String,
'''))
r("encrypt-helper", "C22", ("src/jwe/encrypt.rs", '''    let apv = {
        let mut kids = recipients.iter().map(|r| r.0).collect::<Vec<_>>();
        kids.sort();
        Sha256::digest(kids.join(".").as_bytes())
    };
''', '''    let mut sorted_kids: Vec<&str> = recipients.iter().map(|(kid, _)| *kid).collect();
    sorted_kids.sort();
    let apv = Sha256::digest(sorted_kids.join(".").as_bytes());
'''))
r("sign-input", "C23 C08", ("src/jws/sign.rs", '''    let signature = {
        // JWS Signing Input
        // The input to the digital signature or MAC computation.  Its value
        // is ASCII(BASE64URL(UTF8(JWS Protected Header)) || '.' || BASE64URL(JWS Payload)).
        let sign_input = format!("{}.{}", header, payload);

        let signature = key
            .create_signature(sign_input.as_bytes(), Some(sig_type))
            .kind(ErrorKind::InvalidState, "Unable create signature")?;

        base64::encode_config(&signature, base64::URL_SAFE_NO_PAD)
    };

    let compact_jws = format!("{}.{}.{}", header, payload, signature);

    Ok(compact_jws)
''', '''    let sign_input = header + "." + &payload;

    let signature = key
        .create_signature(sign_input.as_bytes(), Some(sig_type))
        .kind(ErrorKind::InvalidState, "Unable create signature")?;
    let signature = base64::encode_config(&signature, base64::URL_SAFE_NO_PAD);

    Ok(format!("{}.{}", sign_input, signature))
'''))
r("fprior-reorder", "C08", ("src/message/from_prior/unpack.rs", '''        let typ = parsed.parsed_header.typ;
        let alg = parsed.parsed_header.alg.clone();
        let kid = parsed.parsed_header.kid;

        if typ != "JWT" {
''', '''        let kid = parsed.parsed_header.kid;
        let alg = parsed.parsed_header.alg.clone();

        if parsed.parsed_header.typ != "JWT" {
'''), ("src/message/from_prior/unpack.rs", '''        if !valid {
            Err(err_msg(ErrorKind::Malformed, "Wrong from_prior signature"))?
        }
''', '''        if valid == false {
            return Err(err_msg(ErrorKind::Malformed, "Wrong from_prior signature"));
        }
'''))
r("signed-pack", "C24", ("src/message/pack_signed.rs", '''        let authentications: Vec<_> = if let Some(key_id) = key_id {
            did_doc
                .authentication
                .iter()
                .find(|a| *a == key_id)
                .ok_or_else(|| {
                    err_msg(
                        ErrorKind::DIDUrlNotFound,
                        "Signer key id not found in did doc",
                    )
                })?;

            vec![key_id]
        } else {
            did_doc.authentication.iter().map(|s| s.as_str()).collect()
        };
''', '''        let authentications: Vec<&str> = match key_id {
            None => did_doc.authentication.iter().map(|s| s.as_str()).collect(),
            Some(key_id) => {
                if !did_doc.authentication.iter().any(|a| a == key_id) {
                    return Err(err_msg(
                        ErrorKind::DIDUrlNotFound,
                        "Signer key id not found in did doc",
                    ));
                }
                vec![key_id]
            }
        };
'''))

def main():
    tree, names = sys.argv[1], sys.argv[2:]
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for name, props, edits in R:
        if names and name not in names: continue
        ok = True
        for f, old, new in edits:
            p = os.path.join(tree, f); t = open(p).read()
            if t.count(old) != 1 and not (t.count(old) == 2 and name == "pair"): print(name, "does not apply in", f, t.count(old)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if ok:
            for q in props:
                x = subprocess.run(["python3", V + "/check.py", q], env={**os.environ, "VERIF_REPO": tree}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                l = [y for y in x.stdout.splitlines() if y.startswith(("VIOLATION", "UNDECIDED", "failed", "failing", q))]
                print("%-24s %s rc=%d | %s" % (name, q, x.returncode, " | ".join(y[:160] for y in l))); sys.stdout.flush()
        subprocess.run(["git", "-C", tree, "checkout", "-q", "--", "."])
if __name__ == "__main__": main()
