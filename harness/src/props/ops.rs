//! C26: the operations of a proof, each on its own. C27: what is handed over as JSON.

use super::cred::{everything, kids, near_pairs, signatures, texts};
use super::parse::{rfc3339, BAD_TIMES, TIMES};
use crate::clock::{self, Nanos, SEC};
use crate::explore::{Ctx, Problem, Res};
use crate::report::Part;
use crate::scn::{base58, check_message, did_of, is_did_url, key, Doc, Fault, Jwt, KeyHdr, Mat, Scn, Vm, BAD_ALGS, DID, GOOD_ALGS, KID, T0};
use crate::util::{b64url, interesting_u32, interesting_u64, long, stretched, LADDER};
use crate::Tier;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, EvaluateAccessTokenRequestOptions};
use openid4vci::credential_issuer::error::CredentialIssuerError as E;
use openid4vci::credential_issuer::{
    CNonce, CNonceOptions, CredentialIssuer, CredentialIssuerEvaluateRequestResponse, EvaluateCredentialRequestOptions,
    PreEvaluateCredentialRequestResponse, ProofOfPossession,
};
use openid4vci::jwt::error::JwtError as J;
use openid4vci::jwt::{ProofJwt, ProofJwtAdditionalHeader, ProofJwtAlgorithm, ProofJwtBody, ProofJwtHeader};
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::validate::Validatable;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::fmt::Debug;
use std::str::FromStr;

fn s(x: &str) -> String {
    x.to_owned()
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug)]
enum Op {
    Validate,
    Verify(Nanos),
    Nonce(Option<String>),
    Iss(Option<String>),
    Aud(String),
    Did,
    Key(Option<Doc>),
    Message,
    Signature,
    Text,
}

/// What a key given in the header itself holds.
#[derive(Clone, Debug, PartialEq)]
enum Inline {
    Key(Vec<u8>),
    NoX,
    Unsupported,
    NotAKey,
}

fn inline_keys() -> Vec<(String, Inline)> {
    let x = b64url(&key(3));
    let y = b64url(&key(4));
    let mut v = vec![
        (json!({"kty": "OKP", "crv": "Ed25519", "x": x}), Inline::Key(key(3))),
        (json!({"kty": "OKP", "crv": "Ed25519", "x": x, "alg": "EdDSA", "use": "sig", "kid": KID, "key_ops": ["verify"]}), Inline::Key(key(3))),
        // a private part is never what comes out
        (json!({"kty": "OKP", "crv": "Ed25519", "x": x, "d": y}), Inline::Key(key(3))),
        (json!({"d": y, "x": x, "crv": "Ed25519", "kty": "OKP"}), Inline::Key(key(3))),
        (json!({"kty": "EC", "crv": "Ed25519", "x": x, "alg": "EdDSA"}), Inline::Key(key(3))),
        (json!({"kty": "EC", "crv": "Ed25519", "x": x, "y": y, "d": b64url(&key(5)), "alg": "EdDSA"}), Inline::Key(key(3))),
        (json!({"kty": "EC", "crv": "Ed25519", "y": y, "alg": "EdDSA"}), Inline::NoX),
        (json!({"kty": "EC", "crv": "Ed25519", "alg": "EdDSA"}), Inline::NoX),
        (json!({"kty": "EC", "crv": "P-256", "x": x, "y": y}), Inline::Unsupported),
        (json!({"kty": "EC", "crv": "secp256k1", "x": x, "y": y}), Inline::Unsupported),
        (json!({"kty": "EC", "crv": "P-256", "x": x, "y": y, "alg": "ES256"}), Inline::Unsupported),
        (json!({"kty": "EC", "crv": "P-384", "x": x, "y": y, "alg": "ES384"}), Inline::Unsupported),
        (json!({"kty": "EC", "x": x, "alg": "ES256K"}), Inline::Unsupported),
        (json!({"kty": "RSA", "n": x, "e": "AQAB"}), Inline::Unsupported),
        (json!({"kty": "RSA", "n": x, "e": "AQAB", "alg": "PS256"}), Inline::Unsupported),
        (json!({"kty": "RSA", "n": x, "e": "AQAB", "alg": "EdDSA"}), Inline::Unsupported),
        (json!({"kty": "oct", "k": x}), Inline::Unsupported),
        (json!({"kty": "oct", "k": x, "alg": "HS256"}), Inline::Unsupported),
        (json!({"kty": "oct", "k": x, "alg": "EdDSA"}), Inline::Unsupported),
        (json!({}), Inline::NotAKey),
        (json!({"kty": "OKP", "crv": "Ed25519"}), Inline::NotAKey),
        (json!({"kty": "unknown", "x": x}), Inline::NotAKey),
        (json!({"crv": "Ed25519", "x": x}), Inline::NotAKey),
        (json!({"kty": "OKP", "crv": "Ed25519", "x": "*"}), Inline::NotAKey),
        (json!([]), Inline::NotAKey),
        (json!(null), Inline::NotAKey),
        (json!("OKP"), Inline::NotAKey),
    ]
    .into_iter()
    .map(|(v, i)| (v.to_string(), i))
    .collect::<Vec<_>>();
    for t in ["", "x", "{", KID, "{}{}", "\u{0}"] {
        v.push((s(t), Inline::NotAKey));
    }
    let ok = v[0].0.clone();
    v.push((format!("{ok}x"), Inline::NotAKey));
    v.push((format!(" {} ", ok.replace(',', " ,\n")), Inline::Key(key(3))));
    for n in [0usize, 1, 31, 33, 57, 64, 255] {
        let k: Vec<u8> = (0..n).map(|i| (i * 7 + n) as u8).collect();
        v.push((json!({"kty": "OKP", "crv": "Ed25519", "x": b64url(&k)}).to_string(), Inline::Key(k)));
    }
    v
}

/// The same proof, not read but put together.
fn built(j: &Jwt) -> Option<ProofJwt> {
    let t = |n: Nanos| clock::utc(n);
    Some(ProofJwt {
        header: ProofJwtHeader {
            typ: j.typ.clone(),
            alg: serde_json::from_value(json!(j.alg)).ok()?,
            additional_header: match &j.key {
                KeyHdr::Absent => None,
                KeyHdr::Kid(k) => Some(ProofJwtAdditionalHeader::KeyId(k.clone())),
                KeyHdr::Jwk(k) => Some(ProofJwtAdditionalHeader::Jwk(k.clone())),
                KeyHdr::X5c(k) => Some(ProofJwtAdditionalHeader::X5c(k.clone())),
            },
        },
        body: ProofJwtBody {
            issuer: j.iss.clone(),
            audience: j.aud.clone(),
            subject: j.sub.clone(),
            issued_at: t(j.iat)?,
            nonce: j.nonce.clone(),
            not_before: match j.nbf {
                None => None,
                Some(n) => Some(t(n)?),
            },
            expires_at: match j.exp {
                None => None,
                Some(n) => Some(t(n)?),
            },
        },
        signature: j.sig.clone(),
    })
}

fn parsed(cx: &mut Ctx, j: &Jwt) -> Result<ProofJwt, Problem> {
    let text = j.compact();
    cx.note(|| format!("proof: {text}"));
    cx.call("parse", || ProofJwt::from_str(&text))?.map_err(|e| Problem::new("unreadable", format!("{e:?}: {text}")))
}

fn wrong<T: Debug>(what: &str, j: &Jwt, op: &Op, got: &T) -> Problem {
    Problem::new(what, format!("{op:?} answered {got:?} on {j:?}"))
}

/// Runs one operation and compares its answer. `Ok(class)`.
fn operate(cx: &mut Ctx, p: &ProofJwt, j: &Jwt, op: &Op) -> Result<&'static str, Problem> {
    cx.note(|| format!("{op:?}"));
    let bad = |what: &str, got: &dyn Debug| Err(wrong(what, j, op, &got));
    match op {
        Op::Validate => {
            let r = cx.call("validate", || p.validate())?;
            let fine = j.typ.eq_ignore_ascii_case("openid4vci-proof+jwt") && !BAD_ALGS.contains(&j.alg.as_str());
            let h = cx.call("validate header", || p.header.validate())?;
            let b = cx.call("validate body", || p.body.validate())?;
            if r.is_ok() != fine || h.is_ok() != fine || b.is_err() {
                return bad("validate", &(r, h, b));
            }
            if let Some(a) = &p.header.additional_header {
                let r = cx.call("validate key reference", || a.validate())?;
                if r.is_ok() != matches!(j.key, KeyHdr::Kid(_)) {
                    return bad("validate-key-reference", &r);
                }
            }
            Ok(if fine { "valid" } else { "invalid" })
        }
        Op::Verify(now) => {
            clock::set(*now);
            let r = cx.call("verify", || p.verify());
            clock::release();
            let r = r?;
            let (early, late) = (j.nbf.is_some_and(|t| *now < t), j.exp.is_some_and(|t| *now >= t));
            let at = |t: chrono::DateTime<chrono::Utc>| clock::nanos(t);
            let ok = match &r {
                Ok(()) => !early && !late,
                Err(J::NotYetValid { valid_from, now: n }) => early && Some(at(*valid_from)) == j.nbf && at(*n) == *now,
                Err(J::NotValidAnymore { valid_until, now: n }) => late && Some(at(*valid_until)) == j.exp && at(*n) == *now,
                Err(_) => false,
            };
            if !ok {
                return bad("verify", &r);
            }
            Ok(if r.is_ok() { "in time" } else { "out of time" })
        }
        Op::Nonce(n) => {
            let r = cx.call("check_nonce", || p.check_nonce(n.clone()))?;
            let ok = match &r {
                Ok(()) => n.as_ref() == Some(&j.nonce),
                Err(J::NonceMismatch { expected_nonce, actual_nonce }) => {
                    n.as_ref() != Some(&j.nonce) && expected_nonce == n && *actual_nonce == j.nonce
                }
                Err(_) => false,
            };
            if !ok {
                return bad("check_nonce", &r);
            }
            Ok(if r.is_ok() { "equal" } else { "different" })
        }
        Op::Iss(i) => {
            let r = cx.call("check_iss", || p.check_iss(i.clone()))?;
            let ok = match &r {
                Ok(()) => *i == j.iss,
                Err(J::IssuerMismatch { expected_iss_in_jwt, actual_iss_in_jwt }) => {
                    *i != j.iss && expected_iss_in_jwt == i && *actual_iss_in_jwt == j.iss
                }
                Err(_) => false,
            };
            if !ok {
                return bad("check_iss", &r);
            }
            Ok(if r.is_ok() { "equal" } else { "different" })
        }
        Op::Aud(a) => {
            let r = cx.call("check_aud", || p.check_aud(a))?;
            let ok = match &r {
                Ok(()) => *a == j.aud,
                Err(J::AudienceMismatch { expected_aud_in_jwt, actual_aud_in_jwt }) => {
                    *a != j.aud && expected_aud_in_jwt == a && *actual_aud_in_jwt == j.aud
                }
                Err(_) => false,
            };
            if !ok {
                return bad("check_aud", &r);
            }
            Ok(if r.is_ok() { "equal" } else { "different" })
        }
        Op::Did => {
            let r = cx.call("extract_did", || p.extract_did())?;
            let ok = match (&j.key, &r) {
                (KeyHdr::Absent, Ok(None)) => true,
                (KeyHdr::Kid(k), Ok(Some(d))) => is_did_url(k) && d == did_of(k),
                (KeyHdr::Kid(k), Err(J::UnableToTransformIntoDid { kid, .. })) => !is_did_url(k) && kid == k,
                (KeyHdr::Jwk(k), Err(J::UnsupportedKeyTypeInJwtHeader { key_name, key_type })) => key_name == "jwk" && key_type == k,
                (KeyHdr::X5c(k), Err(J::UnsupportedKeyTypeInJwtHeader { key_name, key_type })) => key_name == "x5c" && key_type == k,
                _ => false,
            };
            if !ok {
                return bad("extract_did", &r);
            }
            Ok(match r {
                Ok(Some(_)) => "a DID",
                Ok(None) => "no DID",
                Err(_) => "no DID to extract",
            })
        }
        Op::Key(doc) => {
            let d = doc.as_ref().map(Doc::build);
            let r = cx.call("extract_key_and_alg", || p.extract_key_and_alg(d.as_ref()))?;
            let direct = cx.call("extract_key_and_alg on the header", || p.header.extract_key_and_alg(d.as_ref()))?;
            if r != direct {
                return bad("header-differs", &(r, direct));
            }
            let alg_ok = |a: &ProofJwtAlgorithm| serde_json::to_value(a).ok() == Some(json!(j.alg));
            let ok = match (&j.key, &r) {
                (KeyHdr::Absent, Err(J::NoKeyFoundInProof)) => true,
                (KeyHdr::X5c(k), Err(J::UnsupportedKeyTypeInJwtHeader { key_name, key_type })) => key_name == "x5c" && key_type == k,
                (KeyHdr::Jwk(k), r) => {
                    let want = inline_keys().into_iter().find(|(t, _)| t == k).map(|(_, i)| i);
                    match (want, r) {
                        (Some(Inline::Key(w)), Ok((k, a))) => w == *k && alg_ok(a),
                        (Some(Inline::NoX), Err(J::EdDSAHasNoXCoordinate)) => true,
                        (Some(Inline::Unsupported), Err(J::UnsupportedAlgorithm { .. })) => true,
                        (Some(Inline::NotAKey), Err(J::UnableToTransformIntoJoseItem { original_string, .. })) => original_string == k,
                        (None, _) => true,
                        _ => false,
                    }
                }
                (KeyHdr::Kid(k), r) => {
                    let sc = Scn {
                        proof: Some((s("jwt"), j.clone())),
                        doc: doc.clone(),
                        ..Scn::default()
                    };
                    let faults: Vec<Fault> = sc
                        .faults()
                        .into_iter()
                        .filter(|f| matches!(f, Fault::NotDid | Fault::NoDoc | Fault::NoVm | Fault::BadKey))
                        .collect();
                    match r {
                        Ok((w, a)) => {
                            let named = doc.iter().flat_map(|d| d.named(k)).filter_map(|m| m.mat.usable());
                            faults.is_empty() && alg_ok(a) && named.collect::<Vec<_>>().contains(w)
                        }
                        Err(e) => faults.iter().any(|f| sc.reports(&E::JwtError(e.clone()), f)),
                    }
                }
                _ => false,
            };
            if !ok {
                return bad("extract_key_and_alg", &r);
            }
            Ok(if r.is_ok() { "a key" } else { "no key" })
        }
        Op::Message => {
            let r = cx.call("to_signable_message", || p.to_signable_message())?;
            let Ok(m) = &r else { return bad("to_signable_message", &r) };
            check_message(j, m)?;
            Ok("message")
        }
        Op::Signature => {
            let r = cx.call("extract_signature", || p.extract_signature())?;
            let ok = match (&j.sig, &r) {
                (Some(w), Ok(g)) => w.as_bytes() == g.as_slice(),
                (None, Err(J::SignatureNotInJwt { .. })) => true,
                // the recorded finding of C12
                (None, Ok(_)) => j.has_dot(),
                _ => false,
            };
            if !ok {
                return bad("extract_signature", &r);
            }
            Ok(if j.sig.is_some() { "signature" } else { "no signature" })
        }
        Op::Text => {
            let r: Result<String, J> = cx.call("try_into", || p.try_into())?;
            let Ok(t) = &r else { return bad("text", &r) };
            let m = match &j.sig {
                None => Some(t.as_str()),
                Some(g) => t.strip_suffix(g.as_str()).and_then(|t| t.strip_suffix('.')),
            };
            let Some(m) = m else { return bad("text-signature", &r) };
            check_message(j, m.as_bytes())?;
            Ok("text")
        }
    }
}

/// All operations, twice, on the proof as it is read and (if it can be) as it is built.
fn all_ops(cx: &mut Ctx, sc: &Scn) -> Res {
    let j = &sc.proof.as_ref().expect("proof").1;
    let mut ps = vec![parsed(cx, j)?];
    if j.form.head.is_empty() && j.form.body.is_empty() {
        ps.extend(built(j));
    }
    let expected = sc.nonce.as_ref().map(|n| n.expected.clone());
    for p in &ps {
        let before = format!("{p:?}");
        for round in 0..2 {
            for op in [
                Op::Validate,
                Op::Verify(sc.now),
                Op::Nonce(expected.clone()),
                Op::Iss(sc.client_id.clone()),
                Op::Aud(sc.issuer.clone()),
                Op::Did,
                Op::Key(sc.doc.clone()),
                Op::Message,
                Op::Signature,
                Op::Text,
            ] {
                operate(cx, p, j, &op)?;
            }
            let after = format!("{p:?}");
            if after != before {
                return Err(Problem::new("changed", format!("round {round}: {before} became {after}")));
            }
        }
        let copy = p.clone();
        if format!("{copy:?}") != before {
            return Err(Problem::new("clone", format!("{before} copied as {copy:?}")));
        }
    }
    Ok(s("agreed"))
}

/// Two methods with different keys, under absolute and relative names.
fn docs() -> Vec<Option<Doc>> {
    let vm = |list: usize, id: &str, mat: Mat| Vm { list, id: s(id), mat };
    let ok = |n: u8| Mat::Okp("Ed25519", key(n));
    let d = |id: &str, vms: Vec<Vm>| Some(Doc { id: s(id), vms, refs: vec![] });
    vec![
        None,
        d(DID, vec![]),
        d(DID, vec![vm(0, KID, ok(1))]),
        d(DID, vec![vm(1, "#key-1", ok(2))]),
        d(DID, vec![vm(0, "did:example:holder#key-2", ok(6)), vm(0, KID, ok(1))]),
        d(DID, vec![vm(0, KID, Mat::Ec("P-256", None, key(3)))]),
        d(DID, vec![vm(0, KID, Mat::Nothing)]),
        d("did:example:other", vec![vm(0, "#key-1", ok(5)), vm(0, "did:example:other#key-2", ok(7))]),
        d(DID, vec![vm(0, KID, Mat::Base58(key(8)))]),
    ]
}

pub fn c26(tier: Tier) -> Vec<Part> {
    let (p1, p2, p3) = (near_pairs(tier), near_pairs(tier), near_pairs(tier));
    let ks = kids(Tier::Quick);
    let sequences = tier.pick(3, 4);
    let seq_proofs = seq_proofs();
    let seq_ops = seq_ops();
    vec![
        Part::full("nonce-checks", &["equal", "different"], move |cx| {
            let (a, b) = p1(cx);
            let mut sc = Scn::default();
            sc.jwt().nonce = a;
            sc.jwt().sub = cx.all("sub", &[None, Some(b.clone())]).clone();
            let given = if cx.flag("none given") { None } else { Some(b) };
            one(cx, &sc, &Op::Nonce(given))
        }),
        Part::full("issuer-checks", &["equal", "different"], move |cx| {
            let (a, b) = p2(cx);
            let mut sc = Scn::default();
            sc.jwt().iss = if cx.flag("no claim") { None } else { Some(a) };
            let given = if cx.flag("none given") { None } else { Some(b) };
            one(cx, &sc, &Op::Iss(given))
        }),
        Part::full("audience-checks", &["equal", "different"], move |cx| {
            let (a, b) = p3(cx);
            let mut sc = Scn::default();
            sc.jwt().aud = a;
            one(cx, &sc, &Op::Aud(b))
        }),
        Part::full("checks-of-every-value", &["equal", "different"], |cx| {
            // every claim may hold what another claim or parameter holds
            let vals = ["tZignsnFbp", "", "client-1", "https://issuer.test", DID, KID, "null", "c2lnbmF0dXJl"];
            let mut sc = Scn::default();
            let j = sc.jwt();
            j.nonce = s(cx.all("nonce", &vals));
            j.aud = s(cx.all("aud", &vals));
            j.iss = cx.all("iss", &[None, Some(s("client-1")), Some(s("")), Some(s("tZignsnFbp")), Some(s(KID))]).clone();
            j.sub = cx.all("sub", &[None, Some(s("client-1")), Some(s("tZignsnFbp"))]).clone();
            let given = s(cx.all("given", &vals));
            let op = match cx.all_n("check", 3) {
                0 => Op::Nonce(Some(given)),
                1 => Op::Iss(Some(given)),
                _ => Op::Aud(given),
            };
            one(cx, &sc, &op)
        }),
        Part::full("did-extraction", &["a DID", "no DID", "no DID to extract"], move |cx| {
            let mut sc = Scn::default();
            sc.jwt().key = match cx.all_n("key reference", 4) {
                0 => KeyHdr::Kid(cx.all("kid", &ks).clone()),
                1 => KeyHdr::Absent,
                2 => KeyHdr::Jwk(s(cx.all("jwk", &[KID, DID, "", "{}"]))),
                _ => KeyHdr::X5c(s(cx.all("x5c", &[KID, DID, "", "MIIB"]))),
            };
            sc.jwt().sub = cx.all("sub", &[None, Some(s("did:example:other"))]).clone();
            one(cx, &sc, &Op::Did)
        }),
        Part::full("keys-in-the-header", &["a key", "no key"], |cx| {
            let mut sc = Scn::default();
            let (text, _) = cx.all("jwk", &inline_keys()).clone();
            sc.jwt().key = KeyHdr::Jwk(text);
            sc.jwt().alg = s(cx.all("alg", &[GOOD_ALGS, ["none", "HS256", "HS384", "HS512", "EdDSA", "ES256", "EdDSA", "EdDSA", "EdDSA", "EdDSA", "EdDSA", "EdDSA"]].concat()[..16]));
            let doc = cx.all("document", &[None, docs()[2].clone(), docs()[6].clone()]).clone();
            one(cx, &sc, &Op::Key(doc))
        }),
        Part::full("keys-of-methods", &["a key", "no key"], |cx| {
            let mut sc = Scn::default();
            sc.jwt().key = cx
                .all(
                    "key reference",
                    &[
                        KeyHdr::Kid(s(KID)), KeyHdr::Kid(s("did:example:holder#key-2")), KeyHdr::Kid(s("did:example:other#key-1")),
                        KeyHdr::Kid(s("did:example:holder")), KeyHdr::Kid(s("#key-1")), KeyHdr::Kid(s("")), KeyHdr::Kid(s("did:example:other#key-2")),
                        KeyHdr::Absent, KeyHdr::X5c(s(KID)), KeyHdr::X5c(s("")),
                    ],
                )
                .clone();
            sc.jwt().alg = s(cx.all("alg", &["EdDSA", "ES256", "none", "HS256", "ECDH-ES", "RS512"]));
            sc.jwt().typ = s(cx.all("typ", &["openid4vci-proof+jwt", "JWT"]));
            let doc = cx.all("document", &docs()).clone();
            one(cx, &sc, &Op::Key(doc))
        }),
        Part::full("validation", &["valid", "invalid"], |cx| {
            let mut sc = Scn::default();
            let algs: Vec<&str> = GOOD_ALGS.iter().chain(&BAD_ALGS).copied().collect();
            sc.jwt().alg = s(cx.all("alg", &algs));
            sc.jwt().typ = s(cx.all(
                "typ",
                &[
                    "openid4vci-proof+jwt", "OPENID4VCI-PROOF+JWT", "OpenID4VCI-Proof+jwt", "", "JWT", "jwt", "openid4vci-proof", "openid4vci-proof+jwt ",
                    " openid4vci-proof+jwt", "openid4vci-proof jwt", "openid4vci-proof+jw", "xopenid4vci-proof+jwt", "openid4vci-proof+jwtx", "openid4vci_proof+jwt",
                    "application/openid4vci-proof+jwt",
                ],
            ));
            sc.jwt().key = cx.all("key reference", &[KeyHdr::Kid(s(KID)), KeyHdr::Kid(s("x")), KeyHdr::Absent, KeyHdr::Jwk(s("{}")), KeyHdr::X5c(s("x"))]).clone();
            sc.jwt().exp = *cx.all("exp", &[None, Some(0)]);
            one(cx, &sc, &Op::Validate)
        }),
        Part::bounded("texts-in-every-place", tier.pick(2, 3), &["agreed"], |cx| {
            let t = texts();
            let mut sc = Scn::default();
            let opt: Vec<Option<String>> = [vec![None], t.iter().cloned().map(Some).collect()].concat();
            let j = sc.jwt();
            j.aud = cx.dev("aud", &[vec![s("https://issuer.test")], t.clone()].concat()).clone();
            j.nonce = cx.dev("nonce", &[vec![s("tZignsnFbp")], t.clone()].concat()).clone();
            j.iss = cx.dev("iss", &[vec![Some(s("client-1"))], opt.clone()].concat()).clone();
            j.sub = cx.dev("sub", &opt).clone();
            j.typ = cx.dev("typ", &[vec![s("openid4vci-proof+jwt")], t.clone()].concat()).clone();
            j.key = match cx.dev("key reference", &["kid", "x5c", "any kid"]) {
                &"kid" => KeyHdr::Kid(format!("{DID}#{}", cx.dev("fragment", &[vec![s("key-1")], t].concat()))),
                &"x5c" => KeyHdr::X5c(cx.dev("x5c", &t).clone()),
                _ => KeyHdr::Kid(cx.dev("kid", &t).clone()),
            };
            j.sig = cx.dev("signature", &[vec![Some(s("c2ln")), None], signatures().into_iter().map(Some).collect()].concat()).clone();
            all_ops(cx, &sc)
        }),
        Part::full("long-texts", &["agreed"], |cx| {
            let l = long(*cx.all("length", &LADDER));
            let mut sc = Scn::default();
            let j = sc.jwt();
            match cx.all_n("where", 8) {
                0 => j.aud = l,
                1 => j.nonce = l,
                2 => j.iss = Some(l),
                3 => j.sub = Some(l),
                4 => j.key = KeyHdr::Kid(format!("{DID}#{l}")),
                5 => j.key = KeyHdr::X5c(l),
                6 => j.sig = Some(l),
                _ => j.typ = l,
            }
            let j = sc.jwt().clone();
            sc.issuer = j.aud.clone();
            sc.client_id = j.iss.clone();
            sc.nonce.as_mut().expect("nonce").expected = j.nonce.clone();
            if let (KeyHdr::Kid(k), Some(d)) = (&j.key, sc.doc.as_mut()) {
                d.vms[0].id = k.clone();
            }
            all_ops(cx, &sc)
        }),
        Part::full("instants", &["in time", "out of time"], |cx| {
            let offs = [None, Some(-SEC), Some(-1), Some(0), Some(1), Some(500_000_000), Some(SEC)];
            let now = *cx.all("now", &[T0, T0 + 1, T0 + 999_999_999, SEC * 2]);
            let mut sc = Scn::default();
            sc.jwt().nbf = cx.all("nbf", &offs).map(|d| now + d);
            sc.jwt().exp = cx.all("exp", &offs).map(|d| now + d);
            sc.jwt().iat = *cx.all("iat", &[0, T0, 2 * T0]);
            sc.jwt().alg = s(cx.all("alg", &["EdDSA", "none"]));
            sc.jwt().form.zone = *cx.all("zone", &[0, 1, 2]);
            one(cx, &sc, &Op::Verify(now))
        }),
        Part::bounded("whatever-else", tier.pick(2, 3), &["agreed"], |cx| {
            let sc = everything(cx);
            let readable = sc.proof.as_ref().is_some_and(|p| p.1.raw.is_none());
            if !readable || sc.proof_faults().contains(&Fault::Unreadable) {
                return Ok(s("no readable proof"));
            }
            all_ops(cx, &sc)
        }),
        Part::full("sequences", &["agreed"], move |cx| {
            let mut ps: Vec<Option<ProofJwt>> = vec![None; seq_proofs.len()];
            for _ in 0..sequences {
                let i = cx.all_n("proof", ps.len());
                let j = &seq_proofs[i];
                if ps[i].is_none() {
                    ps[i] = Some(parsed(cx, j)?);
                }
                let op = cx.all("operation", &seq_ops).clone();
                let p = ps[i].as_ref().expect("proof");
                let before = format!("{p:?}");
                operate(cx, p, j, &op)?;
                if format!("{p:?}") != before {
                    return Err(Problem::new("changed", format!("{before} became {p:?}")));
                }
            }
            Ok(s("agreed"))
        }),
    ]
}

fn one(cx: &mut Ctx, sc: &Scn, op: &Op) -> Res {
    let j = &sc.proof.as_ref().expect("proof").1;
    let p = parsed(cx, j)?;
    let c = operate(cx, &p, j, op)?;
    if let Some(p) = built(j) {
        operate(cx, &p, j, op)?;
    }
    Ok(s(c))
}

/// Proofs that agree in much.
fn seq_proofs() -> Vec<Jwt> {
    let base = Scn::default().proof.expect("proof").1;
    let mut v = vec![base.clone(); 3];
    v[1].nonce = s("other");
    v[1].iss = None;
    v[1].key = KeyHdr::Kid(s("did:example:other#key-1"));
    v[1].exp = Some(T0);
    v[1].sig = Some(s("x"));
    v[2].aud = s("https://other.test");
    v[2].key = KeyHdr::Jwk(inline_keys()[0].0.clone());
    v[2].alg = s("HS256");
    v[2].nbf = Some(T0 + SEC);
    v
}

fn seq_ops() -> Vec<Op> {
    let d = docs();
    vec![
        Op::Validate,
        Op::Verify(T0),
        Op::Verify(T0 + SEC),
        Op::Nonce(Some(s("tZignsnFbp"))),
        Op::Nonce(Some(s("other"))),
        Op::Nonce(None),
        Op::Iss(Some(s("client-1"))),
        Op::Iss(None),
        Op::Aud(s("https://issuer.test")),
        Op::Aud(s("https://other.test")),
        Op::Did,
        Op::Key(d[2].clone()),
        Op::Key(d[3].clone()),
        Op::Key(d[7].clone()),
        Op::Key(None),
        Op::Message,
        Op::Signature,
        Op::Text,
    ]
}

// ---------------------------------------------------------------- C27

fn read<T: DeserializeOwned>(cx: &mut Ctx, text: &str) -> Result<Result<T, String>, Problem> {
    cx.note(|| format!("JSON: {text}"));
    cx.call("deserialise", || serde_json::from_str::<T>(text).map_err(|e| e.to_string()))
}

fn write<T: Serialize>(cx: &mut Ctx, what: &str, t: &T) -> Result<Value, Problem> {
    let r = cx.call("serialise", || serde_json::to_string(t))?;
    let text = r.map_err(|e| Problem::new(format!("{what}/not writable"), e.to_string()))?;
    serde_json::from_str(&text).map_err(|e| Problem::new(format!("{what}/not JSON"), format!("{e}: {text}")))
}

fn strip(v: Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, strip(v))).collect()),
        Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
        v => v,
    }
}

/// Times are compared as instants.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same(v, w)),
        (Value::String(x), Value::String(y)) => x == y || rfc3339(x).is_some_and(|t| rfc3339(y) == Some(t)),
        _ => a == b,
    }
}

fn agrees(cx: &mut Ctx, what: &str, t: &impl Serialize, want: &Value) -> Result<(), Problem> {
    let got = write(cx, what, t)?;
    if same(&strip(got.clone()), &strip(want.clone())) {
        Ok(())
    } else {
        Err(Problem::new(format!("{what}/written"), format!("wanted {want}, written {got}")))
    }
}

/// What a member must be.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Text,
    U32,
    U64,
    Time,
    Object,
    Grant,
}

#[derive(Clone, Copy, Debug)]
struct Member {
    path: &'static [&'static str],
    kind: Kind,
    required: bool,
}

const fn m(path: &'static [&'static str], kind: Kind, required: bool) -> Member {
    Member { path, kind, required }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Msg {
    RequestOptions,
    NonceOptions,
    CNonce,
    TokenOptions,
    TokenRequest,
}

const MSGS: [Msg; 5] = [Msg::RequestOptions, Msg::NonceOptions, Msg::CNonce, Msg::TokenOptions, Msg::TokenRequest];

impl Msg {
    fn example(self) -> Value {
        match self {
            Msg::RequestOptions => json!({"c_nonce": Msg::NonceOptions.example(), "client_id": "client-1"}),
            Msg::NonceOptions => {
                json!({"c_nonce_expires_in": 300, "expected_c_nonce": "tZignsnFbp", "c_nonce_created_at": "2023-11-14T22:13:10Z"})
            }
            Msg::CNonce => json!({"c_nonce": "tZignsnFbp", "c_nonce_expires_in": 300}),
            Msg::TokenOptions => json!({"expected_user_pin": 493_536}),
            Msg::TokenRequest => json!({"grant_type": {"grant_type": super::token::PRE, "pre_authorized_code": "code-1", "user_pin": 493_536}}),
        }
    }

    fn members(self) -> &'static [Member] {
        const N: [Member; 3] = [
            m(&["c_nonce_expires_in"], Kind::U32, true),
            m(&["expected_c_nonce"], Kind::Text, true),
            m(&["c_nonce_created_at"], Kind::Time, true),
        ];
        const R: [Member; 5] = [
            m(&["c_nonce"], Kind::Object, false),
            m(&["client_id"], Kind::Text, false),
            m(&["c_nonce", "c_nonce_expires_in"], Kind::U32, true),
            m(&["c_nonce", "expected_c_nonce"], Kind::Text, true),
            m(&["c_nonce", "c_nonce_created_at"], Kind::Time, true),
        ];
        const C: [Member; 2] = [m(&["c_nonce"], Kind::Text, true), m(&["c_nonce_expires_in"], Kind::U32, false)];
        const T: [Member; 1] = [m(&["expected_user_pin"], Kind::U64, false)];
        const Q: [Member; 4] = [
            m(&["grant_type"], Kind::Object, true),
            m(&["grant_type", "grant_type"], Kind::Grant, true),
            m(&["grant_type", "pre_authorized_code"], Kind::Text, true),
            m(&["grant_type", "user_pin"], Kind::U64, false),
        ];
        match self {
            Msg::RequestOptions => &R,
            Msg::NonceOptions => &N,
            Msg::CNonce => &C,
            Msg::TokenOptions => &T,
            Msg::TokenRequest => &Q,
        }
    }
}

/// Some(read as this) or refused; `None` where it is not settled.
fn settled(k: Kind, v: &Value) -> Option<bool> {
    Some(match (k, v) {
        (Kind::Text, v) => v.is_string(),
        // numbers written as 3e2 or 300.0 are not settled, nor are PINs as the text of a number
        (Kind::U32 | Kind::U64, Value::Number(n)) if n.is_f64() => return if n.as_f64()?.fract() == 0.0 { None } else { Some(false) },
        (Kind::U64, Value::String(t)) if t.parse::<u64>().is_ok_and(|n| n.to_string() == *t) => return None,
        (Kind::U32, v) => v.as_u64().is_some_and(|n| u32::try_from(n).is_ok()),
        (Kind::U64, v) => v.as_u64().is_some(),
        (Kind::Time, Value::String(t)) if rfc3339(t).is_some() => true,
        (Kind::Time, Value::String(t)) if !BAD_TIMES.contains(&t.as_str()) => return None,
        (Kind::Time, _) => false,
        // an array can stand for an object
        (Kind::Object, Value::Array(_)) => return None,
        (Kind::Object, _) => false,
        (Kind::Grant, Value::String(t)) => t == super::token::PRE || t == "authorization_code",
        (Kind::Grant, Value::Number(_)) => return None,
        (Kind::Grant, _) => false,
    })
}

fn odd_values() -> Vec<Value> {
    let mut v: Vec<Value> = ["", "x", "300", "0", "0012", "00", "+1", " 1", "1 ", "1.0", "1e3", "0x1f", "1_000", "१२", "12a", "18446744073709551616", "-1", "true", "null", "4294967296", "PRE-AUTHORIZED_CODE", "authorization_code", "password", "Authorization_Code"]
        .iter()
        .map(|t| json!(t))
        .collect();
    v.extend([
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(-1), json!(4_294_967_295u64), json!(4_294_967_296u64),
        json!(-4_294_967_295i64), json!(u64::MAX), json!(1.5), json!(-0.5), json!([]), json!({}), json!(["x"]), json!({"x": 1}), json!([300]),
    ]);
    v.extend(BAD_TIMES.map(|t| json!(t)));
    v.extend(TIMES.map(|t| json!(t.0)));
    v
}

fn built_options(v: &Value) -> Option<EvaluateCredentialRequestOptions> {
    let c = match v.get("c_nonce") {
        None | Some(Value::Null) => None,
        Some(c) => Some(built_nonce(c)?),
    };
    Some(EvaluateCredentialRequestOptions { c_nonce: c, client_id: v.get("client_id").and_then(Value::as_str).map(s) })
}

fn built_nonce(v: &Value) -> Option<CNonceOptions> {
    Some(CNonceOptions {
        c_nonce_expires_in: u32::try_from(v["c_nonce_expires_in"].as_u64()?).ok()?,
        expected_c_nonce: s(v["expected_c_nonce"].as_str()?),
        c_nonce_created_at: clock::utc(rfc3339(v["c_nonce_created_at"].as_str()?)?)?,
    })
}

/// Reads it, compares with the values built by hand, writes it and reads it again.
fn carry(cx: &mut Ctx, msg: Msg, v: &Value) -> Res {
    fn go<T: DeserializeOwned + Serialize + Debug>(cx: &mut Ctx, msg: Msg, v: &Value, want: Option<&T>, eq: impl Fn(&T, &T) -> bool) -> Result<(), Problem> {
        let what = format!("{msg:?}");
        let text = v.to_string();
        let t = read::<T>(cx, &text)?.map_err(|e| Problem::new(format!("{what}/refused"), format!("{e}: {text}")))?;
        if let Some(w) = want {
            if !eq(&t, w) {
                return Err(Problem::new(format!("{what}/read"), format!("{text} read as {t:?}, not {w:?}")));
            }
            agrees(cx, &what, w, v)?;
        }
        agrees(cx, &what, &t, v)?;
        let again = write(cx, &what, &t)?;
        let u = read::<T>(cx, &again.to_string())?.map_err(|e| Problem::new(format!("{what}/own JSON refused"), format!("{e}: {again}")))?;
        if !eq(&t, &u) {
            return Err(Problem::new(format!("{what}/reads back different"), format!("{t:?} -> {again} -> {u:?}")));
        }
        agrees(cx, &what, &u, v)
    }
    match msg {
        Msg::RequestOptions => go(cx, msg, v, built_options(v).as_ref(), |a, b| a == b)?,
        Msg::NonceOptions => go(cx, msg, v, built_nonce(v).as_ref(), |a, b| a == b)?,
        Msg::CNonce => {
            let w = CNonce {
                c_nonce: s(v["c_nonce"].as_str().expect("nonce")),
                c_nonce_expires_in: v.get("c_nonce_expires_in").and_then(Value::as_u64).map(|n| n as u32),
            };
            go(cx, msg, v, Some(&w), |a, b| a == b)?;
        }
        Msg::TokenOptions => go::<EvaluateAccessTokenRequestOptions>(cx, msg, v, None, |a, b| a == b)?,
        Msg::TokenRequest => go::<AccessTokenRequest>(cx, msg, v, None, |a, b| a == b)?,
    }
    Ok(s("carried over"))
}

fn refuse(cx: &mut Ctx, msg: Msg, v: &Value) -> Res {
    let text = v.to_string();
    let r = match msg {
        Msg::RequestOptions => read::<EvaluateCredentialRequestOptions>(cx, &text)?.map(|t| format!("{t:?}")),
        Msg::NonceOptions => read::<CNonceOptions>(cx, &text)?.map(|t| format!("{t:?}")),
        Msg::CNonce => read::<CNonce>(cx, &text)?.map(|t| format!("{t:?}")),
        Msg::TokenOptions => read::<EvaluateAccessTokenRequestOptions>(cx, &text)?.map(|t| format!("{t:?}")),
        Msg::TokenRequest => read::<AccessTokenRequest>(cx, &text)?.map(|t| format!("{t:?}")),
    };
    match r {
        Ok(t) => Err(Problem::new(format!("{msg:?}/not refused"), format!("{text} read as {t}"))),
        Err(_) => Ok(s("refused")),
    }
}

fn get<'a>(v: &'a mut Value, path: &[&str]) -> Option<&'a mut Map<String, Value>> {
    let mut v = v;
    for p in &path[..path.len() - 1] {
        v = v.get_mut(*p)?;
    }
    v.as_object_mut()
}

/// One message with members left out and replaced.
fn members(cx: &mut Ctx, msg: Msg) -> Res {
    let mut v = msg.example();
    let odd = odd_values();
    let (mut bad, mut open) = (false, false);
    let mut gone: Vec<&'static [&'static str]> = vec![];
    let auth = msg == Msg::TokenRequest && *cx.dev("the other grant", &[false, true]);
    if auth {
        v["grant_type"]["grant_type"] = json!("authorization_code");
    }
    for mem in msg.members() {
        // the other grant has no members of its own
        let judged = !(auth && mem.path.len() == 2 && mem.kind != Kind::Grant);
        let Some(parent) = get(&mut v, mem.path).filter(|_| !gone.iter().any(|g| mem.path.starts_with(g))) else { continue };
        let name = *mem.path.last().expect("name");
        match *cx.dev("member", &["as it is", "left out", "replaced"]) {
            "left out" => {
                parent.remove(name);
                gone.push(mem.path);
                bad |= mem.required && judged;
            }
            "replaced" => {
                let o = cx.all("value", &odd).clone();
                if mem.kind == Kind::Object {
                    gone.push(mem.path);
                }
                parent.insert(s(name), o.clone());
                if o.is_null() {
                    bad |= mem.required && judged;
                } else if judged {
                    match settled(mem.kind, &o) {
                        None => open = true,
                        Some(ok) => bad |= !ok,
                    }
                    if mem.kind == Kind::Grant && o == json!("authorization_code") {
                        open = true; // its own members are not judged then
                    }
                }
            }
            _ => {}
        }
    }
    if bad {
        // one unsettled member does not repair another one
        return if open && msg == Msg::TokenRequest { Ok(s("unsettled")) } else { refuse(cx, msg, &v) };
    }
    if open || auth {
        return Ok(s("unsettled"));
    }
    carry(cx, msg, &v)
}

fn algs() -> Vec<ProofJwtAlgorithm> {
    GOOD_ALGS.iter().chain(&BAD_ALGS).map(|a| serde_json::from_value(json!(a)).expect("algorithm")).collect()
}

/// A proof's JSON form, with the texts in all its members.
fn proof(cx: &mut Ctx, t: &[String]) -> Res {
    let mut sc = Scn::default();
    let opt: Vec<Option<String>> = [vec![None], t.iter().cloned().map(Some).collect()].concat();
    let j = sc.jwt();
    j.aud = cx.dev("aud", &[vec![s("https://issuer.test")], t.to_vec()].concat()).clone();
    j.nonce = cx.dev("nonce", &[vec![s("tZignsnFbp")], t.to_vec()].concat()).clone();
    j.iss = cx.dev("iss", &opt).clone();
    j.sub = cx.dev("sub", &opt).clone();
    j.typ = cx.dev("typ", &[vec![s("openid4vci-proof+jwt")], t.to_vec()].concat()).clone();
    j.alg = s(cx.all("alg", &["EdDSA", "ECDH-ES", "none"]));
    j.key = cx.all("key reference", &[KeyHdr::Kid(s(KID)), KeyHdr::Absent, KeyHdr::Jwk(s("{\"x\":1}")), KeyHdr::X5c(s("MII"))]).clone();
    j.sig = cx.dev("signature", &opt).clone();
    j.nbf = *cx.all("nbf", &[None, Some(T0 + 1)]);
    j.exp = *cx.all("exp", &[None, Some(T0 - 1)]);
    let j = j.clone();
    let want = json!({"header": j.header(), "body": j.body(), "signature": j.sig});
    let p = built(&j).ok_or_else(|| Problem::new("proof/algorithm", j.alg.clone()))?;
    agrees(cx, "proof", &p, &want)?;
    let q = read::<ProofJwt>(cx, &want.to_string())?.map_err(|e| Problem::new("proof/refused", format!("{e}: {want}")))?;
    if format!("{p:?}") != format!("{q:?}") {
        return Err(Problem::new("proof/read", format!("{want} read as {q:?}")));
    }
    agrees(cx, "proof", &q, &want)?;
    Ok(s("carried over"))
}

pub fn c27(tier: Tier) -> Vec<Part> {
    let all_texts: Vec<String> = texts().into_iter().chain(signatures()).chain(crate::util::contents()).chain(tier.pick(stretched().into_iter().rev().take(136).step_by(4).collect(), stretched())).collect();
    let (t1, t2, t3, t4, t5) = (all_texts.clone(), all_texts.clone(), all_texts.clone(), all_texts.clone(), all_texts.clone());
    let u32s = interesting_u32();
    let u64s = interesting_u64();
    let instants: Vec<Nanos> = vec![
        0, 1, -1, 999_999_999, SEC, T0, T0 + 1, T0 + 123_456_789, T0 + 500_000_000, T0 + 999_999_999, -SEC * 3600, 951_782_399 * SEC, 1_709_208_000 * SEC,
        (1 << 31) * SEC - 1, (1 << 31) * SEC, (1 << 32) * SEC, 253_402_300_799 * SEC, 253_402_300_799 * SEC + 999_999_999, -62_135_596_800 * SEC,
    ];
    let zones = ["Z", "+00:00", "-00:00", "+01:00", "-05:30", "+14:00", "-12:00", "+23:59", "-23:59", "+00:01"];
    vec![
        Part::bounded("members", tier.pick(2, 3), &["carried over", "refused"], |cx| {
            let msg = *cx.all("message", &MSGS);
            members(cx, msg)
        }),
        Part::full("request-options", &["carried over"], move |cx| {
            let mut v = json!({});
            let with_nonce = cx.flag("c_nonce");
            if with_nonce {
                v["c_nonce"] = json!({
                    "c_nonce_expires_in": cx.all("lifetime", &[0u32, 1, 300, u32::MAX]),
                    "expected_c_nonce": cx.all("nonce", &t1),
                    "c_nonce_created_at": cx.all("created", &["2023-11-14T22:13:20Z", "2023-11-14T23:13:20.000000001+01:00"]),
                });
            }
            match cx.all_n("client id", 3) {
                0 => {}
                1 => v["client_id"] = json!(null),
                _ if with_nonce => v["client_id"] = json!(cx.all("id", &["client-1", "", " ", "8xLOxBtZp8"])),
                _ => v["client_id"] = json!(cx.all("id", &t1)),
            }
            carry(cx, Msg::RequestOptions, &v)
        }),
        Part::full("nonces", &["carried over"], move |cx| {
            let mut v = json!({"c_nonce": cx.all("nonce", &t2)});
            match cx.all_n("lifetime", 3) {
                0 => {}
                1 => v["c_nonce_expires_in"] = json!(null),
                _ => v["c_nonce_expires_in"] = json!(cx.all("seconds", &[0u32, 1, 5, 300, 65_536, u32::MAX])),
            }
            carry(cx, Msg::CNonce, &v)
        }),
        Part::full("lifetimes", &["carried over"], move |cx| {
            let n = *cx.all("lifetime", &u32s);
            match *cx.all("message", &[Msg::NonceOptions, Msg::CNonce, Msg::RequestOptions]) {
                Msg::RequestOptions => {
                    let mut v = Msg::RequestOptions.example();
                    v["c_nonce"]["c_nonce_expires_in"] = json!(n);
                    carry(cx, Msg::RequestOptions, &v)
                }
                msg => {
                    let mut v = msg.example();
                    v["c_nonce_expires_in"] = json!(n);
                    carry(cx, msg, &v)
                }
            }
        }),
        Part::full("instants", &["carried over"], move |cx| {
            let base = *cx.all("instant", &instants);
            // the text in the zone's own time
            let z = *cx.all("zone", &zones);
            let digits = *cx.all("fraction digits", &[0usize, 1, 2, 3, 4, 6, 7, 9]);
            let frac = base.rem_euclid(SEC);
            let unit = (10 as Nanos).pow(9 - digits as u32);
            let secs = base.div_euclid(SEC);
            let Some(d) = crate::clock::utc(secs * SEC) else { return Ok(s("no such time")) };
            let mut t = d.format("%Y-%m-%dT%H:%M:%S").to_string();
            if digits > 0 {
                t.push_str(&format!(".{:0w$}", frac / unit, w = digits));
            }
            t.push_str(z);
            // the library writes UTC: years of four digits there too
            let Some(at) = rfc3339(&t) else { return Ok(s("no such time")) };
            if !(-62_167_219_200 * SEC..253_402_300_800 * SEC).contains(&at) {
                return Ok(s("no such time"));
            }
            let mut v = Msg::NonceOptions.example();
            v["c_nonce_created_at"] = json!(t);
            carry(cx, Msg::NonceOptions, &v)
        }),
        Part::full("token-requests", &["granted", "refused"], move |cx| {
            let code = cx.all("code", &t3).clone();
            let pin = *cx.all("pin", &[None, Some(0u64), Some(1), Some(99_999_999), Some(100_000_000), Some(u64::MAX)]);
            let explicit = cx.flag("null instead of absent");
            let mut g = json!({"grant_type": super::token::PRE, "pre_authorized_code": code});
            if pin.is_some() || explicit {
                g["user_pin"] = json!(pin);
            }
            let v = json!({ "grant_type": g });
            carry(cx, Msg::TokenRequest, &v)?;
            // and it means that
            let rq: AccessTokenRequest = serde_json::from_value(v).map_err(|e| Problem::new("TokenRequest/refused", e.to_string()))?;
            redeemed(cx, &rq, &code, pin)
        }),
        Part::full("pins", &["granted", "refused"], move |cx| {
            let pin = *cx.all("pin", &u64s);
            let v = json!({"grant_type": {"grant_type": super::token::PRE, "pre_authorized_code": "code-1", "user_pin": pin}});
            carry(cx, Msg::TokenRequest, &v)?;
            carry(cx, Msg::TokenOptions, &json!({ "expected_user_pin": pin }))?;
            let rq: AccessTokenRequest = serde_json::from_value(v).map_err(|e| Problem::new("TokenRequest/refused", e.to_string()))?;
            redeemed(cx, &rq, "code-1", Some(pin))
        }),
        Part::full("other-grant", &["the other grant"], |cx| {
            let extra = cx.all("members of the pre-authorized grant", &[vec![], vec![("pre_authorized_code", json!("code-1"))], vec![("user_pin", json!(null))]]).clone();
            let mut g = json!({"grant_type": "authorization_code"});
            for (k, x) in extra {
                g[k] = x;
            }
            let text = json!({ "grant_type": g }).to_string();
            let rq = read::<AccessTokenRequest>(cx, &text)?.map_err(|e| Problem::new("TokenRequest/refused", format!("{e}: {text}")))?;
            agrees(cx, "TokenRequest", &rq, &json!({"grant_type": {"grant_type": "authorization_code"}}))?;
            let r = cx.call("evaluate_access_token_request", || AccessToken::evaluate_access_token_request(&rq, None, None))?;
            if r != Err(openid4vci::access_token::error::AccessTokenError::AuthorizedFlowNotSupported) {
                return Err(Problem::new("TokenRequest/meaning", format!("{text} answered {r:?}")));
            }
            Ok(s("the other grant"))
        }),
        Part::bounded("evaluation-results", tier.pick(2, 3), &["carried over"], move |cx| {
            let formats = super::cred::formats();
            let f = cx.dev("credential", &formats).clone();
            let bytes: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255, 0, 128, 10, 13], key(1), (0..=255).collect(), long(1025).into_bytes(), long(70_000).into_bytes()];
            let pop = if !*cx.dev("proof of possession", &[true, false]) {
                None
            } else {
                Some((cx.dev("alg", &algs()).clone(), cx.dev("key", &bytes[..5]).clone(), cx.dev("message", &bytes[3..]).clone(), cx.dev("signature", &[vec![], vec![7; 64], bytes[2].clone()]).clone()))
            };
            let subject = cx.dev("subject", &[None, Some(s(DID)), Some(s("")), Some(s("did:web:é.test\"\\"))]).clone();
            let want = json!({
                "proof_of_possession": pop.as_ref().map(|(a, k, m, g)| json!({"algorithm": serde_json::to_value(a).expect("alg"), "public_key": k, "message": m, "signature": g})),
                "subject_id": subject,
                "credential": serde_json::to_value(&f).map_err(|e| Problem::new("format", e.to_string()))?,
            });
            let r = CredentialIssuerEvaluateRequestResponse {
                proof_of_possession: pop.map(|(algorithm, public_key, message, signature)| ProofOfPossession { algorithm, public_key, message, signature }),
                subject_id: subject,
                credential: f,
            };
            exact(cx, "evaluation", &r, &want)
        }),
        Part::full("algorithm-names", &["carried over", "refused"], |cx| {
            let names: Vec<String> = GOOD_ALGS.iter().chain(&BAD_ALGS).map(|a| s(a)).collect();
            let a = cx.all("name", &names).clone();
            let near: Vec<String> = [vec![a.clone()], crate::util::near_misses(&a, &['S', '2', 'K', '-', ' '])].concat();
            let t = cx.all("text", &near).clone();
            let r = read::<ProofJwtAlgorithm>(cx, &json!(t).to_string())?;
            match (&r, names.contains(&t)) {
                (Ok(x), true) => {
                    agrees(cx, "algorithm", x, &json!(t))?;
                    Ok(s("carried over"))
                }
                (Err(_), false) => Ok(s("refused")),
                _ => Err(Problem::new("algorithm", format!("{t:?} read as {r:?}"))),
            }
        }),
        Part::full("other-algorithm-names", &["carried over", "refused"], |cx| {
            let names: Vec<String> = GOOD_ALGS.iter().chain(&BAD_ALGS).map(|a| s(a)).collect();
            let mut texts: Vec<String> = crate::util::JOSE.map(s).to_vec();
            texts.extend(crate::util::contents());
            let t = cx.all("text", &texts).clone();
            let r = read::<ProofJwtAlgorithm>(cx, &json!(t).to_string())?;
            match (&r, names.contains(&t)) {
                (Ok(x), true) => {
                    agrees(cx, "algorithm", x, &json!(t))?;
                    Ok(s("carried over"))
                }
                (Err(_), false) => Ok(s("refused")),
                _ => Err(Problem::new("algorithm", format!("{t:?} read as {r:?}"))),
            }
        }),
        Part::full("pre-evaluation-results", &["carried over"], move |cx| {
            let did = match cx.all_n("DID", 2) {
                0 => None,
                _ => Some(cx.all("text", &t4).clone()),
            };
            let r = PreEvaluateCredentialRequestResponse { did: did.clone() };
            let got = write(cx, "pre-evaluation", &r)?;
            let want = did.map_or(json!({}), |d| json!({ "did": d }));
            if got != want {
                return Err(Problem::new("pre-evaluation/written", format!("wanted {want}, written {got}")));
            }
            Ok(s("carried over"))
        }),
        Part::bounded("proofs", 1, &["carried over"], move |cx| proof(cx, &t5)),
        Part::bounded("proof-combinations", tier.pick(2, 3), &["carried over"], move |cx| {
            proof(cx, &[s(""), s("a.b"), s(" A "), s("\u{1f511}\u{0}")])
        }),
        Part::bounded("options-in-use", tier.pick(2, 3), &["same answer"], |cx| {
            let sc = everything(cx);
            let Some(o) = sc.options() else { return Ok(s("no options")) };
            let v = json!({
                "c_nonce": sc.nonce.as_ref().map(|n| json!({"c_nonce_expires_in": n.lifetime, "expected_c_nonce": n.expected, "c_nonce_created_at": crate::scn::rfc3339(n.created)})),
                "client_id": sc.client_id,
            });
            let p = read::<EvaluateCredentialRequestOptions>(cx, &v.to_string())?.map_err(|e| Problem::new("RequestOptions/refused", format!("{e}: {v}")))?;
            if p != o {
                return Err(Problem::new("RequestOptions/read", format!("{v} read as {p:?}")));
            }
            let (md, rq, of) = (sc.metadata(), sc.request(), sc.offer());
            let doc = sc.doc.as_ref().map(Doc::build);
            let asm = if sc.asm {
                // read from JSON as well
                Some(read::<AuthorizationServerMetadata>(cx, "{}")?.map_err(|e| Problem::new("AuthorizationServerMetadata/refused", e))?)
            } else {
                None
            };
            let mut rs = vec![];
            for o in [o, p] {
                clock::set(sc.now);
                let r = cx.call("evaluate_credential_request", || {
                    CredentialIssuer::evaluate_credential_request(&md, &rq, of.as_ref(), asm.as_ref(), doc.as_ref(), Some(o))
                });
                clock::release();
                rs.push(r?);
            }
            if rs[0] != rs[1] {
                return Err(Problem::new("RequestOptions/meaning", format!("built: {:?}, read: {:?}", rs[0], rs[1])));
            }
            if let Ok(r) = &rs[1] {
                let want = json!({
                    "proof_of_possession": r.proof_of_possession.as_ref().map(|p| json!({"algorithm": sc.proof.as_ref().expect("proof").1.alg, "public_key": p.public_key, "message": p.message, "signature": p.signature})),
                    "subject_id": r.subject_id,
                    "credential": serde_json::to_value(&sc.format).map_err(|e| Problem::new("format", e.to_string()))?,
                });
                exact(cx, "evaluation", r, &want)?;
            }
            Ok(s("same answer"))
        }),
    ]
}

/// Byte arrays and texts exactly, absent members may be null.
fn exact(cx: &mut Ctx, what: &str, t: &impl Serialize, want: &Value) -> Res {
    let got = write(cx, what, t)?;
    if strip(got.clone()) == strip(want.clone()) {
        Ok(s("carried over"))
    } else {
        Err(Problem::new(format!("{what}/written"), format!("wanted {want}, written {got}")))
    }
}

/// The request redeems exactly the offer with its code and PIN.
fn redeemed(cx: &mut Ctx, rq: &AccessTokenRequest, code: &str, pin: Option<u64>) -> Res {
    let other = format!("{code}x");
    let mut granted = 0;
    for (c, p, e) in [
        (code, pin.is_some(), pin),
        (other.as_str(), pin.is_some(), pin),
        (code, pin.is_none(), pin),
        (code, pin.is_some(), pin.map(|p| p.wrapping_add(1))),
    ] {
        let offer = json!({"credential_issuer": "https://issuer.test", "credentials": [],
            "grants": {(super::token::PRE): {"pre-authorized_code": c, "user_pin_required": p}}});
        let offer = serde_json::from_value(offer).map_err(|e| Problem::new("offer/refused", e.to_string()))?;
        let opts: EvaluateAccessTokenRequestOptions =
            serde_json::from_value(json!({ "expected_user_pin": e })).map_err(|e| Problem::new("TokenOptions/refused", e.to_string()))?;
        let r = cx.call("evaluate_access_token_request", || AccessToken::evaluate_access_token_request(rq, Some(offer), Some(opts)))?;
        let want = c == code && p == pin.is_some() && e == pin && pin.map_or(true, |p| p <= 99_999_999);
        if r.is_ok() != want {
            return Err(Problem::new("TokenRequest/meaning", format!("code {code:?}, pin {pin:?}, offer ({c:?}, {p}), expected {e:?}: {r:?}")));
        }
        granted += u32::from(r.is_ok());
    }
    Ok(s(if granted > 0 { "granted" } else { "refused" }))
}
