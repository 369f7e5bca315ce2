//! C20: every call returns. The answers themselves are other properties'
//! business; a panic is caught by `Ctx::call`, a hang by the watchdog.

use crate::clock::{self, Nanos, SEC};
use crate::explore::{Ctx, Driver, Problem, Res};
use crate::report::Part;
use crate::scn::{jwt_vc, ldp, metadata, supported, Jwt, KeyHdr, NonceOpt, Scn, LISTS, T0};
use crate::util::{all_sentences, b64url, interesting_u32, interesting_u64};
use crate::Tier;
use openid4vci::access_token::error::AccessTokenError;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::{
    AccessToken, AccessTokenRequest, AccessTokenSuccessResponse, EvaluateAccessTokenRequestOptions,
};
use openid4vci::credential_issuer::error::CredentialIssuerError;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CNonceOptions, CredentialIssuer, CredentialOffer,
    CredentialOrAcceptanceToken, CredentialOrIds, EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::jwt::error::JwtError;
use openid4vci::jwt::ProofJwt;
use openid4vci::return_object::ToReturnObject;
use openid4vci::types::credential::{CredentialFormatProfile, CredentialFormatProfileOrEncoded};
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported};
use openid4vci::types::credential_request::{CredentialRequest, CredentialRequestProof};
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use openid4vci::Document;
use serde_json::{json, Value};
use std::str::FromStr;

fn s(x: &str) -> String {
    x.to_owned()
}

fn done(answered: bool) -> Res {
    Ok(s(if answered { "accepted" } else { "refused" }))
}

/// Everything that can be done with a proof text.
fn use_proof(cx: &mut Ctx, text: &str, doc: Option<&Document>) -> Res {
    cx.note(|| format!("proof: {text:?}"));
    let jwt = cx.call("from_str", || ProofJwt::from_str(text))?;
    clock::set(T0);
    let mut ok = false;
    if let Ok(j) = &jwt {
        cx.call("validate", || j.validate().is_ok())?;
        let r = cx.call("verify", || j.verify())?;
        errors(cx, r)?;
        let r = cx.call("extract_did", || j.extract_did())?;
        errors(cx, r)?;
        let r = cx.call("extract_key_and_alg", || j.extract_key_and_alg(None).map(|x| x.0))?;
        errors(cx, r)?;
        let r = cx.call("extract_key_and_alg", || j.extract_key_and_alg(doc).map(|x| x.0))?;
        errors(cx, r)?;
        let r = cx.call("to_signable_message", || j.to_signable_message())?;
        errors(cx, r)?;
        let r = cx.call("extract_signature", || j.extract_signature())?;
        errors(cx, r)?;
        cx.call("checks", || {
            let _ = j.check_nonce(None);
            let _ = j.check_nonce(Some(j.body.nonce.clone()));
            let _ = j.check_iss(j.body.issuer.clone());
            let _ = j.check_aud(&j.body.audience);
        })?;
        cx.call("debug and clone", || format!("{:?}", j.clone()).len())?;
        cx.call("json", || serde_json::to_string(j).is_ok())?;
        ok = true;
    }
    let mut scn = Scn::default();
    let (md, of, op) = (scn.metadata(), scn.offer(), scn.options());
    scn.jwt().raw = Some(s(text));
    let rq = scn.request();
    let r = cx.call("pre_evaluate", || CredentialIssuer::pre_evaluate_credential_request(&rq))?;
    issuer_errors(cx, r.map(|r| r.did))?;
    let r = cx.call("evaluate", || {
        CredentialIssuer::evaluate_credential_request(&md, &rq, of.as_ref(), None, doc, op)
    })?;
    issuer_errors(cx, r.map(|r| r.subject_id))?;
    let r = cx.call("success response", || {
        CredentialIssuer::create_credential_success_response(&rq, None, None)
    })?;
    issuer_errors(cx, r.map(|_| ()))?;
    done(ok)
}

fn errors<T>(cx: &mut Ctx, r: Result<T, JwtError>) -> Result<(), Problem> {
    if let Err(e) = r {
        cx.call("error information", || {
            format!("{e} {e:?} {}", e.information());
            let _ = CredentialIssuerError::from(e).information().to_string();
        })?;
    }
    Ok(())
}

fn issuer_errors<T: serde::Serialize + Clone>(
    cx: &mut Ctx,
    r: Result<T, CredentialIssuerError>,
) -> Result<(), Problem> {
    cx.call("return object", || {
        if let Err(e) = &r {
            format!("{e} {e:?}");
        }
        serde_json::to_string(&r.to_return_object().add_warning(s("w"))).is_ok()
    })?;
    Ok(())
}

fn token_errors<T: serde::Serialize + Clone>(
    cx: &mut Ctx,
    r: Result<T, AccessTokenError>,
) -> Result<(), Problem> {
    cx.call("return object", || {
        if let Err(e) = &r {
            format!("{e} {e:?}");
        }
        serde_json::to_string(&r.to_return_object()).is_ok()
    })?;
    Ok(())
}

/// Odd JSON values, one of each kind and extremes.
fn odd() -> Vec<Value> {
    vec![
        Value::Null,
        json!(true),
        json!(0),
        json!(-1),
        json!(1.5),
        json!(u64::MAX),
        json!(i64::MIN),
        json!(1e308),
        json!(""),
        json!("text"),
        json!("\u{0}\u{1f511}é\u{ffff}"),
        json!([]),
        json!([[]]),
        json!(["text", null, 1]),
        json!({}),
        json!({"": ""}),
        json!({"format": "ldp_vc"}),
        json!({"name": {}, "display": [{}]}),
        json!("+262142-12-31T23:59:59.999999999Z"),
        json!("-262143-01-01T00:00:00Z"),
        json!("0000-00-00T00:00:00Z"),
        json!("2016-12-31T23:59:60Z"),
        json!("2023-11-14T22:13:20+99:99"),
        json!("did:"),
        json!("did:example:holder#key-1"),
    ]
}

/// Every place of the value as JSON pointer.
fn places(v: &Value, at: &str, out: &mut Vec<String>) {
    out.push(s(at));
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                places(x, &format!("{at}/{i}"), out);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                places(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        _ => {}
    }
}

fn remove(v: &mut Value, at: &str) {
    let Some((parent, last)) = at.rsplit_once('/') else { return };
    match v.pointer_mut(parent) {
        Some(Value::Array(a)) => {
            if let Ok(i) = last.parse::<usize>() {
                if i < a.len() {
                    a.remove(i);
                }
            }
        }
        Some(Value::Object(m)) => {
            m.remove(&last.replace("~1", "/").replace("~0", "~"));
        }
        _ => {}
    }
}

/// `base` with up to `n` places replaced, removed or repeated.
fn mutated(cx: &mut Ctx, base: &Value, n: usize, odd: &[Value]) -> Value {
    let mut v = base.clone();
    for _ in 0..n {
        let mut at = vec![];
        places(&v, "", &mut at);
        let at = cx.all("place", &at).clone();
        let k = cx.all_n("change", odd.len() + 2);
        if k < odd.len() {
            if let Some(x) = v.pointer_mut(&at) {
                *x = odd[k].clone();
            }
        } else if k == odd.len() {
            remove(&mut v, &at);
        } else if let Some(x) = v.pointer_mut(&at) {
            *x = json!([x.clone(), x.clone()]);
        }
    }
    v
}

fn claims() -> Value {
    json!({"given_name": {"mandatory": true, "value_type": "string", "display": [{"name": "N", "locale": "en"}]}})
}

fn full_metadata() -> Value {
    json!({
        "credential_issuer": "https://issuer.test",
        "authorization_server": "https://as.test",
        "credential_endpoint": "https://issuer.test/credential",
        "batch_credential_endpoint": "https://issuer.test/batch",
        "credentials_supported": [
            {"format": "ldp_vc", "id": "a", "@context": ["https://c", {"k": "v"}], "types": ["T"],
             "credentialSubject": claims(), "order": ["given_name"],
             "cryptographic_binding_methods_supported": ["did:example"],
             "cryptographic_suites_supported": ["Ed25519Signature2018"],
             "display": [{"name": "D", "locale": "en", "logo": {"url": "u", "alt_text": "t"},
                "description": "d", "background_color": "#000", "text_color": "#fff"}]},
            {"format": "mso_mdoc", "id": "b", "doctype": "org", "claims": claims()},
            {"format": "jwt_vc_json", "types": ["T"], "credentialSubject": claims()},
        ],
        "display": [{"name": "Issuer"}],
    })
}

fn full_offer() -> Value {
    json!({
        "credential_issuer": "https://issuer.test",
        "credentials": ["a", {"format": "jwt_vc_json-ld", "types": ["T"]}],
        "grants": {
            "authorization_code": {"issuer_state": "st"},
            "urn:ietf:params:oauth:grant-type:pre-authorized_code":
                {"pre-authorized_code": "code", "user_pin_required": true},
        },
    })
}

fn full_request() -> Value {
    let proof = Scn::default().request().proof.expect("proof");
    json!({"format": "ldp_vc", "@context": ["https://c"], "types": ["T"], "credentialSubject": claims(),
        "order": ["x"], "proof": {"proof_type": "jwt", "jwt": proof.jwt}})
}

fn with_metadata(cx: &mut Ctx, md: &CredentialIssuerMetadata) -> Res {
    let ok = cx.call("metadata validate", || md.validate().is_ok())?;
    cx.call("metadata json", || serde_json::to_string(md).is_ok())?;
    let ids: Vec<String> = md.credentials_supported.iter().filter_map(|c| c.id.clone()).collect();
    for list in [vec![], vec!["a".into()], vec!["zz".into(), "a".into()]] {
        let c = CredentialOrIds::new(list);
        let r = cx.call("resolve_all", || c.resolve_all(md))?;
        issuer_errors(cx, r)?;
    }
    for id in ids {
        let pre = Some(PreAuthorizedCodeFlow { code: id.clone(), user_pin_required: Some(true) });
        for e in [None, Some(id.clone()), Some(s("?")), Some(s("#"))] {
            let c = CredentialOrIds::new(vec![id.as_str().into()]);
            let r = cx.call("create_offer", || CredentialIssuer::create_offer(md, c, &e, &None, &pre))?;
            issuer_errors(cx, r.map(|x| x.1))?;
        }
    }
    done(ok)
}

fn with_format(cx: &mut Ctx, f: &CredentialFormatProfile) -> Result<(), Problem> {
    cx.call("format name", || f.get_format_name())?;
    cx.call("format validate", || f.validate().is_ok())?;
    cx.call("format json", || serde_json::to_string(f).is_ok())?;
    cx.call("encode credential", || {
        CredentialFormatProfileOrEncoded::try_from(f.clone()).map(|x| serde_json::to_string(&x).is_ok()).is_ok()
    })?;
    Ok(())
}

fn with_request(cx: &mut Ctx, rq: &CredentialRequest) -> Res {
    clock::set(T0);
    with_format(cx, &rq.format)?;
    let ok = cx.call("request validate", || rq.validate().is_ok())?;
    cx.call("request json", || serde_json::to_string(rq).is_ok())?;
    let r = cx.call("pre_evaluate", || CredentialIssuer::pre_evaluate_credential_request(rq))?;
    issuer_errors(cx, r.map(|r| r.did))?;
    let d = Scn::default();
    let (md, of, op, doc) = (d.metadata(), d.offer(), d.options(), d.doc.as_ref().map(crate::scn::Doc::build));
    let r = cx.call("evaluate", || {
        CredentialIssuer::evaluate_credential_request(&md, rq, of.as_ref(), None, doc.as_ref(), op)
    })?;
    issuer_errors(cx, r.map(|r| r.subject_id))?;
    let r = cx.call("success response", || {
        CredentialIssuer::create_credential_success_response(
            rq,
            Some(CredentialOrAcceptanceToken::Credential(rq.format.clone())),
            Some(CNonce { c_nonce: String::new(), c_nonce_expires_in: Some(u32::MAX) }),
        )
    })?;
    issuer_errors(cx, r.map(|_| ()))?;
    done(ok)
}

/// Another property's executions, looked at for panics only.
fn reuse(id: &'static str, parts: Vec<Part>, tier: Tier, out: &mut Vec<Part>) {
    // pairs of values of parts whose single values others run too
    const PAIRS: [&str; 6] = ["all-url-variant-pairs", "audience-contents", "client-id-contents", "id-contents", "request-options", "sequences"];
    for p in parts {
        if p.runner.is_some() || tier == Tier::Quick && (PAIRS.contains(&p.name) || id == "C10" && p.name == "contents") {
            continue;
        }
        let inner: Driver = p.driver;
        let name: &'static str = Box::leak(format!("{id}/{}", p.name).into_boxed_str());
        out.push(Part {
            name,
            bound: p.bound,
            expect: &[],
            runner: None,
            driver: Box::new(move |cx| match inner(cx) {
                Err(p) if p.site.starts_with("panic/") => Err(p),
                Ok(_) | Err(_) => Ok(s("answered")),
            }),
        });
    }
}

const DOCS: [&str; 22] = [
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder"}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":""}"#,
    r#"{"@context":[],"id":"x"}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[]}"#,
    r##"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":["#key-1"]}"##,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":["did:example:holder#key-1"]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"T","controller":"c"}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"","controller":"","publicKeyJwk":{"kty":"EC"}}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"T","controller":"c","publicKeyJwk":{"kty":"EC","crv":"Ed25519","alg":"EdDSA"}}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"T","controller":"c","publicKeyJwk":{"kty":"EC","alg":"ES256K-R","x":"","y":""}}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"T","controller":"c","publicKeyJwk":{"kty":"OKP","crv":"","x":""}}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"T","controller":"c","publicKeyJwk":{"kty":"OKP","crv":"Ed25519","x":"AA","d":"AA","alg":"None"}}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"T","controller":"c","publicKeyJwk":{"kty":"RSA"}}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"T","controller":"c","publicKeyJwk":{"kty":"oct"}}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"Ed25519VerificationKey2018","controller":"c","publicKeyBase58":""}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"Ed25519VerificationKey2018","controller":"c","publicKeyHex":"0"}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"Ed25519VerificationKey2020","controller":"c","publicKeyMultibase":""}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"Ed25519VerificationKey2020","controller":"c","publicKeyMultibase":"z"}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"Ed25519VerificationKey2020","controller":"c","publicKeyMultibase":"zé"}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"EcdsaSecp256k1VerificationKey2019","controller":"c","publicKeyBase58":"1"}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"P256Key2021","controller":"c","publicKeyBase58":"z"}]}"#,
    r#"{"@context":"https://www.w3.org/ns/did/v1","id":"did:example:holder","verificationMethod":[{"id":"did:example:holder#key-1","type":"T","controller":"c","blockchainAccountId":"x"}],"controller":"did:x:y","alsoKnownAs":["x"],"service":[{"id":"did:example:holder#key-1","type":"S","serviceEndpoint":"x"}]}"#,
];

/// What a proof's kid can look like, DID URL or not.
fn kids(n: usize) -> Vec<String> {
    let mut v = all_sentences(&["did:", "example:", "holder", "#", "key-1", "/", "?", ":", "%", "é", "."], n);
    for k in ["did:example:holder#key-1", "did:example:holder/p?q=1#key-1", "did:example:holder?a#b#c", "#key-1"] {
        v.push(s(k));
    }
    v
}

fn jwt_with(f: impl FnOnce(&mut Jwt)) -> String {
    let mut scn = Scn::default();
    f(scn.jwt());
    scn.jwt().compact()
}

fn extremes() -> Vec<chrono::DateTime<chrono::Utc>> {
    use chrono::{DateTime, Utc};
    let mut v = vec![DateTime::<Utc>::MIN_UTC, DateTime::<Utc>::MAX_UTC, clock::utc(0).unwrap_or_default()];
    for t in [-1, 1, T0 - 1, T0, T0 + 1, 253_402_300_800 * SEC, -62_167_219_201 * SEC, -62_167_219_200 * SEC] {
        v.extend(clock::utc(t));
    }
    let max: DateTime<Utc> = DateTime::<Utc>::MAX_UTC;
    for back in [1u64, 300, u64::from(u32::MAX), u64::from(u32::MAX) + 1] {
        v.extend(max.checked_sub_signed(chrono::Duration::seconds(back as i64)));
        v.extend(DateTime::<Utc>::MIN_UTC.checked_add_signed(chrono::Duration::seconds(back as i64)));
    }
    v
}

pub fn c20(tier: Tier) -> Vec<Part> {
    let mut out = own(tier);
    for id in super::IDS {
        if !["C20", "C21", "C22"].contains(&id) {
            reuse(id, super::parts(id, Tier::Quick).unwrap_or_default(), tier, &mut out);
        }
    }
    out
}

/// One thing wrong with a request, or nothing.
fn faulty(cx: &mut Ctx, sc: &mut Scn) {
    match cx.all_n("fault", 20) {
        0 => {}
        1 => sc.jwt().sig = None,
        2 => sc.jwt().alg = s("none"),
        3 => sc.jwt().typ = s("JWT"),
        4 => sc.proof.as_mut().unwrap().0 = s("cwt"),
        5 => sc.doc = None,
        6 => sc.doc.as_mut().unwrap().vms.clear(),
        7 => sc.doc.as_mut().unwrap().vms[0].mat = crate::scn::Mat::Nothing,
        8 => sc.offer = None,
        9 => sc.jwt().exp = Some(T0 - SEC),
        10 => sc.jwt().nbf = Some(T0 + SEC),
        11 => sc.nonce.as_mut().unwrap().created = T0 - 9_000 * SEC,
        12 => sc.nonce.as_mut().unwrap().expected = s("other"),
        13 => sc.client_id = Some(s("other")),
        14 => sc.issuer = s("https://other.test"),
        15 => sc.jwt().key = KeyHdr::Absent,
        16 => sc.md_ids = vec![Some(s("X")), Some(s("X"))],
        17 => sc.asm = true,
        n => {
            // nothing in it has a dot, so that it is known to be unsigned
            sc.jwt().sig = None;
            sc.issuer = s("https://localhost");
            sc.jwt().aud = s("https://localhost");
            if n == 19 {
                sc.jwt().iss = None;
                sc.client_id = None;
            }
        }
    }
}

/// A text somewhere in a request.
fn texted(cx: &mut Ctx, sc: &mut Scn, t: String) {
    match cx.all_n("text's place", 24) {
        0 => sc.jwt().aud = t,
        1 => sc.jwt().nonce = t,
        2 => sc.jwt().iss = Some(t),
        3 => sc.jwt().sub = Some(t),
        4 => sc.jwt().key = KeyHdr::Kid(t),
        5 => sc.jwt().key = KeyHdr::Kid(format!("did:example:holder#{t}")),
        6 => {
            let kid = format!("did:example:holder#{t}");
            sc.jwt().key = KeyHdr::Kid(kid.clone());
            if let Some(v) = sc.doc.as_mut().and_then(|d| d.vms.first_mut()) {
                v.id = kid;
            }
        }
        7 => sc.jwt().sig = Some(t),
        8 => sc.jwt().typ = t,
        9 => sc.jwt().alg = t,
        10 => sc.jwt().raw = Some(t),
        11 => sc.jwt().key = KeyHdr::Jwk(t),
        12 => sc.jwt().key = KeyHdr::X5c(t),
        13 => sc.proof.as_mut().unwrap().0 = t,
        14 => sc.issuer = t,
        15 => sc.client_id = Some(t),
        16 => {
            if let Some(n) = sc.nonce.as_mut() {
                n.expected = t;
            }
        }
        17 => sc.md_ids.push(Some(t)),
        18 => {
            sc.issuer = t.clone();
            sc.jwt().aud = t;
        }
        19 => {
            sc.client_id = Some(t.clone());
            sc.jwt().iss = Some(t);
        }
        20 => {
            if let Some(n) = sc.nonce.as_mut() {
                n.expected = t.clone();
            }
            sc.jwt().nonce = t;
        }
        21 => {
            let did = format!("did:{t}");
            sc.jwt().key = KeyHdr::Kid(format!("{did}#k"));
            if let Some(d) = sc.doc.as_mut() {
                d.id = did.clone();
                if let Some(v) = d.vms.first_mut() {
                    v.id = format!("{did}#k");
                }
            }
        }
        22 => {
            // an unsigned proof may be any text of two segments
            let whole = sc.jwt().compact();
            sc.jwt().raw = Some(format!("{}.{t}", whole.split('.').next().unwrap_or_default()));
        }
        _ => sc.format = jwt_vc(&[&t]),
    }
}

fn own(tier: Tier) -> Vec<Part> {
    let deep = tier.pick(1, 2);
    let h = b64url(Value::Object(Scn::default().jwt().header()).to_string().as_bytes());
    let b = b64url(Value::Object(Scn::default().jwt().body()).to_string().as_bytes());
    let (h2, b2) = (h.clone(), b.clone());
    let pieces: Vec<&'static str> = [
        ".", &h, &b, "sig", "=", "\u{1f511}", "\0", "e30", "W10", "bnVsbA", "IiI", "eyJ0eXAiOiIifQ", "_-", "A",
    ]
    .iter()
    .map(|x| &*Box::leak(x.to_string().into_boxed_str()))
    .collect();
    let sentences = all_sentences(&pieces, tier.pick(4, 5));
    let (kids, short_kids) = (kids(4), kids(tier.pick(3, 4)));
    let pins = interesting_u64();
    let counts = interesting_u32();
    let big: Vec<(&'static str, String)> = vec![
        ("dots", ".".repeat(200_000)),
        ("letters", "A".repeat(200_000)),
        ("brackets", "[".repeat(200_000)),
        ("objects", "{\"a\":".repeat(50_000)),
        ("quotes", "\"".repeat(200_000)),
        ("escapes", "\\u0000".repeat(30_000)),
        ("keys", "\u{1f511}".repeat(50_000)),
        ("percent", "%".repeat(200_000)),
        ("hashes", "did:a:#".repeat(30_000)),
    ];
    let big2 = big.clone();
    vec![
        Part::full("texts-in-every-faulty-scene", &["refused", "accepted"], {
            let texts: Vec<String> = crate::util::stretched().into_iter().filter(|t| t.len() < 2100).collect();
            move |cx| {
                let t = cx.all("text", &texts).clone();
                let mut sc = Scn::default();
                faulty(cx, &mut sc);
                texted(cx, &mut sc, t);
                let (md, rq, of, op) = (sc.metadata(), sc.request(), sc.offer(), sc.options());
                let doc = sc.doc.as_ref().map(|d| d.build());
                clock::set(sc.now);
                let r = cx.call("evaluate", || CredentialIssuer::evaluate_credential_request(&md, &rq, of.as_ref(), None, doc.as_ref(), op))?;
                let ok = r.is_ok();
                issuer_errors(cx, r.map(|r| r.subject_id))?;
                let r = cx.call("pre_evaluate", || CredentialIssuer::pre_evaluate_credential_request(&rq))?;
                issuer_errors(cx, r.map(|r| r.did))?;
                let r = cx.call("success response", || CredentialIssuer::create_credential_success_response(&rq, None, None))?;
                issuer_errors(cx, r.map(|_| ()))?;
                done(ok)
            }
        }),
        Part::full("proof-sentences", &["refused", "accepted"], move |cx| {
            let p = cx.all("proof", &sentences).clone();
            let doc = Scn::default().doc.map(|d| d.build());
            use_proof(cx, &p, doc.as_ref())
        }),
        Part::full("proof-bytes", &["refused"], move |cx| {
            let n = cx.all_n("segment", 2);
            let a = cx.all_n("byte", 256) as u8;
            let raw = match cx.all_n("another", tier.pick(65, 257)) {
                0 => b64url(&[a]),
                c => b64url(&[a, tier.pick(c * 4 - 1, c - 1) as u8]),
            };
            let p = if n == 0 { format!("{raw}.{b2}.s") } else { format!("{h2}.{raw}.s") };
            use_proof(cx, &p, None)
        }),
        Part::full("proof-values", &["refused", "accepted"], move |cx| {
            let mut base = json!({"h": Scn::default().jwt().header(), "b": Scn::default().jwt().body()});
            base["b"]["sub"] = json!("x");
            base["b"]["nbf"] = json!("2023-11-14T22:13:10Z");
            base["b"]["exp"] = json!("2023-11-14T22:14:20Z");
            let v = mutated(cx, &base, deep, &odd());
            let t = |k: &str| b64url(v[k].to_string().as_bytes());
            let p = format!("{}.{}.c2ln", t("h"), t("b"));
            let doc = Scn::default().doc.map(|d| d.build());
            use_proof(cx, &p, doc.as_ref())
        }),
        Part::full("kids-and-documents", &["document read"], move |cx| {
            let d = *cx.all("document", &DOCS);
            let doc: Option<Document> = serde_json::from_str(d).ok();
            let read = doc.is_some();
            let kid = cx.all("kid", if d == DOCS[6] { &kids } else { &short_kids }).clone();
            let p = jwt_with(|j| j.key = KeyHdr::Kid(kid));
            use_proof(cx, &p, doc.as_ref())?;
            Ok(s(if read { "document read" } else { "no document" }))
        }),
        Part::full("documents", &["accepted"], move |cx| {
            let mut base: Value = serde_json::from_str(DOCS[6]).expect("JSON");
            base["verificationMethod"][0]["publicKeyJwk"] = json!({"kty": "OKP", "crv": "Ed25519", "x": "AAAA",
                "alg": "EdDSA", "use": "sig", "key_ops": ["verify"], "kid": "k"});
            let list = *cx.all("list", &LISTS);
            let vm = base["verificationMethod"].take();
            base.as_object_mut().expect("object").remove("verificationMethod");
            base[list] = vm;
            let form = cx.all_n("key form", 6);
            let m = &mut base[list][0];
            for (i, (k, v)) in [
                ("publicKeyBase58", "11111111111111111111111111111111"),
                ("publicKeyMultibase", "z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK"),
                ("publicKeyHex", "00"),
                ("publicKeyGpg", "x"),
                ("blockchainAccountId", "eip155:1:0x0"),
            ]
            .iter()
            .enumerate()
            {
                if form == i + 1 {
                    m[*k] = json!(v);
                    m.as_object_mut().expect("object").remove("publicKeyJwk");
                    m["type"] = json!(["Ed25519VerificationKey2018", "Ed25519VerificationKey2020",
                        "EcdsaSecp256k1VerificationKey2019", "PgpVerificationKey2021",
                        "EcdsaSecp256k1RecoveryMethod2020"][i]);
                }
            }
            let v = mutated(cx, &base, deep, &odd());
            match serde_json::from_value::<Document>(v) {
                Ok(d) => use_proof(cx, &jwt_with(|_| ()), Some(&d)),
                Err(_) => done(false),
            }
        }),
        Part::full("keys", &["accepted"], {
            let shapes = crate::util::byte_shapes();
            move |cx| {
                let k = b64url(cx.all("bytes", &shapes));
                let crv = *cx.all("curve", &crate::util::CURVES);
                let mut v = json!({"crv": crv, "x": k, "kty": cx.all("kty", &["OKP", "EC"])});
                if cx.flag("y") {
                    v["y"] = json!(k);
                }
                if let Some(a) = cx.all("alg", &[None, Some("EdDSA"), Some("ES256"), Some("ES256K")]) {
                    v["alg"] = json!(a);
                }
                let mut doc: Value = serde_json::from_str(DOCS[6]).expect("JSON");
                doc["verificationMethod"][0]["publicKeyJwk"] = v;
                match serde_json::from_value::<Document>(doc) {
                    Ok(d) => use_proof(cx, &jwt_with(|_| ()), Some(&d)),
                    Err(_) => done(false),
                }
            }
        }),
        Part::full("jwk-headers", &["accepted"], move |cx| {
            let base = json!({"kty": "OKP", "crv": "Ed25519", "x": "AAAA", "alg": "EdDSA"});
            let mut v = mutated(cx, &base, tier.pick(2, 2), &odd());
            if let Some(m) = v.as_object_mut() {
                m.insert(s("kty"), json!(cx.all("kty", &["OKP", "EC", "RSA", "oct", "x"])));
            }
            let p = jwt_with(|j| j.key = KeyHdr::Jwk(v.to_string()));
            use_proof(cx, &p, None)
        }),
        Part::full("instants", &["refused", "accepted"], move |cx| {
            let e = extremes();
            let lifetimes = [0, 1, 300, u32::MAX - 1, u32::MAX];
            let created = *cx.all("created", &e);
            let lifetime = *cx.all("lifetime", &lifetimes);
            let now = *cx.all("now", &[0, 1, T0, T0 + 1, 253_402_300_800 * SEC, (i64::MAX / 1_000_000) as Nanos * SEC]);
            let t = e[cx.all_n("claim", e.len())];
            let which = cx.all_n("which", 3);
            let p = jwt_with(|_| ());
            let mut j = ProofJwt::from_str(&p).map_err(|e| Problem::new("default proof", format!("{e:?}")))?;
            match which {
                0 => j.body.not_before = Some(t),
                1 => j.body.expires_at = Some(t),
                _ => j.body.issued_at = t,
            }
            if clock::utc(now).is_none() {
                return done(false);
            }
            clock::set(now);
            let r = cx.call("verify", || j.verify())?;
            errors(cx, r)?;
            cx.call("message", || j.to_signable_message().is_ok())?;
            let mut scn = Scn::default();
            scn.nonce = Some(NonceOpt { expected: s("tZignsnFbp"), created: T0, lifetime: 1 });
            let tm = |t: &chrono::DateTime<chrono::Utc>| {
                json!(t.to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true))
            };
            let mut body = scn.jwt().body();
            body.insert(s(["nbf", "exp", "iat"][which]), tm(&t));
            let head = Value::Object(scn.jwt().header()).to_string();
            scn.jwt().raw =
                Some(format!("{}.{}.s", b64url(head.as_bytes()), b64url(Value::Object(body).to_string().as_bytes())));
            let (md, rq, of) = (scn.metadata(), scn.request(), scn.offer());
            let doc = scn.doc.as_ref().map(crate::scn::Doc::build);
            let op = EvaluateCredentialRequestOptions {
                client_id: None,
                c_nonce: Some(CNonceOptions {
                    c_nonce_expires_in: lifetime,
                    expected_c_nonce: s("tZignsnFbp"),
                    c_nonce_created_at: created,
                }),
            };
            let r = cx.call("evaluate", || {
                CredentialIssuer::evaluate_credential_request(&md, &rq, of.as_ref(), None, doc.as_ref(), Some(op))
            })?;
            let ok = r.is_ok();
            issuer_errors(cx, r.map(|r| r.subject_id))?;
            let r = cx.call("token response", || {
                AccessToken::create_access_token_success_response(
                    s("t"),
                    AccessTokenType::Bearer,
                    Some(lifetime),
                    None,
                    None,
                    Some(lifetime),
                    None,
                    Some(lifetime),
                )
            })?;
            token_errors(cx, r.map(|_| ()))?;
            done(ok)
        }),
        Part::full("pins", &["refused", "accepted"], move |cx| {
            let pin = *cx.all("pin", &pins);
            let expected = match cx.all_n("expected", 4) {
                0 => Value::Null,
                1 => json!(pin),
                2 => json!(0),
                _ => json!(u64::MAX),
            };
            let o: EvaluateAccessTokenRequestOptions =
                match serde_json::from_value(json!({ "expected_user_pin": expected })) {
                    Ok(o) => o,
                    Err(_) => return done(false),
                };
            let rq = super::token::request(&Some((s("code"), Some(pin))));
            let offer: CredentialOffer = match cx.all_n("offer", 3) {
                0 => serde_json::from_value(full_offer()),
                1 => serde_json::from_value(json!({"credential_issuer": "", "credentials": [], "grants": {}})),
                _ => serde_json::from_value(json!({"credential_issuer": "", "credentials": [], "grants": {
                    "urn:ietf:params:oauth:grant-type:pre-authorized_code":
                    {"pre-authorized_code": "code", "user_pin_required": true}}})),
            }
            .map_err(|e| Problem::new("offer", e.to_string()))?;
            let none = cx.flag("no options");
            let r = cx.call("evaluate token request", || {
                AccessToken::evaluate_access_token_request(&rq, Some(offer), (!none).then_some(o))
            })?;
            let ok = r.is_ok();
            token_errors(cx, r)?;
            cx.call("request json", || serde_json::to_string(&rq).is_ok())?;
            done(ok)
        }),
        Part::full("received-metadata", &["refused", "accepted"], move |cx| {
            let v = mutated(cx, &full_metadata(), deep, &odd());
            let text = v.to_string();
            match cx.call("read metadata", || serde_json::from_str::<CredentialIssuerMetadata>(&text))? {
                Ok(md) => with_metadata(cx, &md),
                Err(_) => done(false),
            }
        }),
        Part::full("received-requests", &["refused", "accepted"], move |cx| {
            let v = mutated(cx, &full_request(), deep, &odd());
            let text = v.to_string();
            match cx.call("read request", || serde_json::from_str::<CredentialRequest>(&text))? {
                Ok(r) => with_request(cx, &r),
                Err(_) => done(false),
            }
        }),
        Part::full("received-offers", &["refused", "accepted"], move |cx| {
            let v = mutated(cx, &full_offer(), deep, &odd());
            let text = v.to_string();
            match cx.call("read offer", || serde_json::from_str::<CredentialOffer>(&text))? {
                Ok(o) => {
                    cx.call("offer validate", || o.validate().is_ok())?;
                    let r = cx.call("offer encode", || o.url_encode())?;
                    issuer_errors(cx, r)?;
                    for g in [None, Some((s("code"), None)), Some((s("code"), Some(12_345_678)))] {
                        let rq = super::token::request(&g);
                        let r = cx.call("evaluate token request", || {
                            AccessToken::evaluate_access_token_request(
                                &rq,
                                serde_json::from_str(&text).ok(),
                                Some(super::token::options(Some(12_345_678))),
                            )
                        })?;
                        token_errors(cx, r)?;
                    }
                    done(true)
                }
                Err(_) => done(false),
            }
        }),
        Part::full("received-formats", &["refused", "accepted"], move |cx| {
            let base = [
                json!({"format": "ldp_vc", "@context": ["c", {"a": 1}], "types": ["T"], "credentialSubject": claims()}),
                json!({"format": "mso_mdoc", "doctype": "d", "claims": claims(), "order": ["x"]}),
                json!({"format": "jwt_vc_json", "types": [], "credentialSubject": {}}),
                json!({"format": "jwt_vc_json-ld", "types": ["T"], "order": []}),
            ];
            let base = cx.all("format", &base).clone();
            let text = mutated(cx, &base, tier.pick(2, 2), &odd()).to_string();
            cx.call("read supported", || serde_json::from_str::<CredentialSupported>(&text).is_ok())?;
            match cx.call("read format", || serde_json::from_str::<CredentialFormatProfile>(&text))? {
                Ok(f) => {
                    with_format(cx, &f)?;
                    done(true)
                }
                Err(_) => done(false),
            }
        }),
        Part::full("received-token-messages", &["refused", "accepted"], move |cx| {
            let bases = [
                json!({"access_token": "t", "token_type": "Bearer", "expires_in": 1, "scope": "s", "c_nonce": "n",
                    "c_nonce_expires_in": 2, "authorization_pending": true, "interval": 5}),
                json!({"grant_type": {"grant_type": "authorization_code"}}),
                json!({"grant_type": {"grant_type": super::token::PRE, "pre_authorized_code": "c", "user_pin": 1}}),
            ];
            let n = cx.all_n("message", 3);
            let text = mutated(cx, &bases[n], tier.pick(2, 3), &odd()).to_string();
            let ok = if n == 0 {
                let r = cx.call("read response", || serde_json::from_str::<AccessTokenSuccessResponse>(&text))?;
                match r {
                    Ok(r) => {
                        cx.call("validate", || r.validate().is_ok())?;
                        cx.call("json", || serde_json::to_string(&r).is_ok())?;
                        true
                    }
                    Err(_) => false,
                }
            } else {
                let r = cx.call("read request", || serde_json::from_str::<AccessTokenRequest>(&text))?;
                match r {
                    Ok(r) => {
                        cx.call("validate", || r.validate().is_ok())?;
                        let o: CredentialOffer = serde_json::from_value(full_offer())
                            .map_err(|e| Problem::new("offer", e.to_string()))?;
                        let e = cx.call("evaluate", || {
                            AccessToken::evaluate_access_token_request(&r, Some(o), None)
                        })?;
                        token_errors(cx, e)?;
                        true
                    }
                    Err(_) => false,
                }
            };
            done(ok)
        }),
        Part::full("error-details", &["accepted"], move |cx| {
            let d = odd();
            let details = d[cx.all_n("details", d.len())].clone();
            let inner = d[cx.all_n("member", d.len())].clone();
            let details = match cx.all_n("shape", 5) {
                0 => details,
                1 => json!({ "error": inner }),
                2 => json!({"error_description": inner, "x": details}),
                3 => json!([details, inner]),
                _ => json!({"additional": {"error": details}, "": inner}),
            };
            let text = cx.all("text", &[None, Some(s("")), Some(s("\0\"\u{1f511}"))]).clone();
            let codes = ["invalid_request", "invalid_client", "invalid_grant", "nonsense", ""];
            let c = s(cx.all("code", &codes));
            let r = cx.call("token code", || AccessTokenErrorCode::try_from(c.clone()))?;
            if let Ok(c) = r {
                let (d, t) = (details.clone(), text.clone());
                cx.call("token error response", move || {
                    let r = AccessToken::create_access_token_error_response(c, t.clone(), t, Some(d));
                    r.map(|r| (serde_json::to_string(&r).is_ok(), format!("{r:?}"))).is_ok()
                })?;
            }
            let r = cx.call("credential code", || CredentialIssuerErrorCode::try_from(c.clone()))?;
            if let Ok(c) = r {
                cx.call("credential error response", move || {
                    let r = CredentialIssuer::create_credential_error_response(&c, text.clone(), text, Some(details));
                    r.map(|r| (serde_json::to_string(&r).is_ok(), format!("{r:?}"))).is_ok()
                })?;
            }
            done(true)
        }),
        Part::full("offer-endpoints", &["refused", "accepted"], move |cx| {
            let mut e: Vec<Option<String>> = vec![None];
            e.extend(all_sentences(&["?", "#", "&", "=", "https://", "é", "%", "\0", " "], 3).into_iter().map(Some));
            let endpoint = cx.all("endpoint", &e).clone();
            let text = s(cx.all("text", &["", "a", "\0", "\u{1f511}", "%", "\u{ffff}\u{fffe}"]));
            let md = metadata(&text, vec![supported(Some(&text), jwt_vc(&[&text]))]);
            let auth = cx.flag("authorization code").then(AuthorizedCodeFlow::default);
            let pre = cx
                .flag("pre-authorized")
                .then(|| PreAuthorizedCodeFlow { code: text.clone(), user_pin_required: Some(false) });
            let c = CredentialOrIds::new(vec![text.as_str().into(), ldp(&[&text]).into()]);
            let r = cx.call("create_offer", || CredentialIssuer::create_offer(&md, c, &endpoint, &auth, &pre))?;
            let ok = r.is_ok();
            issuer_errors(cx, r.map(|x| x.1))?;
            done(ok)
        }),
        Part::full("numbers", &["accepted"], move |cx| {
            let n = *cx.all("number", &counts);
            clock::set(T0);
            let nonce = CNonce { c_nonce: n.to_string(), c_nonce_expires_in: Some(n) };
            let rq = CredentialRequest { format: ldp(&["T"]), proof: None };
            let r = cx.call("credential response", || {
                CredentialIssuer::create_credential_success_response(
                    &rq,
                    Some(CredentialOrAcceptanceToken::AcceptanceToken(n.to_string())),
                    Some(nonce),
                )
            })?;
            let ok = r.is_ok();
            issuer_errors(cx, r.map(|_| ()))?;
            done(ok)
        }),
        Part::full("large-proofs", &["refused"], move |cx| {
            let t = &big[cx.all_n("content", big.len())].1;
            let p = match cx.all_n("place", 11) {
                0 => t.clone(),
                1 => format!("{}.{b}.s", b64url(t.as_bytes())),
                2 => format!("{h}.{}.s", b64url(t.as_bytes())),
                3 => format!("{h}.{b}.{t}"),
                4 => jwt_with(|j| j.key = KeyHdr::Kid(t.clone())),
                5 => jwt_with(|j| j.key = KeyHdr::Kid(format!("did:{t}"))),
                6 => jwt_with(|j| j.key = KeyHdr::Jwk(t.clone())),
                7 => jwt_with(|j| j.nonce = t.clone()),
                8 => jwt_with(|j| j.aud = t.clone()),
                9 => jwt_with(|j| j.typ = t.clone()),
                _ => jwt_with(|j| j.iss = Some(t.clone())),
            };
            let doc = Scn::default().doc.map(|d| d.build());
            use_proof(cx, &p, doc.as_ref())
        }),
        Part::full("large-messages", &["accepted"], move |cx| {
            let t = &big2[cx.all_n("content", big2.len())].1;
            let many = 3000;
            match cx.all_n("message", 7) {
                0 => {
                    let md = metadata(t, vec![supported(Some(t), jwt_vc(&[t]))]);
                    with_metadata(cx, &md)
                }
                1 => {
                    let l = (0..many).map(|i| supported(Some(&format!("a{i}")), jwt_vc(&["T"]))).collect();
                    let md = metadata("i", l);
                    let ids: Vec<_> = (0..many).map(|i| format!("a{}", many - 1 - i).as_str().into()).collect();
                    let c = CredentialOrIds::new(ids);
                    let r = cx.call("create_offer", || CredentialIssuer::create_offer(&md, c, &None, &None, &None))?;
                    issuer_errors(cx, r.map(|x| x.1))?;
                    done(true)
                }
                2 => {
                    let rq = CredentialRequest {
                        format: ldp(&[t]),
                        proof: Some(CredentialRequestProof { proof_type: t.clone(), jwt: t.clone() }),
                    };
                    with_request(cx, &rq)?;
                    done(true)
                }
                3 => {
                    let rq = super::token::request(&Some((t.clone(), Some(1))));
                    let mut o = full_offer();
                    o["grants"][super::token::PRE]["pre-authorized_code"] = json!(t);
                    let o: CredentialOffer =
                        serde_json::from_value(o).map_err(|e| Problem::new("offer", e.to_string()))?;
                    let r = cx.call("evaluate", || {
                        AccessToken::evaluate_access_token_request(&rq, Some(o), Some(super::token::options(Some(1))))
                    })?;
                    token_errors(cx, r)?;
                    done(true)
                }
                4 => {
                    for r in [t.clone(), format!("\"{t}\""), format!("{{\"format\":\"{t}\"}}")] {
                        cx.call("read", || {
                            let _ = serde_json::from_str::<CredentialIssuerMetadata>(&r);
                            let _ = serde_json::from_str::<CredentialRequest>(&r);
                            let _ = serde_json::from_str::<CredentialOffer>(&r);
                            let _ = serde_json::from_str::<CredentialFormatProfile>(&r);
                        })?;
                    }
                    done(true)
                }
                5 => {
                    let c = t.clone();
                    cx.call("codes", move || {
                        let _ = AccessTokenErrorCode::try_from(c.clone());
                        let _ = CredentialIssuerErrorCode::try_from(c.clone());
                        let _ = AccessTokenType::try_from(c);
                    })?;
                    done(true)
                }
                _ => {
                    issuer_errors::<()>(cx, Err(CredentialIssuerError::CredentialIdNotInIssuerMetadata { id: t.clone() }))?;
                    done(true)
                }
            }
        }),
    ]
}
