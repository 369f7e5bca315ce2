//! C21: the outcome of a call is a function of its arguments and the clock.
//!
//! The operations below collide: they share codes, nonces, key ids, ids and texts
//! but differ in one argument or in the time. What an operation answers as the very
//! first call of a fresh process is its baseline; every history is run in a fresh
//! process of its own too (`vmc fresh ..`), so that a failure replays exactly, and
//! each of its calls must give its baseline.

use super::token;
use crate::clock::{self, SEC};
use crate::explore::{Ctx, Problem, Res};
use crate::report::Part;
use crate::fine;
use crate::sched::{self, lib};
use crate::scn::{base58, jwt_vc, key, ldp, metadata, supported, KeyHdr, Mat, Scn, DID, KID, T0};
use crate::Tier;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken,
    CredentialOrIds, PreAuthorizedCodeFlow,
};
use openid4vci::jwt::ProofJwt;
use openid4vci::return_object::ToReturnObject;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use openid4vci::Document;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::Arc;

type Op = (&'static str, Box<dyn Fn() -> String + Send + Sync>);

fn s(x: &str) -> String {
    x.to_owned()
}

/// Runs `f` on `a`; tells if `a` came out changed.
fn unchanged<A: Debug>(a: &A, f: impl FnOnce(&A) -> String) -> String {
    let before = format!("{a:?}");
    let r = f(a);
    let after = format!("{a:?}");
    if before == after {
        r
    } else {
        format!("ARGUMENT MODIFIED: {before} became {after}; {r}")
    }
}

fn tok(name: &'static str, code: Option<(&str, Option<u64>)>, offer: Option<(&str, bool)>, pin: Option<u64>) -> Op {
    let grant = code.map(|(c, p)| (s(c), p));
    let offer = offer.map(|(c, required)| (s(c), required));
    (
        name,
        Box::new(move || {
            clock::set(T0);
            let rq = token::request(&grant);
            let offer = offer.as_ref().map(|(c, required)| {
                serde_json::from_value::<CredentialOffer>(json!({
                    "credential_issuer": "https://issuer.test", "credentials": ["UniversityDegree"],
                    "grants": {token::PRE: {"pre-authorized_code": c, "user_pin_required": required}},
                }))
                .expect("offer")
            });
            let o = pin.map(|p| token::options(Some(p)));
            unchanged(&rq, |rq| {
                let r = lib(|| AccessToken::evaluate_access_token_request(rq, offer, o));
                format!("{r:?} ") + &json!(r.map(|r| json!(r)).to_return_object()).to_string()
            })
        }),
    )
}

fn eval(name: &'static str, f: impl Fn(&mut Scn) + Send + Sync + 'static) -> Op {
    (
        name,
        Box::new(move || {
            let mut scn = Scn::default();
            f(&mut scn);
            let args = (
                scn.metadata(),
                scn.request(),
                scn.offer(),
                scn.doc.as_ref().map(crate::scn::Doc::build),
            );
            let o = scn.options();
            clock::set(scn.now);
            unchanged(&args, |(md, rq, of, doc)| {
                let r = lib(|| {
                    CredentialIssuer::evaluate_credential_request(md, rq, of.as_ref(), None, doc.as_ref(), o)
                });
                format!("{r:?} ") + &json!(r.map(|r| json!(r)).to_return_object()).to_string()
            })
        }),
    )
}

fn pre(name: &'static str, f: impl Fn(&mut Scn) + Send + Sync + 'static) -> Op {
    (
        name,
        Box::new(move || {
            let mut scn = Scn::default();
            f(&mut scn);
            clock::set(scn.now);
            unchanged(&scn.request(), |rq| {
                let r = lib(|| CredentialIssuer::pre_evaluate_credential_request(rq));
                format!("{r:?} ") + &json!(r.map(|r| json!(r)).to_return_object()).to_string()
            })
        }),
    )
}

fn offer(
    name: &'static str,
    md: fn() -> CredentialIssuerMetadata,
    ids: &'static [&'static str],
    endpoint: Option<&'static str>,
    code: &'static str,
) -> Op {
    (
        name,
        Box::new(move || {
            clock::set(T0);
            let pre = Some(PreAuthorizedCodeFlow { code: s(code), user_pin_required: Some(true) });
            let auth: Option<AuthorizedCodeFlow> = None;
            let args = (md(), endpoint.map(s), auth, pre);
            unchanged(&args, |(md, e, a, p)| {
                let list = CredentialOrIds::new(ids.iter().map(|x| (*x).into()).collect());
                let r = lib(|| CredentialIssuer::create_offer(md, list, e, a, p));
                format!("{r:?}")
            })
        }),
    )
}

fn md_a() -> CredentialIssuerMetadata {
    metadata("https://issuer.test", vec![supported(Some("a"), ldp(&["A"])), supported(Some("b"), jwt_vc(&["B"]))])
}

/// The same ids, other contents.
fn md_b() -> CredentialIssuerMetadata {
    metadata("https://other.test", vec![supported(Some("b"), ldp(&["A2"])), supported(Some("a"), jwt_vc(&["B2"]))])
}

/// `a` is missing.
fn md_c() -> CredentialIssuerMetadata {
    metadata("https://issuer.test", vec![supported(Some("b"), jwt_vc(&["B"])), supported(None, ldp(&["A"]))])
}

/// `a` twice.
fn md_d() -> CredentialIssuerMetadata {
    metadata("https://issuer.test", vec![supported(Some("a"), ldp(&["A"])), supported(Some("a"), jwt_vc(&["B"]))])
}

fn resolve(name: &'static str, md: fn() -> CredentialIssuerMetadata, id: &'static str) -> Op {
    (
        name,
        Box::new(move || {
            unchanged(&md(), |md| {
                let list = CredentialOrIds::new(vec![id.into()]);
                let (r, v) = lib(|| (list.resolve_all(md), md.validate()));
                format!("{r:?} {v:?}")
            })
        }),
    )
}

fn token_response(name: &'static str, t: &'static str, n: Option<u32>, at: clock::Nanos) -> Op {
    (
        name,
        Box::new(move || {
            clock::set(at);
            let r = lib(|| {
                AccessToken::create_access_token_success_response(
                    s(t),
                    AccessTokenType::Bearer,
                    n,
                    n.map(|_| s("scope")),
                    n.map(|_| s("nonce-1")),
                    n,
                    None,
                    None,
                )
            });
            match r {
                Ok((r, now)) => format!("{r:?} {} {now}", json!(r)),
                Err(e) => format!("{e:?}"),
            }
        }),
    )
}

fn credential_response(name: &'static str, f: impl Fn(&mut Scn) + Send + Sync + 'static, token: Option<&'static str>, nonce: Option<(&'static str, u32)>) -> Op {
    (
        name,
        Box::new(move || {
            let mut scn = Scn::default();
            f(&mut scn);
            clock::set(scn.now);
            unchanged(&scn.request(), |rq| {
                let c = match token {
                    Some(t) => CredentialOrAcceptanceToken::AcceptanceToken(s(t)),
                    None => CredentialOrAcceptanceToken::Credential(rq.format.clone()),
                };
                let n = nonce.map(|(n, e)| CNonce { c_nonce: s(n), c_nonce_expires_in: Some(e) });
                let r = lib(|| CredentialIssuer::create_credential_success_response(rq, Some(c), n));
                match r {
                    Ok((r, now)) => format!("{r:?} {} {now:?}", json!(r)),
                    Err(e) => format!("{e:?}"),
                }
            })
        }),
    )
}

fn proof(name: &'static str, f: impl Fn(&mut Scn) + Send + Sync + 'static) -> Op {
    (
        name,
        Box::new(move || {
            let mut scn = Scn::default();
            f(&mut scn);
            clock::set(scn.now);
            let text = scn.jwt().compact();
            let j = match lib(|| ProofJwt::from_str(&text)) {
                Ok(j) => j,
                Err(e) => return format!("{e:?}"),
            };
            let doc = scn.doc.as_ref().map(crate::scn::Doc::build);
            unchanged(&(j, doc), |(j, doc)| {
                let all = lib(|| {
                    (
                        j.verify(),
                        j.extract_did(),
                        j.extract_key_and_alg(doc.as_ref()),
                        j.to_signable_message(),
                        j.extract_signature(),
                        j.check_nonce(Some(s("nonce-2"))),
                        j.validate(),
                        json!(j),
                    )
                });
                format!("{all:?}")
            })
        }),
    )
}

fn received(name: &'static str, v: Value) -> Op {
    let text = v.to_string();
    (
        name,
        Box::new(move || {
            let (md, rq, of) = lib(|| {
                (
                    serde_json::from_str::<CredentialIssuerMetadata>(&text),
                    serde_json::from_str::<CredentialRequest>(&text),
                    serde_json::from_str::<CredentialOffer>(&text),
                )
            });
            format!(
                "{} {} {}",
                md.map_or_else(|e| e.to_string(), |x| json!(x).to_string()),
                rq.map_or_else(|e| e.to_string(), |x| json!(x).to_string()),
                of.map_or_else(|e| e.to_string(), |x| json!(x).to_string()),
            )
        }),
    )
}

const HOUR: clock::Nanos = 3600 * SEC;

fn ops() -> Vec<Op> {
    vec![
        // the plain operations first: they are the ones most histories start from
        tok("token: granted", Some(("code-1", None)), Some(("code-1", false)), None),
        eval("credential: accepted", |_| ()),
        offer("offer: a and b", md_a, &["a", "b"], None, "code-1"),
        // token endpoint
        tok("token: other code", Some(("code-2", None)), Some(("code-1", false)), None),
        tok("token: the other session's offer", Some(("code-2", None)), Some(("code-2", false)), None),
        tok("token: stolen code", Some(("code-1", None)), Some(("code-2", false)), None),
        tok("token: PIN", Some(("code-1", Some(1234))), Some(("code-1", true)), Some(1234)),
        tok("token: wrong PIN", Some(("code-1", Some(9999))), Some(("code-1", true)), Some(1234)),
        tok("token: PIN of other session", Some(("code-2", Some(1234))), Some(("code-2", true)), Some(9999)),
        tok("token: PIN missing", Some(("code-1", None)), Some(("code-1", true)), Some(1234)),
        tok("token: nothing expected", Some(("code-1", Some(1234))), Some(("code-1", true)), None),
        tok("token: long PIN", Some(("code-1", Some(123_456_789))), Some(("code-1", true)), Some(123_456_789)),
        tok("token: no offer", Some(("code-1", None)), None, None),
        tok("token: authorization code", None, Some(("code-1", false)), None),
        // credential endpoint
        eval("credential: an hour later", |x| x.now += HOUR),
        eval("credential: an hour later with a fresh nonce", |x| {
            x.now += HOUR;
            if let Some(n) = &mut x.nonce {
                n.created += HOUR;
            }
        }),
        eval("credential: at the last instant", |x| x.now = T0 + 290 * SEC),
        eval("credential: just after the last instant", |x| x.now = T0 + 290 * SEC + 1),
        eval("credential: other nonce expected", |x| {
            if let Some(n) = &mut x.nonce {
                n.expected = s("nonce-2");
            }
        }),
        eval("credential: other nonce on both sides", |x| {
            x.jwt().nonce = s("nonce-2");
            if let Some(n) = &mut x.nonce {
                n.expected = s("nonce-2");
            }
        }),
        eval("credential: proof with other nonce", |x| x.jwt().nonce = s("nonce-2")),
        eval("credential: no nonce known", |x| x.nonce = None),
        eval("credential: no options", |x| x.opts = false),
        eval("credential: rotated key", |x| {
            if let Some(d) = &mut x.doc {
                d.vms[0].mat = Mat::Okp("Ed25519", key(2));
            }
        }),
        eval("credential: rotated key, other notation", |x| {
            if let Some(d) = &mut x.doc {
                d.vms[0].mat = Mat::Base58(key(3));
            }
        }),
        eval("credential: key removed", |x| {
            if let Some(d) = &mut x.doc {
                d.vms.clear();
            }
        }),
        eval("credential: no document", |x| x.doc = None),
        eval("credential: other holder, same key name", |x| {
            x.jwt().key = KeyHdr::Kid(s("did:example:other#key-1"));
            if let Some(d) = &mut x.doc {
                d.id = s("did:example:other");
                d.vms[0].id = s("did:example:other#key-1");
                d.vms[0].mat = Mat::Okp("Ed25519", key(4));
            }
        }),
        eval("credential: relative key name", |x| {
            if let Some(d) = &mut x.doc {
                d.vms[0].id = s("#key-1");
                d.vms[0].mat = Mat::Okp("Ed25519", key(5));
            }
        }),
        eval("credential: other issuer", |x| x.issuer = s("https://other.test")),
        eval("credential: proof for other issuer", |x| x.jwt().aud = s("https://other.test")),
        eval("credential: other issuer on both sides", |x| {
            x.issuer = s("https://other.test");
            x.jwt().aud = s("https://other.test");
        }),
        eval("credential: other client", |x| x.client_id = Some(s("client-2"))),
        eval("credential: other client on both sides", |x| {
            x.client_id = Some(s("client-2"));
            x.jwt().iss = Some(s("client-2"));
        }),
        eval("credential: client unknown", |x| x.client_id = None),
        eval("credential: client unknown, other grant", |x| {
            x.client_id = None;
            x.offer = Some((true, false));
        }),
        eval("credential: no offer", |x| x.offer = None),
        eval("credential: other signature", |x| x.jwt().sig = Some(s("b3RoZXI"))),
        eval("credential: unsigned", |x| x.jwt().sig = None),
        eval("credential: other algorithm", |x| x.jwt().alg = s("ES256")),
        eval("credential: bad algorithm", |x| x.jwt().alg = s("none")),
        eval("credential: bad type", |x| x.jwt().typ = s("JWT")),
        eval("credential: bad proof type", |x| x.proof.as_mut().unwrap().0 = s("cwt")),
        eval("credential: unreadable proof", |x| x.jwt().raw = Some(s("a.b.c"))),
        eval("credential: jwk", |x| x.jwt().key = KeyHdr::Jwk(s("{}"))),
        eval("credential: key that is no DID", |x| x.jwt().key = KeyHdr::Kid(s("key-1"))),
        eval("credential: key without key material", |x| x.doc.as_mut().unwrap().vms[0].mat = Mat::Nothing),
        eval("credential: authorization server metadata", |x| x.asm = true),
        eval("credential: other subject claimed", |x| x.jwt().sub = Some(s("did:example:other"))),
        eval("credential: window", |x| {
            x.jwt().nbf = Some(T0 - SEC);
            x.jwt().exp = Some(T0 + SEC);
        }),
        eval("credential: after the window", |x| {
            x.jwt().nbf = Some(T0 - SEC);
            x.jwt().exp = Some(T0 + SEC);
            x.now = T0 + SEC;
        }),
        eval("credential: other format", |x| x.format = jwt_vc(&["B"])),
        eval("credential: duplicate ids", |x| x.md_ids = vec![Some(s("a")), Some(s("a"))]),
        eval("credential: no proof", |x| x.proof = None),
        pre("pre-evaluation", |_| ()),
        pre("pre-evaluation: other holder", |x| x.jwt().key = KeyHdr::Kid(s("did:example:other#key-1"))),
        pre("pre-evaluation: no proof", |x| x.proof = None),
        pre("pre-evaluation: jwk", |x| x.jwt().key = KeyHdr::Jwk(s("{}"))),
        pre("pre-evaluation: bad type", |x| x.jwt().typ = s("JWT")),
        pre("pre-evaluation: bad proof type", |x| x.proof.as_mut().unwrap().0 = s("cwt")),
        pre("pre-evaluation: bad algorithm", |x| x.jwt().alg = s("none")),
        pre("pre-evaluation: no DID", |x| x.jwt().key = KeyHdr::Kid(s("key-1"))),
        pre("pre-evaluation: unreadable", |x| x.jwt().raw = Some(s("a.b.c"))),
        // offers and metadata
        offer("offer: same ids at another issuer", md_b, &["a", "b"], None, "code-1"),
        offer("offer: other order", md_a, &["b", "a"], None, "code-1"),
        offer("offer: unknown id", md_c, &["b", "a"], None, "code-1"),
        offer("offer: duplicate ids", md_d, &["a"], None, "code-1"),
        offer("offer: endpoint", md_a, &["a", "b"], Some("https://wallet.test/?x=1"), "code-1"),
        offer("offer: other code", md_a, &["a", "b"], None, "code-2"),
        offer("offer: nothing", md_a, &[], None, "code-1"),
        resolve("resolve: a", md_a, "a"),
        resolve("resolve: a elsewhere", md_b, "a"),
        resolve("resolve: a missing", md_c, "a"),
        // responses
        token_response("token response", "token-1", Some(300), T0),
        token_response("token response: later", "token-1", Some(300), T0 + HOUR),
        token_response("token response: minimal", "token-2", None, T0),
        credential_response("credential response", |_| (), None, Some(("nonce-1", 300))),
        credential_response("credential response: later", |x| x.now += HOUR, None, Some(("nonce-1", 300))),
        credential_response("credential response: deferred", |_| (), Some("token-1"), None),
        credential_response("credential response: other format", |x| x.format = jwt_vc(&["B"]), None, Some(("nonce-2", 1))),
        credential_response("credential response: bad proof type", |x| x.proof.as_mut().unwrap().0 = s("cwt"), Some("token-1"), None),
        credential_response("credential response: bad proof", |x| x.jwt().alg = s("HS256"), None, None),
        (
            "token error response",
            Box::new(|| {
                let r = lib(|| AccessToken::create_access_token_error_response(
                    AccessTokenErrorCode::InvalidGrant,
                    Some(s("why")),
                    Some(s("https://u")),
                    Some(json!({"k": 1})),
                ));
                r.map_or_else(|e| format!("{e:?}"), |r| json!(r).to_string())
            }),
        ),
        (
            "token error response: plain",
            Box::new(|| {
                let r = lib(|| AccessToken::create_access_token_error_response(
                    AccessTokenErrorCode::InvalidRequest,
                    None,
                    None,
                    None,
                ));
                r.map_or_else(|e| format!("{e:?}"), |r| json!(r).to_string())
            }),
        ),
        (
            "credential error response",
            Box::new(|| {
                let code = CredentialIssuerErrorCode::InvalidOrMissingProof;
                unchanged(&code, |code| {
                    let r = lib(|| CredentialIssuer::create_credential_error_response(
                        code,
                        Some(s("why")),
                        None,
                        Some(json!({"k": 2, "c_nonce": "nonce-2"})),
                    ));
                    r.map_or_else(|e| format!("{e:?}"), |r| json!(r).to_string())
                })
            }),
        ),
        (
            "credential error response: plain",
            Box::new(|| {
                let r = lib(|| CredentialIssuer::create_credential_error_response(
                    &CredentialIssuerErrorCode::InvalidRequest,
                    None,
                    None,
                    None,
                ));
                r.map_or_else(|e| format!("{e:?}"), |r| json!(r).to_string())
            }),
        ),
        (
            "error codes",
            Box::new(|| {
                let names = ["invalid_grant", "invalid_token", "invalid_client", "bogus"];
                let all: Vec<_> = names
                    .iter()
                    .map(|n| lib(|| (AccessTokenErrorCode::try_from(s(n)), CredentialIssuerErrorCode::try_from(s(n)))))
                    .collect();
                format!("{all:?}")
            }),
        ),
        // proofs by themselves
        proof("proof", |_| ()),
        proof("proof: later", |x| {
            x.now += HOUR;
            x.jwt().nbf = Some(T0 + 1);
            x.jwt().exp = Some(T0 + HOUR);
        }),
        proof("proof: in its window", |x| {
            x.jwt().nbf = Some(T0);
            x.jwt().exp = Some(T0 + HOUR);
        }),
        proof("proof: other holder", |x| {
            x.jwt().key = KeyHdr::Kid(format!("{DID}-2#key-1"));
            x.jwt().nonce = s("nonce-2");
            if let Some(d) = &mut x.doc {
                d.id = format!("{DID}-2");
                d.vms[0].id = format!("{DID}-2#key-1");
                d.vms[0].mat = Mat::Multibase2020(key(6));
            }
        }),
        proof("proof: unreadable", |x| x.jwt().raw = Some(s("e30.e30.c2ln"))),
        // reading
        received("read metadata", json!(md_a())),
        received("read other metadata", {
            let mut v = json!(md_b());
            v["credentials_supported"][0]["display"] = json!([{"name": "D"}]);
            v["display"] = json!([{"name": "D"}]);
            v
        }),
        received("read request", json!(Scn::default().request())),
        received("read offer", json!({"credential_issuer": "https://issuer.test", "credentials": ["a"], "grants": {}})),
        (
            "read document",
            Box::new(|| {
                let v = json!({"@context": "https://www.w3.org/ns/did/v1", "id": DID, "verificationMethod": [
                    {"id": KID, "type": "Ed25519VerificationKey2018", "controller": DID,
                     "publicKeyBase58": base58(&key(7))}]});
                serde_json::from_value::<Document>(v).map_or_else(|e| e.to_string(), |d| json!(d).to_string())
            }),
        ),
    ]
}

fn run(op: &Op) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| (op.1)()));
    clock::release();
    r.unwrap_or_else(|_| s("panicked"))
}

fn hash(text: &str) -> u64 {
    text.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3))
}

/// Every sequence of `n` operations occurs in it.
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut [usize], out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, n, k, a, out);
            }
        }
    }
    let mut out = vec![];
    db(1, 1, n, k, &mut vec![0; k * n + 1], &mut out);
    let wrap: Vec<usize> = out.iter().take(n.saturating_sub(1)).copied().collect();
    out.extend(wrap);
    out
}

/// A history as text: `3@0,17@1` (operation and thread), `rep:3x1000` (then every
/// operation), `bruijn:2/40` (order 2 over the first 40).
fn history(spec: &str, n: usize) -> Vec<(usize, usize)> {
    if let Some(r) = spec.strip_prefix("rep:") {
        let (a, times) = r.split_once('x').expect("rep");
        let (a, times): (usize, usize) = (a.parse().expect("op"), times.parse().expect("times"));
        let mut v = vec![(a, 0); times];
        v.extend((0..n).map(|i| (i, 0)));
        v
    } else if let Some(r) = spec.strip_prefix("bruijn:") {
        let (order, k) = r.split_once('/').expect("order/operations");
        de_bruijn(k.parse().expect("operations"), order.parse().expect("order")).into_iter().map(|i| (i, 0)).collect()
    } else {
        spec.split(',')
            .map(|x| {
                let (a, t) = x.split_once('@').expect("op@thread");
                (a.parse().expect("op"), t.parse().expect("thread"))
            })
            .collect()
    }
}

/// The child process: runs the history, prints every outcome (or, for the long
/// histories, its hash).
pub fn fresh(spec: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| ()));
    let ops = Arc::new(ops());
    if let Some(r) = spec.strip_prefix("fine:") {
        return finely(&ops, r);
    }
    if let Some(r) = spec.strip_prefix("ilv:") {
        return interleaved(&ops, r);
    }
    let short = !spec.contains(':');
    let show = move |t: &str| if short { json!(t).to_string() } else { format!("{:016x}", hash(t)) };
    let mut workers = BTreeMap::new();
    let mut out = String::new();
    for (op, thread) in history(spec, ops.len()) {
        let r = if thread == 0 {
            show(&run(&ops[op]))
        } else {
            let (tx, rx) = workers.entry(thread).or_insert_with(|| {
                let (tx, jobs) = std::sync::mpsc::channel::<usize>();
                let (done, rx) = std::sync::mpsc::channel::<String>();
                let ops = Arc::clone(&ops);
                std::thread::spawn(move || {
                    for j in jobs {
                        if done.send(show(&run(&ops[j]))).is_err() {
                            break;
                        }
                    }
                });
                (tx, rx)
            });
            tx.send(op).expect("worker");
            rx.recv().unwrap_or_else(|_| s("\"worker died\""))
        };
        out.push_str(&r);
        out.push('\n');
    }
    print!("{out}");
    0
}

/// `3,17` (3 stops once, at each of its points, and 17 runs there) or `3,17,5` (17
/// stops once too, at each of its points, and ends after 3; for every eighth point of
/// 3 from the fifth). Prints every outcome that occurred, first one
/// of the first call, then a line `-`, then those of the second, then the numbers.
fn interleaved(ops: &Arc<Vec<Op>>, spec: &str) -> i32 {
    let v: Vec<usize> = spec.split(',').map(|x| x.parse().expect("number")).collect();
    let (a, b, twice) = (v[0], v[1], v.get(2));
    let mine = Arc::clone(ops);
    std::thread::spawn(move || sched::second(&|o| run(&mine[o])));
    let (mut of_a, mut of_b) = (BTreeMap::new(), BTreeMap::new());
    let (mut schedules, mut blocked) = (0u64, 0u64);
    let mut one = |k, m| {
        let o = sched::schedule(&|o| run(&ops[o]), a, b, k, m);
        schedules += 1;
        blocked += u64::from(o.blocked);
        of_a.entry(o.a).or_insert((k, m));
        if let Some(t) = o.b {
            of_b.entry(t).or_insert((k, m));
        }
        (o.points_a, o.points_b)
    };
    // how many points there are is asked again each time: it must not change, but may
    let mut k = twice.map_or(1, |first| *first as u64);
    loop {
        let (na, nb) = one(k, 0);
        if twice.is_some() {
            for m in 1..=nb {
                one(k, m);
            }
        }
        k += twice.map_or(1, |_| 8);
        if k > na {
            break;
        }
    }
    for (t, (k, m)) in of_a {
        println!("{} {k} {m}", json!(t));
    }
    println!("-");
    for (t, (k, m)) in of_b {
        println!("{} {k} {m}", json!(t));
    }
    println!("-\n{schedules} {blocked}");
    0
}

/// `3;17,18`: 3 is preempted before each of its accesses to shared memory, by 17 and by
/// 18; once as the first call of the process and once as the third. Every line is one
/// schedule: which of the calls that preempt, start, point, and the two outcomes.
fn finely(ops: &Arc<Vec<Op>>, spec: &str) -> i32 {
    let (a, others) = spec.split_once(';').expect("operations");
    let a: usize = a.parse().expect("number");
    let others: Vec<usize> = others.split(',').map(|x| x.parse().expect("number")).collect();
    if !fine::install() {
        println!("{}", json!(["cannot be traced here"]));
        return 0;
    }
    // what is initialised by the first call is used by the second
    let seen = fine::forked(|| {
        for _ in 0..2 {
            fine::trace(|| run(&ops[a]));
        }
        fine::known()
    });
    let (mut schedules, mut blocked) = (0u64, 0u64);
    if !fine::learn(&seen) {
        println!("{}", json!(["cannot be traced here"]));
        return 0;
    }
    for start in ["cold", "warm"] {
        if start == "warm" {
            run(&ops[a]);
            run(&ops[a]);
        }
        for b in &others {
            let mut k = 1;
            loop {
                // each schedule begins in the same state of the process
                let r = fine::forked(|| one_fine(ops, a, *b, k));
                let r: Value = serde_json::from_str(&r).unwrap_or(Value::Null);
                if r.is_null() {
                    // not an outcome of the calls
                    println!("{}", json!(["cannot be traced here"]));
                    return 0;
                }
                println!("{}", json!([b, start, k, r[0], r[1]]));
                if r[1].is_null() {
                    break;
                }
                schedules += 1;
                blocked += r[2].as_u64().unwrap_or(0);
                k += 1;
            }
        }
    }
    println!("{}", json!([schedules, blocked, seen]));
    0
}

fn one_fine(ops: &Arc<Vec<Op>>, a: usize, b: usize, k: u64) -> String {
    let second = std::cell::RefCell::new(None);
    let held = std::cell::Cell::new(false);
    let other = || {
        let mine = Arc::clone(ops);
        let (tx, rx) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || {
            let r = run(&mine[b]);
            let _ = tx.send(());
            r
        });
        // a call that waits for the first one lets it go on
        held.set(rx.recv_timeout(std::time::Duration::from_millis(60)).is_err());
        second.replace(Some(h));
    };
    let out = fine::at(k, &other, || run(&ops[a]));
    let b = second.take().map(|h| h.join().unwrap_or_else(|_| s("panicked")));
    json!([out, b, u8::from(held.get())]).to_string()
}

/// The first call preempted before each of its accesses to shared memory.
fn check_finely(cx: &mut Ctx, base: &Base, a: usize, others: &[usize]) -> Res {
    let list: Vec<String> = others.iter().map(usize::to_string).collect();
    let spec = format!("fine:{a};{}", list.join(","));
    cx.note(|| format!("forks of one fresh process [vmc fresh {spec}]: {} preempted at its accesses to shared memory", base.names[a]));
    let got = child(&spec, &PLAIN).map_err(|e| Problem::new("process", e))?;
    let want = |op: usize| serde_json::from_str::<Value>(&base.texts[op]).unwrap_or(Value::Null);
    for line in &got {
        let v: Value = serde_json::from_str(line).map_err(|_| Problem::new("finely/end", format!("no outcome: {line:?}")))?;
        if v.as_array().is_some_and(|v| v.len() == 1) {
            return Ok(s("cannot be traced here"));
        }
        if v.as_array().is_some_and(|v| v.len() == 3) {
            let seen = v[2].as_str().unwrap_or_default();
            let steps = seen.split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0u64);
            if steps == 0 {
                return Ok(s("nothing of the library's own to trace"));
            }
            cx.calls += 2 * v[0].as_u64().unwrap_or(0) + 4;
            return Ok(s(if seen.contains(' ') { "same as in a fresh process" } else { "no access to shared memory" }));
        }
        let b = v[0].as_u64().unwrap_or(0) as usize;
        for (who, op, text) in [("first", a, &v[3]), ("second", b, &v[4])] {
            if *text != want(op) && !(text.is_null() && who == "second") {
                return Err(Problem::new(
                    format!("finely/{}", base.names[op]),
                    format!(
                        "{} preempted by {} on another thread before its access number {} to shared memory, in a {} process: the {who} call's outcome is {}",
                        base.names[a],
                        base.names[b],
                        v[2],
                        v[1],
                        difference(&base.texts[op], &text.to_string())
                    ),
                ));
            }
        }
    }
    Err(Problem::new("finely/end", format!("no end: {:?}", got.last())))
}

#[derive(Debug, Clone)]
struct Env(&'static str, &'static [(&'static str, &'static str)], &'static str);

const PLAIN: Env = Env("plain", &[], "/");

fn child(spec: &str, env: &Env) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe);
    c.arg("fresh").arg(spec).env_clear().current_dir(env.2).stdin(Stdio::null()).stderr(Stdio::null());
    for (k, v) in env.1 {
        c.env(k, v);
    }
    let o = c.output().map_err(|e| e.to_string())?;
    let mut lines: Vec<String> =
        String::from_utf8_lossy(&o.stdout).lines().map(str::to_owned).collect();
    if !o.status.success() {
        lines.push(format!("the process ended with {}", o.status));
    }
    Ok(lines)
}

struct Base {
    names: Vec<&'static str>,
    texts: Vec<String>,
    hashes: Vec<String>,
}

fn short(t: &str) -> String {
    if t.chars().count() > 900 {
        format!("{}...", t.chars().take(900).collect::<String>())
    } else {
        s(t)
    }
}

/// Where two long outcomes differ, with some context.
fn difference(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |t: &str| {
        let from = (0..=n.saturating_sub(60).min(t.len())).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
        short(&t[from..])
    };
    format!("...{}  instead of  ...{}", cut(b), cut(a))
}

fn check(cx: &mut Ctx, base: &Base, spec: &str, env: &Env) -> Res {
    let h = history(spec, base.names.len());
    cx.note(|| {
        let v: Vec<_> = h.iter().take(40).map(|(o, t)| format!("{} (thread {t})", base.names[*o])).collect();
        format!("one fresh process [vmc fresh {spec}]: {}{}", v.join(", "), if h.len() > 40 { ", .." } else { "" })
    });
    let long = spec.contains(':');
    let got = child(spec, env).map_err(|e| Problem::new("process", e))?;
    cx.calls += h.len() as u64;
    for (i, (op, thread)) in h.iter().enumerate() {
        let want = if long { &base.hashes[*op] } else { &base.texts[*op] };
        let seen = got.get(i).map_or("no answer", String::as_str);
        if seen != want {
            let before: Vec<_> =
                h[..i].iter().rev().take(3).map(|(o, _)| base.names[*o]).collect();
            return Err(Problem::new(
                format!("history/{}", base.names[*op]),
                format!(
                    "call {i} ({}, thread {thread}), after {} calls, the last ones {before:?}: {}",
                    base.names[*op],
                    i,
                    if long { s("the outcome is not that of a first call") } else { difference(want, seen) }
                ),
            ));
        }
    }
    if got.len() != h.len() {
        return Err(Problem::new("history/end", format!("{} outcomes for {} calls: {:?}", got.len(), h.len(), got.last())));
    }
    Ok(s("same as in a fresh process"))
}

/// Two calls on two threads, the first preempted once at each of its points.
fn check_interleaved(cx: &mut Ctx, base: &Base, a: usize, b: usize, twice: Option<usize>) -> Res {
    let spec = format!("ilv:{a},{b}{}", twice.map_or(String::new(), |r| format!(",{r}")));
    cx.note(|| format!("one fresh process [vmc fresh {spec}]: {} preempted by {}", base.names[a], base.names[b]));
    let got = child(&spec, &PLAIN).map_err(|e| Problem::new("process", e))?;
    let mut parts = got.split(|l| l == "-");
    for (who, op) in [("first", a), ("second", b)] {
        for line in parts.next().unwrap_or(&[]) {
            let (text, at) = line.rsplit_once("\" ").map_or((line.as_str(), ""), |(t, at)| (t, at));
            let text = format!("{text}\"");
            if text != base.texts[op] {
                return Err(Problem::new(
                    format!("interleaved/{}", base.names[op]),
                    format!(
                        "{} preempted by {} on another thread (points: {at}): the {who} call's outcome is {}",
                        base.names[a],
                        base.names[b],
                        difference(&base.texts[op], &text)
                    ),
                ));
            }
        }
    }
    let numbers: Vec<u64> =
        parts.next().and_then(|l| l.first()).map_or(vec![], |l| l.split(' ').filter_map(|x| x.parse().ok()).collect());
    let [schedules, _blocked] = numbers[..] else {
        return Err(Problem::new("interleaved/end", format!("no end: {:?}", got.last())));
    };
    cx.calls += 2 * schedules;
    Ok(s("same as in a fresh process"))
}

/// The calls that preempt in the quick tier.
const PREEMPTING: &[&str] = &[
    "token: granted",
    "token: stolen code",
    "token: PIN of other session",
    "credential: accepted",
    "credential: an hour later",
    "credential: other nonce on both sides",
    "credential: rotated key",
    "credential: other holder, same key name",
    "credential: other issuer on both sides",
    "credential: other client on both sides",
    "pre-evaluation: other holder",
    "offer: a and b",
    "offer: same ids at another issuer",
    "offer: duplicate ids",
    "resolve: a elsewhere",
    "token response: later",
    "credential response: other format",
    "proof: other holder",
    "read other metadata",
];

pub fn c21(tier: Tier) -> Vec<Part> {
    let names: Vec<&'static str> = ops().iter().map(|o| o.0).collect();
    let n = names.len();
    let mut texts = vec![];
    for i in 0..n {
        let t = child(&format!("{i}@0"), &PLAIN).unwrap_or_default();
        texts.push(t.into_iter().next().unwrap_or_else(|| s("no baseline")));
    }
    let hashes = texts
        .iter()
        .map(|t| serde_json::from_str::<String>(t).map_or_else(|_| s("no baseline"), |t| format!("{:016x}", hash(&t))))
        .collect();
    let base = Arc::new(Base { names, texts, hashes });
    const SAME: &[&str] = &["same as in a fresh process"];
    let (b1, b2, b3, b4, b5, b6) =
        (base.clone(), base.clone(), base.clone(), base.clone(), base.clone(), base.clone());
    let (b7, b8, b9) = (base.clone(), base.clone(), base.clone());
    let some: Vec<usize> = (0..n).filter(|i| PREEMPTING.contains(&base.names[*i])).collect();
    let (preempting, some2) = (tier.pick(some.clone(), (0..n).collect()), some);
    let preempting2 = preempting.clone();
    let twice = tier.pick(4, usize::MAX);
    // the middle of a triple in the quick tier
    let few = n.min(tier.pick(3, 40));
    vec![
        Part::full("environments", SAME, move |cx| {
            let envs = [
                Env("other time zone", &[("TZ", "Asia/Tokyo")], "/"),
                Env("other side", &[("TZ", "America/Anchorage"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")], "/"),
                Env("named as the repository's tests would", &[("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("CI", "1")], "/"),
                Env("other directory", &[("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent")], "/tmp"),
                PLAIN,
            ];
            let e = cx.all("environment", &envs).clone();
            let o = cx.all_n("operation", n);
            check(cx, &b1, &format!("{o}@0"), &e)
        }),
        Part::full("pairs", SAME, move |cx| {
            let a = cx.all_n("first", n);
            let b = cx.all_n("second", n);
            let t = cx.all_n("second's thread", 2);
            check(cx, &b2, &format!("{a}@0,{b}@{t}"), &PLAIN)
        }),
        Part::full("triples", SAME, move |cx| {
            let a = cx.all_n("first", n);
            let b = cx.all_n("second", few);
            let c = cx.all_n("third", n);
            check(cx, &b3, &format!("{a}@0,{b}@0,{c}@0"), &PLAIN)
        }),
        Part::full("repetition", SAME, move |cx| {
            let a = cx.all_n("operation", n);
            let times = *cx.all("times", tier.pick(&[2usize, 16, 300, 1100, 4200] as &[usize], &[2, 16, 100, 300, 1100, 4200, 66_000]));
            check(cx, &b4, &format!("rep:{a}x{times}"), &PLAIN)
        }),
        Part::full("every-short-sequence-in-one-history", SAME, move |cx| {
            // all operations in pairs; the first ones in triples and more
            let histories = [(2, n), (3, tier.pick(16, 40)), (4, tier.pick(5, 13)), (6, 4), (12, 2)];
            let (order, k) = *cx.all("sequences of at most / of the first", &histories);
            check(cx, &b5, &format!("bruijn:{order}/{k}"), &PLAIN)
        }),
        Part::full("threads", SAME, move |cx| {
            // A on one thread, B on another, then both again on the first and on a third
            let a = cx.all_n("first", n);
            let b = cx.all_n("second", tier.pick(few, n));
            check(cx, &b6, &format!("{a}@0,{b}@1,{a}@1,{b}@0,{a}@2,{b}@2"), &PLAIN)
        }),
        Part::full("interleaved", SAME, move |cx| {
            let a = cx.all_n("preempted", n);
            let b = *cx.all("preempting", &preempting);
            check_interleaved(cx, &b7, a, b, None)
        }),
        Part::full("shared-memory", &[], move |cx| {
            let a = cx.all_n("preempted", n);
            check_finely(cx, &b9, a, &preempting2)
        }),
        Part::full("interleaved-twice", SAME, move |cx| {
            let few = &some2[..some2.len().min(twice)];
            let a = *cx.all("first", few);
            let b = *cx.all("second", few);
            let r = cx.all_n("points of the first, from", 8);
            check_interleaved(cx, &b8, a, b, Some(r + 1))
        }),
    ]
}
