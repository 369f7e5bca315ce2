//! C22: the whole flow, breadth first.
//!
//! A small issuer application drives the library as its README describes: offer,
//! token request, token response, pre-evaluation, DID resolution, evaluation,
//! signature check, credential response with the next nonce. Everything that crosses
//! the network is JSON text. Wallets, an attacker who sees every message, and the
//! clock are the environment. Every action is tried in every reachable state of a
//! reference automaton; the library's answers must be the automaton's.

use super::token;
use crate::clock::{self, Nanos, SEC};
use crate::explore::{Ctx, Found, Limits, Problem, Res, Stats};
use crate::report::Part;
use crate::scn::{did_of, jwt_vc, key, ldp, metadata, supported, Doc, Jwt, KeyHdr, Mat, Vm, T0};
use crate::util::{b64url, percent_decode};
use crate::Tier;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, AccessTokenSuccessResponse};
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    CNonce, CNonceOptions, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken,
    CredentialSuccessResponse, EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

const ISSUER: &str = "https://issuer.test";
const LIFETIME: u32 = 2;

/// What is fixed for the whole history.
#[derive(Clone, Debug)]
pub struct Cfg {
    sessions: usize,
    max_nonces: u8,
    max_seconds: u8,
    max_instants: u8,
    /// what each session's offer link contained
    offers: Arc<[OnceLock<String>; 3]>,
}

/// (PIN, client id) the issuer knows for each session; its offer's credential id.
const KNOWN: [(Option<u64>, Option<&str>, &str); 3] = [
    (Some(1234), Some("wallet-0"), "UniversityDegree"),
    (None, None, "DriverLicense"),
    (Some(99_999_999), None, "UniversityDegree"),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Stage {
    Nothing,
    Offered,
    /// number of the latest nonce, and when it was created
    Redeemed(u8, i64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct State {
    seconds: u8,
    instants: u8,
    sess: Vec<Stage>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Nonce {
    Latest(usize),
    Previous(usize),
    Made(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Twist {
    Plain,
    /// issued now, without time limits
    Fresh,
    Typ,
    AlgNone,
    Unsigned,
    /// signed over the other audience / nonce than the proof carries
    Tampered,
    Expired,
    NotYet,
    NoProof,
}

#[derive(Clone, Copy, Debug)]
struct Proof {
    signer: u8,
    kid: &'static str,
    nonce: Nonce,
    aud: &'static str,
    iss: Option<&'static str>,
    twist: Twist,
}

#[derive(Clone, Debug)]
enum Action {
    Offer(usize),
    /// to session's endpoint: code of which session (or made up), PIN
    Token(usize, Option<usize>, Option<u64>),
    AuthorizationCode(usize),
    Credential(usize, Proof),
    Second,
    Instant,
}

const KIDS: [&str; 6] = [
    "did:example:alice#key-1",
    "did:example:alice#key-2",
    "did:example:mallory#key-1",
    "did:example:alice#key-9",
    "did:example:nobody#key-1",
    "did:example:alice",
];

fn document(did: &str) -> Option<Doc> {
    let vm = |id: &str, n: u8| Vm { list: 0, id: id.to_owned(), mat: Mat::Okp("Ed25519", key(n)) };
    let vms = match did {
        "did:example:alice" => vec![
            vm("did:example:alice#key-2", 2),
            // a relative id
            vm("#key-1", 1),
        ],
        "did:example:mallory" => vec![vm("did:example:mallory#key-1", 3), vm("did:example:alice#key-9", 3)],
        _ => return None,
    };
    Some(Doc { id: did.to_owned(), vms, refs: vec![] })
}

/// Whose key a kid names; the ground truth.
fn owner(kid: &str) -> Option<u8> {
    match kid {
        "did:example:alice#key-1" => Some(1),
        "did:example:alice#key-2" => Some(2),
        "did:example:mallory#key-1" => Some(3),
        _ => None,
    }
}

fn nonce_text(s: usize, n: u8) -> String {
    format!("nonce-{s}-{n}")
}

fn code(s: usize) -> String {
    format!("code-{s}")
}

fn actions(cfg: &Cfg) -> Vec<Action> {
    let mut v = vec![Action::Second, Action::Instant];
    let n = cfg.sessions;
    for s in 0..n {
        v.push(Action::Offer(s));
        for c in (0..n).map(Some).chain([None]) {
            for p in [None, Some(1234), Some(99_999_999), Some(0), Some(100_000_000)] {
                v.push(Action::Token(s, c, p));
            }
        }
        v.push(Action::AuthorizationCode(s));
        let mut nonces: Vec<Nonce> = vec![Nonce::Made(""), Nonce::Made("NONCE-0-1")];
        for o in 0..n {
            nonces.extend([Nonce::Latest(o), Nonce::Previous(o)]);
        }
        let honest = Proof {
            signer: 1,
            kid: KIDS[0],
            nonce: Nonce::Latest(s),
            aud: ISSUER,
            iss: Some("wallet-0"),
            twist: Twist::Plain,
        };
        for signer in [1, 3] {
            for kid in KIDS {
                for nonce in &nonces {
                    for aud in [ISSUER, "https://other.test"] {
                        for iss in [Some("wallet-0"), Some("wallet-1"), None] {
                            v.push(Action::Credential(
                                s,
                                Proof { signer, kid, nonce: *nonce, aud, iss, twist: Twist::Plain },
                            ));
                        }
                    }
                }
            }
        }
        v.push(Action::Credential(s, Proof { signer: 2, kid: KIDS[1], ..honest }));
        for twist in [
            Twist::Fresh,
            Twist::Typ,
            Twist::AlgNone,
            Twist::Unsigned,
            Twist::Tampered,
            Twist::Expired,
            Twist::NotYet,
            Twist::NoProof,
        ] {
            v.push(Action::Credential(s, Proof { twist, ..honest }));
            v.push(Action::Credential(s, Proof { twist, signer: 3, kid: KIDS[2], ..honest }));
        }
    }
    v
}

fn issuer_metadata() -> CredentialIssuerMetadata {
    metadata(
        ISSUER,
        vec![
            supported(Some("UniversityDegree"), ldp(&["VerifiableCredential", "UniversityDegree"])),
            supported(Some("DriverLicense"), jwt_vc(&["VerifiableCredential", "DriverLicense"])),
        ],
    )
}

/// An ideal signature: a function of the key and of every value signed.
fn sign(key: &[u8], header: &Map<String, Value>, body: &Map<String, Value>) -> String {
    let canon = |m: &Map<String, Value>| {
        let mut v: Vec<(String, String)> = m
            .iter()
            .filter(|x| !x.1.is_null())
            .map(|(k, x)| {
                let time = ["iat", "nbf", "exp"].contains(&k.as_str());
                let t = x.as_str().filter(|_| time).and_then(|t| t.parse::<chrono::DateTime<chrono::Utc>>().ok());
                (k.clone(), t.map_or_else(|| x.to_string(), |t| clock::nanos(t).to_string()))
            })
            .collect();
        v.sort();
        format!("{v:?}")
    };
    let text = format!("{key:?}|{}|{}", canon(header), canon(body));
    let mut out = vec![];
    for salt in 0..4u64 {
        let h = text.bytes().fold(0xcbf2_9ce4_8422_2325 ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15), |h, b| {
            (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3)
        });
        out.extend(h.to_be_bytes());
    }
    b64url(&out)
}

/// What the issuer application does with the returned bundle.
fn verify(public_key: &[u8], message: &[u8], signature: &[u8]) -> bool {
    let Ok(text) = std::str::from_utf8(message) else { return false };
    let mut it = serde_json::Deserializer::from_str(text).into_iter::<Value>();
    let Some(Ok(Value::Object(h))) = it.next() else { return false };
    let off = it.byte_offset();
    let Some(rest) = text[off..].strip_prefix('.') else { return false };
    let Ok(Value::Object(b)) = serde_json::from_str::<Value>(rest) else { return false };
    sign(public_key, &h, &b).as_bytes() == signature
}

impl State {
    fn start(cfg: &Cfg) -> State {
        State { seconds: 0, instants: 0, sess: vec![Stage::Nothing; cfg.sessions] }
    }

    /// In nanoseconds since T0.
    fn at(&self) -> i64 {
        i64::from(self.seconds) * 1_000_000_000 + i64::from(self.instants)
    }

    fn now(&self) -> Nanos {
        T0 + Nanos::from(self.at())
    }

    fn nonce(&self, n: Nonce) -> String {
        match n {
            Nonce::Made(t) => t.to_owned(),
            Nonce::Latest(s) => match self.sess[s] {
                Stage::Redeemed(k, _) => nonce_text(s, k),
                _ => nonce_text(s, 1),
            },
            Nonce::Previous(s) => match self.sess[s] {
                Stage::Redeemed(k, _) => nonce_text(s, k - 1),
                _ => nonce_text(s, 0),
            },
        }
    }
}

fn bad<T>(site: &str, detail: String) -> Result<T, Problem> {
    Err(Problem::new(site, detail))
}

/// The issuer's stored copy of the offer it made.
fn stored_offer(cx: &mut Ctx, cfg: &Cfg, s: usize) -> Result<CredentialOffer, Problem> {
    let text = match cfg.offers[s].get() {
        Some(t) => t.clone(),
        None => {
            let t = json!(make_offer(cx, s)?).to_string();
            cfg.offers[s].get_or_init(|| t).clone()
        }
    };
    serde_json::from_str(&text).map_err(|e| Problem::new("offer/unreadable", format!("{text}: {e}")))
}

/// The issuer makes the offer; a wallet reads it from the link.
fn make_offer(cx: &mut Ctx, s: usize) -> Result<CredentialOffer, Problem> {
    let md = issuer_metadata();
    let pre = Some(PreAuthorizedCodeFlow {
        code: code(s),
        user_pin_required: KNOWN[s].0.map(|_| true),
    });
    let r = cx.call("create_offer", || {
        CredentialIssuer::create_offer(&md, vec![KNOWN[s].2], &None, &None, &pre)
    })?;
    let link = match r {
        Ok((_, link)) => link,
        Err(e) => return bad("offer/refused", format!("the issuer cannot make its offer: {e:?}")),
    };
    cx.note(|| format!("link: {link}"));
    let text = link
        .strip_prefix("openid-credential-offer://?credential_offer=")
        .or_else(|| link.strip_prefix("openid-credential-offer://credential_offer="))
        .and_then(percent_decode);
    let read = text.and_then(|t| serde_json::from_str::<CredentialOffer>(&t).ok());
    match read {
        Some(o) => Ok(o),
        None => bad("offer/unreadable", format!("the wallet cannot read {link}")),
    }
}

/// One action: the library's answer must be the automaton's.
fn step(cx: &mut Ctx, cfg: &Cfg, st: &State, a: &Action) -> Result<(State, &'static str), Problem> {
    let mut next = st.clone();
    clock::set(st.now());
    let out = match a {
        Action::Second => {
            next.seconds += 1;
            if next.seconds > cfg.max_seconds {
                return Ok((st.clone(), "bound"));
            }
            "clock"
        }
        Action::Instant => {
            next.instants += 1;
            if next.instants > cfg.max_instants {
                return Ok((st.clone(), "bound"));
            }
            "clock"
        }
        Action::Offer(s) => {
            if st.sess[*s] != Stage::Nothing {
                return Ok((st.clone(), "bound"));
            }
            let o = make_offer(cx, *s)?;
            if o.credential_issuer != ISSUER
                || o.grants.authorized_code_flow.is_some()
                || o.grants.pre_authorized_code_flow.as_ref().map(|p| &p.code) != Some(&code(*s))
            {
                return bad("offer/content", format!("the wallet reads {o:?}"));
            }
            next.sess[*s] = Stage::Offered;
            "offered"
        }
        Action::Token(s, c, pin) => {
            let asked = Some((c.map_or_else(|| "made-up".to_owned(), code), *pin));
            token_step(cx, cfg, st, *s, &asked, &mut next)?
        }
        Action::AuthorizationCode(s) => token_step(cx, cfg, st, *s, &None, &mut next)?,
        Action::Credential(s, p) => credential_step(cx, cfg, st, *s, p, &mut next)?,
    };
    clock::release();
    Ok((next, out))
}

fn token_step(
    cx: &mut Ctx,
    cfg: &Cfg,
    st: &State,
    s: usize,
    asked: &Option<(String, Option<u64>)>,
    next: &mut State,
) -> Result<&'static str, Problem> {
    let (pin, ..) = KNOWN[s];
    // the wallet's request crosses the network
    let text = json!(token::request(asked)).to_string();
    let rq: AccessTokenRequest = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => return bad("token/unreadable", format!("{text}: {e}")),
    };
    // a code is for one use: the issuer keeps an offer until it is redeemed
    let offer = match st.sess[s] {
        Stage::Offered => Some(stored_offer(cx, cfg, s)?),
        _ => None,
    };
    let o = pin.map(|p| token::options(Some(p)));
    let r = cx.call("evaluate_access_token_request", || {
        AccessToken::evaluate_access_token_request(&rq, offer, o)
    })?;
    cx.note(|| format!("{text}: {r:?}"));
    let want = st.sess[s] == Stage::Offered && *asked == Some((code(s), pin));
    match (r, want) {
        (Ok(()), false) => bad("token/granted", format!("granted {text} to session {s} in {st:?}")),
        (Err(e), true) => bad("token/refused", format!("refused {text} of session {s} in {st:?}: {e:?}")),
        (Err(_), false) => {
            let r = cx.call("token error response", || {
                AccessToken::create_access_token_error_response(
                    AccessTokenErrorCode::InvalidGrant,
                    None,
                    None,
                    None,
                )
            })?;
            let error = r.map(|r| json!(r)["error"].clone());
            if error != Ok(json!("invalid_grant")) {
                return bad("token/error", format!("the wallet reads {error:?}"));
            }
            Ok("token refused")
        }
        (Ok(()), true) => {
            let nonce = nonce_text(s, 1);
            let r = cx.call("token response", || {
                AccessToken::create_access_token_success_response(
                    format!("token-{s}"),
                    AccessTokenType::Bearer,
                    None,
                    None,
                    Some(nonce.clone()),
                    Some(LIFETIME),
                    None,
                    None,
                )
            })?;
            let (r, created) = match r {
                Ok(r) => r,
                Err(e) => return bad("token/response", format!("no token response: {e:?}")),
            };
            let text = json!(r).to_string();
            let wallet: Value = serde_json::from_str(&text).unwrap_or_default();
            if wallet["c_nonce"] != json!(nonce)
                || wallet["access_token"] != json!(format!("token-{s}"))
                || serde_json::from_str::<AccessTokenSuccessResponse>(&text).is_err()
            {
                return bad("token/response", format!("the wallet reads {text}"));
            }
            if cfg.max_nonces == 0 {
                return Ok("bound");
            }
            next.sess[s] = Stage::Redeemed(1, (clock::nanos(created) - T0) as i64);
            Ok("token granted")
        }
    }
}

fn credential_step(
    cx: &mut Ctx,
    cfg: &Cfg,
    st: &State,
    s: usize,
    p: &Proof,
    next: &mut State,
) -> Result<&'static str, Problem> {
    let (_, client, id) = KNOWN[s];
    // the wallet: its format comes from the issuer's published metadata
    let published = json!(issuer_metadata()).to_string();
    let md: CredentialIssuerMetadata = match serde_json::from_str(&published) {
        Ok(m) => m,
        Err(e) => return bad("metadata/unreadable", format!("{published}: {e}")),
    };
    let offer = match st.sess[s] {
        Stage::Nothing => None,
        _ => Some(stored_offer(cx, cfg, s)?),
    };
    let format = match &offer {
        Some(o) => {
            let r = cx.call("resolve_all", || o.credentials.resolve_all(&md))?;
            match r.map(|mut r| r.pop()) {
                Ok(Some(f)) => f,
                r => return bad("offer/resolve", format!("the wallet cannot resolve {:?}: {r:?}", o.credentials)),
            }
        }
        None => ldp(&["VerifiableCredential", "UniversityDegree"]),
    };
    if offer.is_some() {
        let want = issuer_metadata().credentials_supported.into_iter().find(|c| c.id.as_deref() == Some(id));
        if want.map(|w| w.format) != Some(format.clone()) {
            return bad("offer/resolve", format!("the wallet takes {id} for {format:?}"));
        }
    }
    let mut jwt = Jwt {
        typ: "openid4vci-proof+jwt".into(),
        alg: "EdDSA".into(),
        key: KeyHdr::Kid(p.kid.into()),
        iss: p.iss.map(str::to_owned),
        aud: p.aud.into(),
        sub: None,
        // most proofs are the same text whenever they are sent: what was accepted once
        // is presented again as it was
        iat: if p.twist == Twist::Fresh { st.now() } else { T0 },
        nonce: st.nonce(p.nonce),
        nbf: (p.twist != Twist::Fresh).then_some(T0 - 3600 * SEC),
        exp: (p.twist != Twist::Fresh).then_some(T0 + 3600 * SEC),
        sig: None,
        raw: None,
        form: crate::scn::Form::default(),
    };
    match p.twist {
        Twist::Typ => jwt.typ = "JWT".into(),
        Twist::AlgNone => jwt.alg = "none".into(),
        Twist::Expired => jwt.exp = Some(st.now()),
        Twist::NotYet => jwt.nbf = Some(st.now() + 1),
        _ => {}
    }
    if p.twist != Twist::Unsigned {
        let mut signed = jwt.clone();
        if p.twist == Twist::Tampered {
            // an honest proof for the previous nonce, its nonce replaced
            signed.nonce = st.nonce(Nonce::Previous(s));
        }
        jwt.sig = Some(sign(&key(p.signer), &signed.header(), &signed.body()));
    }
    let mut rq = json!(format);
    if p.twist != Twist::NoProof {
        rq["proof"] = json!({"proof_type": "jwt", "jwt": jwt.compact()});
    }
    let text = rq.to_string();
    // the issuer
    let rq: CredentialRequest = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => return bad("request/unreadable", format!("{text}: {e}")),
    };
    let (latest, created) = match st.sess[s] {
        Stage::Redeemed(n, t) => (Some(n), t),
        _ => (None, 0),
    };
    let end = created + i64::from(LIFETIME) * 1_000_000_000;
    let readable = !matches!(p.twist, Twist::Typ | Twist::AlgNone);
    let has_vm = owner(p.kid).is_some();
    let ok = latest.is_some()
        && readable
        && !matches!(p.twist, Twist::NoProof | Twist::Expired | Twist::NotYet)
        && latest.map(|n| nonce_text(s, n)) == Some(jwt.nonce.clone())
        && st.at() <= end
        && p.aud == ISSUER
        && (client.is_none() || client == p.iss)
        && has_vm;
    // without a signature the evaluation may answer either way (which one is right is
    // C12's and C24's question), but the credential is never issued
    let unsigned = p.twist == Twist::Unsigned;
    let genuine = !unsigned && p.twist != Twist::Tampered && owner(p.kid) == Some(p.signer);
    let show = || format!("session {s}, {p:?}, {st:?}");

    let r = cx.call("pre_evaluate", || CredentialIssuer::pre_evaluate_credential_request(&rq))?;
    let did = match r {
        Ok(r) => r.did,
        Err(_) if !ok => return refuse(cx),
        Err(e) => return bad("credential/pre-refused", format!("{}: {e:?}", show())),
    };
    if !readable {
        return bad("credential/pre-accepted", show());
    }
    if p.twist != Twist::NoProof && did.as_deref() != Some(did_of(p.kid)) {
        return bad("credential/did", format!("{}: resolve {did:?}", show()));
    }
    let doc = did.as_deref().and_then(document).map(|d| d.build());
    let o = EvaluateCredentialRequestOptions {
        client_id: client.map(str::to_owned),
        c_nonce: latest.map(|n| CNonceOptions {
            c_nonce_expires_in: LIFETIME,
            expected_c_nonce: nonce_text(s, n),
            c_nonce_created_at: clock::utc(T0 + Nanos::from(created)).expect("in range"),
        }),
    };
    let r = cx.call("evaluate", || {
        CredentialIssuer::evaluate_credential_request(&md, &rq, offer.as_ref(), None, doc.as_ref(), Some(o))
    })?;
    cx.note(|| format!("answer: {r:?}"));
    let r = match (r, ok) {
        (Ok(_), false) => return bad("credential/accepted", format!("accepted: {}", show())),
        (Err(_), true) if unsigned => return refuse(cx),
        (Err(e), true) => return bad("credential/refused", format!("{}: {e:?}", show())),
        (Err(_), false) => return refuse(cx),
        (Ok(r), true) => r,
    };
    if r.subject_id.as_deref() != Some(did_of(p.kid)) || r.credential != format {
        return bad("credential/content", format!("{}: {r:?}", show()));
    }
    let verified = r
        .proof_of_possession
        .as_ref()
        .map_or(false, |b| verify(&b.public_key, &b.message, &b.signature));
    if verified != genuine {
        return bad(
            if verified { "credential/forged" } else { "credential/genuine-refused" },
            format!("signature check of the returned bundle gives {verified}: {} {r:?}", show()),
        );
    }
    if !verified {
        refuse(cx)?;
        return Ok("forged proof refused");
    }
    let n = latest.unwrap_or(0) + 1;
    let fresh = CNonce { c_nonce: nonce_text(s, n), c_nonce_expires_in: Some(LIFETIME) };
    let c = CredentialOrAcceptanceToken::Credential(r.credential);
    let r = cx.call("credential response", || {
        CredentialIssuer::create_credential_success_response(&rq, Some(c), Some(fresh))
    })?;
    let (r, created) = match r {
        Ok((r, created)) => (r, created),
        r => return bad("credential/response", format!("{}: {r:?}", show())),
    };
    let text = json!(r).to_string();
    let wallet: Value = serde_json::from_str(&text).unwrap_or_default();
    if wallet["c_nonce"] != json!(nonce_text(s, n))
        || wallet["format"] != json!(format)["format"]
        || wallet["credential"].is_null()
        || serde_json::from_str::<CredentialSuccessResponse>(&text).is_err()
    {
        return bad("credential/response", format!("the wallet reads {text}"));
    }
    if n <= cfg.max_nonces {
        next.sess[s] = Stage::Redeemed(n, (clock::nanos(created) - T0) as i64);
    }
    Ok("credential issued")
}

fn refuse(cx: &mut Ctx) -> Result<&'static str, Problem> {
    let r = cx.call("credential error response", || {
        CredentialIssuer::create_credential_error_response(
            &CredentialIssuerErrorCode::InvalidOrMissingProof,
            None,
            None,
            None,
        )
    })?;
    let error = r.map(|r| json!(r)["error"].clone());
    if error != Ok(json!("invalid_or_missing_proof")) {
        return bad("credential/error", format!("the wallet reads {error:?}"));
    }
    Ok("credential refused")
}

struct Node {
    state: State,
    parent: usize,
    action: u32,
}

fn path(nodes: &[Node], mut at: usize, last: Option<u32>) -> Vec<u32> {
    let mut v: Vec<u32> = last.into_iter().collect();
    while at != 0 {
        v.push(nodes[at].action);
        at = nodes[at].parent;
    }
    v.reverse();
    v
}

fn search(
    cfg: &Cfg,
    acts: &[Action],
    limits: &Limits,
    is_known: &(dyn Fn(&str) -> bool + Sync),
) -> Stats {
    let begin = Instant::now();
    let mut st = Stats::default();
    let mut nodes = vec![Node { state: State::start(cfg), parent: 0, action: 0 }];
    let mut seen: HashMap<State, usize> = HashMap::new();
    seen.insert(nodes[0].state.clone(), 0);
    let mut level = vec![0usize];
    while !level.is_empty() && st.found.is_none() {
        if begin.elapsed() > limits.wall {
            st.capped = true;
            break;
        }
        type Row = (usize, Vec<(u32, Result<(State, &'static str), Problem>)>, u64);
        let results: Mutex<Vec<Row>> = Mutex::new(vec![]);
        let cursor = AtomicUsize::new(0);
        let failed = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for _ in 0..limits.threads {
                sc.spawn(|| loop {
                    let k = cursor.fetch_add(1, Ordering::Relaxed);
                    if k >= level.len() || failed.load(Ordering::Relaxed) || begin.elapsed() > limits.wall {
                        break;
                    }
                    let from = &nodes[level[k]].state;
                    let mut row = vec![];
                    let mut cx = Ctx::new(vec![], u32::MAX, false);
                    for (i, a) in acts.iter().enumerate() {
                        let r = step(&mut cx, cfg, from, a);
                        clock::release();
                        if let Err(p) = &r {
                            if !is_known(&p.site) {
                                failed.store(true, Ordering::Relaxed);
                                row.push((i as u32 + 1, r));
                                break;
                            }
                        }
                        row.push((i as u32 + 1, r));
                    }
                    results.lock().unwrap().push((level[k], row, cx.calls));
                });
            }
        });
        let mut rows = results.into_inner().unwrap();
        if rows.len() < level.len() && !failed.load(Ordering::Relaxed) {
            st.capped = true;
        }
        rows.sort_by_key(|r| r.0);
        let mut next = vec![];
        for (from, row, calls) in rows {
            st.calls += calls;
            for (i, r) in row {
                if matches!(r, Ok((_, "bound"))) {
                    continue;
                }
                st.executions += 1;
                match r {
                    Ok((s, class)) => {
                        st.outcomes
                            .entry(class.to_owned())
                            .or_insert_with(|| (0, path(&nodes, from, Some(i))))
                            .0 += 1;
                        if !seen.contains_key(&s) {
                            nodes.push(Node { state: s.clone(), parent: from, action: i });
                            seen.insert(s, nodes.len() - 1);
                            next.push(nodes.len() - 1);
                        }
                    }
                    Err(p) if is_known(&p.site) => *st.known.entry(p.site).or_default() += 1,
                    Err(p) => {
                        if st.found.is_none() {
                            let choices = path(&nodes, from, Some(i));
                            let (r, labels) = replay(cfg, acts, &choices);
                            let reproducible = matches!(r, Err(q) if q.site == p.site);
                            st.found = Some(Found { choices, labels, problem: p, reproducible });
                        }
                    }
                }
            }
        }
        level = next;
    }
    st.nodes = nodes.len() as u64;
    st
}

fn run(cx: &mut Ctx, cfg: &Cfg, acts: &[Action], choose: &mut dyn FnMut(&mut Ctx) -> usize) -> Res {
    let mut st = State::start(cfg);
    let mut class = "nothing";
    loop {
        let i = choose(cx);
        if i == 0 {
            return Ok(class.to_owned());
        }
        cx.note(|| format!("{:?}", acts[i - 1]));
        let (n, c) = step(cx, cfg, &st, &acts[i - 1])?;
        st = n;
        class = c;
    }
}

fn replay(cfg: &Cfg, acts: &[Action], choices: &[u32]) -> (Res, Vec<String>) {
    let mut cx = Ctx::new(vec![], u32::MAX, true);
    let mut it = choices.iter();
    let r = run(&mut cx, cfg, acts, &mut |_| it.next().map_or(0, |c| *c as usize));
    (r, cx.labels)
}

fn part(name: &'static str, cfg: Cfg) -> Part {
    let acts = Arc::new(actions(&cfg));
    let (c2, a2) = (cfg.clone(), acts.clone());
    Part {
        name,
        bound: u32::MAX,
        expect: &[
            "clock",
            "offered",
            "token refused",
            "token granted",
            "credential refused",
            "credential issued",
            "forged proof refused",
        ],
        driver: Box::new(move |cx| {
            let n = acts.len();
            run(cx, &cfg, &acts, &mut |cx| cx.all_n("action", n + 1))
        }),
        runner: Some(Box::new(move |l, k| search(&c2, &a2, l, k))),
    }
}

pub fn c22(tier: Tier) -> Vec<Part> {
    let cfg = |sessions, max_nonces, max_seconds, max_instants| Cfg {
        sessions,
        max_nonces,
        max_seconds,
        max_instants,
        offers: Arc::default(),
    };
    let mut v = vec![part("two-sessions", tier.pick(cfg(2, 2, 3, 1), cfg(2, 3, 5, 1)))];
    if tier == Tier::Thorough {
        v.push(part("three-sessions", cfg(3, 1, 3, 0)));
    }
    v
}
