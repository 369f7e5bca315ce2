//! Credential-request scenarios: what the environment can put in front of the
//! issuer's credential endpoint, and the reference model that says which
//! requirements the scenario breaks.

use crate::clock::{self, Nanos, SEC};
use crate::explore::{Ctx, Problem, Res};
use crate::util::b64url;
use openid4vci::credential_issuer::error::CredentialIssuerError as E;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonceOptions, CredentialIssuer, CredentialIssuerEvaluateRequestResponse,
    CredentialOffer, CredentialOfferGrants, EvaluateCredentialRequestOptions,
    PreAuthorizedCodeFlow,
};
use openid4vci::jwt::error::JwtError as J;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported};
use openid4vci::types::credential_request::{CredentialRequest, CredentialRequestProof};
use openid4vci::Document;
use serde_json::{json, Map, Value};

/// The answer is wrong, but in a way that another property is about.
pub const OUTSIDE: &str = "disagreement outside this property";

pub const T0: Nanos = 1_700_000_000 * SEC;

pub fn ldp(types: &[&str]) -> CredentialFormatProfile {
    CredentialFormatProfile::LdpVc {
        context: vec![],
        types: types.iter().map(|s| (*s).to_owned()).collect(),
        credential_subject: None,
        order: None,
    }
}

pub fn jwt_vc(types: &[&str]) -> CredentialFormatProfile {
    CredentialFormatProfile::JwtVcJson {
        types: types.iter().map(|s| (*s).to_owned()).collect(),
        credential_subject: None,
        order: None,
    }
}

pub fn supported(id: Option<&str>, format: CredentialFormatProfile) -> CredentialSupported {
    let mut v = serde_json::to_value(&format).expect("format");
    if let Some(id) = id {
        v["id"] = json!(id);
    }
    serde_json::from_value(v).expect("supported credential")
}

pub fn metadata(issuer: &str, supported: Vec<CredentialSupported>) -> CredentialIssuerMetadata {
    CredentialIssuerMetadata {
        credential_issuer: issuer.to_owned(),
        authorization_server: None,
        credential_endpoint: "https://issuer.test/credential".to_owned(),
        batch_credential_endpoint: None,
        credentials_supported: supported,
        additional_fields: None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum KeyHdr {
    Absent,
    Kid(String),
    Jwk(String),
    X5c(String),
}

#[derive(Clone, Debug)]
pub struct Jwt {
    pub typ: String,
    pub alg: String,
    pub key: KeyHdr,
    pub iss: Option<String>,
    pub aud: String,
    pub sub: Option<String>,
    pub iat: Nanos,
    pub nonce: String,
    pub nbf: Option<Nanos>,
    pub exp: Option<Nanos>,
    pub sig: Option<String>,
    /// replaces the compact serialisation altogether (then unreadable)
    pub raw: Option<String>,
    pub form: Form,
}

/// How the same proof is written; none of it matters to anybody.
#[derive(Clone, Debug, Default)]
pub struct Form {
    pub head: Vec<(&'static str, Value)>,
    pub body: Vec<(&'static str, Value)>,
    /// 0 compact, 1 indented, 2 every character escaped, 3 members in reverse order
    pub style: u8,
    /// 0 `Z`, 1 `+00:00`, 2 other offsets
    pub zone: u8,
}

impl Form {
    /// A member of the proof is replaced by something that is not a text.
    fn wrong_kind(&self) -> bool {
        let optional = ["iss", "sub", "nbf", "exp"];
        let head = ["typ", "alg", "kid", "jwk", "x5c"];
        let body = ["iss", "aud", "sub", "iat", "nonce", "nbf", "exp"];
        self.head.iter().any(|(k, v)| head.contains(k) && !v.is_string())
            || self.body.iter().any(|(k, v)| body.contains(k) && !v.is_string() && !(v.is_null() && optional.contains(k)))
    }

    fn time(&self, t: Nanos) -> String {
        let z = rfc3339(t);
        // years outside 0000-9999 cannot be moved to another offset safely
        match self.zone {
            1 => z.replace('Z', "+00:00"),
            2 => match clock::utc(t) {
                Some(d) if (0..=250_000_000_000).contains(&d.timestamp()) => {
                    let off = chrono::FixedOffset::east_opt(5 * 3600 + 1800).expect("offset");
                    d.with_timezone(&off).to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true)
                }
                _ => z,
            },
            _ => z,
        }
    }

    fn write(&self, m: &Map<String, Value>) -> String {
        let v = Value::Object(m.clone());
        match self.style {
            1 => format!(" \n{}\r\n", serde_json::to_string_pretty(&v).expect("json")),
            2 => {
                let esc = |s: &str| {
                    let u: String = s.encode_utf16().map(|u| format!("\\u{u:04X}")).collect();
                    format!("\"{u}\"")
                };
                let members: Vec<String> = m
                    .iter()
                    .map(|(k, v)| format!("{}:{}", esc(k), v.as_str().map_or(v.to_string(), esc)))
                    .collect();
                format!("{{{}}}", members.join(","))
            }
            3 => {
                let members: Vec<String> = m.iter().rev().map(|(k, v)| format!("{}: {v}", json!(k))).collect();
                format!("{{{}}}", members.join(" , "))
            }
            _ => v.to_string(),
        }
    }
}

pub fn rfc3339(t: Nanos) -> String {
    clock::utc(t).expect("time in range").to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true)
}

impl Jwt {
    pub fn header(&self) -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("typ".into(), json!(self.typ));
        m.insert("alg".into(), json!(self.alg));
        match &self.key {
            KeyHdr::Absent => {}
            KeyHdr::Kid(k) => {
                m.insert("kid".into(), json!(k));
            }
            KeyHdr::Jwk(k) => {
                m.insert("jwk".into(), json!(k));
            }
            KeyHdr::X5c(k) => {
                m.insert("x5c".into(), json!(k));
            }
        }
        m
    }

    pub fn body(&self) -> Map<String, Value> {
        let mut m = Map::new();
        if let Some(i) = &self.iss {
            m.insert("iss".into(), json!(i));
        }
        m.insert("aud".into(), json!(self.aud));
        if let Some(s) = &self.sub {
            m.insert("sub".into(), json!(s));
        }
        m.insert("iat".into(), json!(rfc3339(self.iat)));
        m.insert("nonce".into(), json!(self.nonce));
        if let Some(t) = self.nbf {
            m.insert("nbf".into(), json!(rfc3339(t)));
        }
        if let Some(t) = self.exp {
            m.insert("exp".into(), json!(rfc3339(t)));
        }
        m
    }

    pub fn compact(&self) -> String {
        if let Some(r) = &self.raw {
            return r.clone();
        }
        let (mut h, mut b) = (self.header(), self.body());
        h.extend(self.form.head.iter().map(|(k, v)| ((*k).to_owned(), v.clone())));
        for (k, t) in [("iat", Some(self.iat)), ("nbf", self.nbf), ("exp", self.exp)] {
            if let Some(t) = t {
                b.insert(k.to_owned(), json!(self.form.time(t)));
            }
        }
        b.extend(self.form.body.iter().map(|(k, v)| ((*k).to_owned(), v.clone())));
        let h = b64url(self.form.write(&h).as_bytes());
        let b = b64url(self.form.write(&b).as_bytes());
        match &self.sig {
            Some(s) => format!("{h}.{b}.{s}"),
            None => format!("{h}.{b}"),
        }
    }

    /// A dot anywhere in the JSON of the two parts.
    pub fn has_dot(&self) -> bool {
        // issue times can contain one as well
        Value::Object(self.header()).to_string().contains('.')
            || Value::Object(self.body()).to_string().contains('.')
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mat {
    /// publicKeyJwk, OKP with this curve
    Okp(&'static str, Vec<u8>),
    /// publicKeyJwk, EC with this curve and optional alg
    Ec(&'static str, Option<&'static str>, Vec<u8>),
    Rsa,
    Oct,
    /// publicKeyBase58 of an Ed25519VerificationKey2018
    Base58(Vec<u8>),
    /// publicKeyHex of an Ed25519VerificationKey2018
    Hex(Vec<u8>),
    /// publicKeyMultibase (z-base58) of an Ed25519VerificationKey2020, with prefix
    Multibase2020(Vec<u8>),
    /// the same without the multicodec prefix: not readable
    Multibase2020NoPrefix(Vec<u8>),
    /// publicKeyBase58 under a type that is not known
    UnknownType(Vec<u8>),
    Nothing,
    /// both publicKeyJwk and publicKeyBase58
    Two(Vec<u8>),
    BadBase58,
}

pub fn base58(data: &[u8]) -> String {
    const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut digits: Vec<u8> = vec![];
    for b in data {
        let mut carry = u32::from(*b);
        for d in &mut digits {
            carry += u32::from(*d) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let zeros = data.iter().take_while(|b| **b == 0).count();
    let mut out: String = "1".repeat(zeros);
    out.extend(digits.iter().rev().map(|d| A[*d as usize] as char));
    out
}

impl Mat {
    pub fn usable(&self) -> Option<Vec<u8>> {
        match self {
            Mat::Okp(_, k) | Mat::Base58(k) | Mat::Hex(k) | Mat::Multibase2020(k) => Some(k.clone()),
            Mat::Ec(_, Some("EdDSA"), k) => Some(k.clone()),
            _ => None,
        }
    }

    fn json(&self, id: &str) -> Value {
        let ty = match self {
            Mat::Multibase2020(_) | Mat::Multibase2020NoPrefix(_) => "Ed25519VerificationKey2020",
            Mat::UnknownType(_) => "SomeKeyType2042",
            Mat::Ec(..) | Mat::Rsa | Mat::Oct => "JsonWebKey2020",
            _ => "Ed25519VerificationKey2018",
        };
        let mut v = json!({"id": id, "type": ty, "controller": "did:example:controller"});
        let hex = |k: &[u8]| k.iter().map(|b| format!("{b:02x}")).collect::<String>();
        match self {
            Mat::Okp(crv, k) => {
                v["publicKeyJwk"] = json!({"kty": "OKP", "crv": crv, "x": b64url(k)});
            }
            Mat::Ec(crv, alg, k) => {
                v["publicKeyJwk"] = json!({"kty": "EC", "crv": crv, "x": b64url(k), "y": b64url(&[9; 32])});
                if let Some(a) = alg {
                    v["publicKeyJwk"]["alg"] = json!(a);
                }
            }
            Mat::Rsa => v["publicKeyJwk"] = json!({"kty": "RSA", "n": b64url(&[7; 32]), "e": "AQAB"}),
            Mat::Oct => v["publicKeyJwk"] = json!({"kty": "oct", "k": b64url(&[5; 32])}),
            Mat::Base58(k) | Mat::UnknownType(k) => v["publicKeyBase58"] = json!(base58(k)),
            Mat::Hex(k) => v["publicKeyHex"] = json!(hex(k)),
            Mat::Multibase2020(k) => {
                let mut p = vec![0xed, 0x01];
                p.extend(k);
                v["publicKeyMultibase"] = json!(format!("z{}", base58(&p)));
            }
            Mat::Multibase2020NoPrefix(k) => {
                v["publicKeyMultibase"] = json!(format!("z{}", base58(k)));
            }
            Mat::Nothing => {}
            Mat::Two(k) => {
                v["publicKeyJwk"] = json!({"kty": "OKP", "crv": "Ed25519", "x": b64url(k)});
                v["publicKeyBase58"] = json!(base58(k));
            }
            Mat::BadBase58 => v["publicKeyBase58"] = json!("0OIl not base58"),
        }
        v
    }
}

pub const LISTS: [&str; 7] = [
    "verificationMethod",
    "authentication",
    "assertionMethod",
    "keyAgreement",
    "capabilityInvocation",
    "capabilityDelegation",
    "publicKey",
];

#[derive(Clone, Debug, PartialEq)]
pub struct Vm {
    pub list: usize,
    pub id: String,
    pub mat: Mat,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub id: String,
    pub vms: Vec<Vm>,
    /// (list, DID URL): verification methods included by reference
    pub refs: Vec<(usize, String)>,
}

impl Doc {
    pub fn json(&self) -> Value {
        let mut v = json!({"@context": "https://www.w3.org/ns/did/v1", "id": self.id});
        for (i, list) in LISTS.iter().enumerate() {
            let mut out: Vec<Value> =
                self.vms.iter().filter(|m| m.list == i).map(|m| m.mat.json(&m.id)).collect();
            out.extend(self.refs.iter().filter(|r| r.0 == i).map(|r| json!(r.1)));
            if !out.is_empty() {
                v[*list] = Value::Array(out);
            }
        }
        v
    }

    pub fn build(&self) -> Document {
        serde_json::from_value(self.json()).expect("a DID document")
    }

    /// The methods `kid` can denote: absolute id, or id relative to this document.
    pub fn named(&self, kid: &str) -> Vec<&Vm> {
        let did = did_of(kid);
        let rel = (did == self.id).then(|| &kid[did.len()..]);
        let rel = rel.filter(|r| !r.starts_with("//"));
        self.vms.iter().filter(|m| m.id == kid || Some(m.id.as_str()) == rel).collect()
    }
}

pub fn did_of(kid: &str) -> &str {
    let end = kid.find(['/', '?', '#']).unwrap_or(kid.len());
    &kid[..end]
}

/// DID URL as far as the library is meant to accept it.
pub fn is_did_url(kid: &str) -> bool {
    kid.starts_with("did:")
}

#[derive(Clone, Debug, PartialEq)]
pub struct NonceOpt {
    pub expected: String,
    pub created: Nanos,
    pub lifetime: u32,
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub issuer: String,
    pub md_ids: Vec<Option<String>>,
    /// (authorization-code grant, pre-authorized grant)
    pub offer: Option<(bool, bool)>,
    pub asm: bool,
    pub format: CredentialFormatProfile,
    /// (proof type, proof)
    pub proof: Option<(String, Jwt)>,
    pub doc: Option<Doc>,
    pub opts: bool,
    pub nonce: Option<NonceOpt>,
    pub client_id: Option<String>,
    pub now: Nanos,
    pub around: Around,
}

/// What the parties have around the request; none of it matters to its evaluation.
#[derive(Clone, Debug, Default)]
pub struct Around {
    /// the offer's issuer, where it is not this one
    pub offer_issuer: Option<String>,
    pub offered: Option<Vec<Value>>,
    pub code: Option<String>,
    pub pin: Option<bool>,
    pub issuer_state: Option<String>,
    /// members replaced in the issuer metadata's JSON
    pub md: Vec<(&'static str, Value)>,
    /// members of every supported credential
    pub supported: Vec<(&'static str, Value)>,
    /// members added to the DID document's JSON
    pub doc: Vec<(&'static str, Value)>,
    /// members added to every verification method
    pub vm: Vec<(&'static str, Value)>,
    /// members added to every JWK in the document
    pub jwk: Vec<(&'static str, Value)>,
    /// the options are handed over as JSON
    pub options_json: bool,
}

pub const DID: &str = "did:example:holder";
pub const KID: &str = "did:example:holder#key-1";

pub fn key(n: u8) -> Vec<u8> {
    (0..32).map(|i| i * 3 + n).collect()
}

impl Default for Scn {
    fn default() -> Self {
        Scn {
            issuer: "https://issuer.test".into(),
            md_ids: vec![Some("UniversityDegree".into()), Some("DriverLicense".into())],
            offer: Some((false, true)),
            asm: false,
            format: ldp(&["VerifiableCredential", "UniversityDegree"]),
            proof: Some((
                "jwt".into(),
                Jwt {
                    typ: "openid4vci-proof+jwt".into(),
                    alg: "EdDSA".into(),
                    key: KeyHdr::Kid(KID.into()),
                    iss: Some("client-1".into()),
                    aud: "https://issuer.test".into(),
                    sub: None,
                    iat: T0 - 5 * SEC,
                    nonce: "tZignsnFbp".into(),
                    nbf: None,
                    exp: None,
                    sig: Some("c2lnbmF0dXJl".into()),
                    raw: None,
                    form: Form::default(),
                },
            )),
            doc: Some(Doc {
                id: DID.into(),
                vms: vec![Vm { list: 0, id: KID.into(), mat: Mat::Okp("Ed25519", key(1)) }],
                refs: vec![],
            }),
            opts: true,
            nonce: Some(NonceOpt { expected: "tZignsnFbp".into(), created: T0 - 10 * SEC, lifetime: 300 }),
            client_id: Some("client-1".into()),
            now: T0,
            around: Around::default(),
        }
    }
}

impl Scn {
    /// Valid, and everything that may be there is there, each with its own value.
    pub fn busy() -> Scn {
        let mut sc = Scn::default();
        let j = sc.jwt();
        j.sub = Some("did:example:subject".into());
        j.nbf = Some(T0 - 100 * SEC);
        j.exp = Some(T0 + 100 * SEC);
        j.form.head = vec![("cty", json!("header-cty")), ("aud", json!("https://header.test")), ("nonce", json!("header-nonce"))];
        j.form.body = vec![("jti", json!("body-jti")), ("azp", json!("body-azp")), ("client_id", json!("body-client")), ("c_nonce", json!("body-nonce"))];
        let a = &mut sc.around;
        a.offer_issuer = Some("https://offer-issuer.test".into());
        a.offered = Some(vec![json!("UniversityDegree"), json!({"format": "mso_mdoc", "doctype": "offered-doctype"})]);
        a.code = Some("offer-code".into());
        a.pin = Some(true);
        a.issuer_state = Some("issuer-state".into());
        a.md = vec![
            ("authorization_server", json!("https://as.test/authorize")),
            ("batch_credential_endpoint", json!("https://batch.test/batch")),
            ("deferred_credential_endpoint", json!("https://deferred.test/deferred")),
            ("token_endpoint", json!("https://token.test/token")),
            ("display", json!([{"name": "Issuer name", "locale": "en-GB"}])),
            ("client_id", json!("metadata-client")),
            ("c_nonce", json!("metadata-nonce")),
        ];
        a.supported = vec![
            ("cryptographic_binding_methods_supported", json!(["did:key", "jwk"])),
            ("cryptographic_suites_supported", json!(["ES256K", "Ed25519Signature2018"])),
            ("display", json!([{"name": "Card name", "locale": "fr", "logo": {"url": "https://logo.test/l.png", "alt_text": "Alt"}, "description": "Card text"}])),
            ("credentialSubject", json!({"claim-name": {"mandatory": true, "value_type": "claim-type", "display": [{"name": "Claim label", "locale": "de"}]}})),
            ("order", json!(["claim-name"])),
        ];
        a.doc = vec![
            ("controller", json!("did:example:doc-controller")),
            ("alsoKnownAs", json!(["https://also.test/known"])),
            ("service", json!([{"id": "did:example:holder#service", "type": "ServiceType", "serviceEndpoint": "https://service.test"}])),
        ];
        sc.doc.as_mut().expect("document").vms.push(Vm { list: 1, id: "did:example:holder#auth-key".into(), mat: Mat::Okp("Ed25519", key(8)) });
        sc
    }

    /// Everything that is said anywhere, and its parts.
    pub fn texts(&self) -> Vec<String> {
        let j = &self.proof.as_ref().expect("scenario has a proof").1;
        let (mut h, mut b) = (j.header(), j.body());
        h.extend(j.form.head.iter().map(|(k, v)| ((*k).to_owned(), v.clone())));
        b.extend(j.form.body.iter().map(|(k, v)| ((*k).to_owned(), v.clone())));
        let mut doc = self.doc.as_ref().map_or(Value::Null, Doc::json);
        for (k, x) in &self.around.doc {
            doc[*k] = x.clone();
        }
        let all = json!([
            self.metadata(), self.offer(), self.format, h, b, doc, j.sig, self.nonce.as_ref().map(|n| json!([n.expected, n.lifetime])),
            self.client_id, self.proof.as_ref().map(|p| p.0.clone()),
        ]);
        let mut v = vec![];
        crate::util::texts_in(&all, &mut v);
        crate::util::derived(&v)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    DupIds,
    NoOffer,
    AuthServer,
    NonceExpired(Nanos),
    NoProof,
    ProofType,
    Unreadable,
    Typ,
    Alg,
    Nonce,
    Iss,
    Aud,
    NotYet,
    Expired,
    NoKey,
    Jwk,
    X5c,
    NotDid,
    NoDoc,
    NoVm,
    BadKey,
    NoSignature,
}

impl Fault {
    pub fn name(&self) -> String {
        match self {
            Fault::NonceExpired(_) => "NonceExpired".into(),
            f => format!("{f:?}"),
        }
    }
}

/// Which disagreements are this property's business.
pub struct Focus {
    /// names of faults: accepting despite them, or misreporting them when alone
    pub faults: &'static [&'static str],
    /// prefixes of the sites of `judge_accepted`
    pub accepted: &'static [&'static str],
    /// everything, whatever is varied
    pub all: bool,
}

pub const GOOD_ALGS: [&str; 12] = [
    "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512", "EdDSA", "ES256K",
    "ECDH-ES",
];
pub const BAD_ALGS: [&str; 4] = ["none", "HS256", "HS384", "HS512"];

/// Ok, or every way in which it is wrong.
impl Scn {
    pub fn jwt(&mut self) -> &mut Jwt {
        &mut self.proof.as_mut().expect("scenario has a proof").1
    }

    pub fn ids_distinct(ids: &[Option<String>]) -> bool {
        (0..ids.len()).all(|i| (0..i).all(|j| ids[i].is_none() || ids[i] != ids[j]))
    }

    /// Faults of the proof by itself: the ones every entry point must see.
    pub fn proof_faults(&self) -> Vec<Fault> {
        let mut f = vec![];
        if let Some((pt, j)) = &self.proof {
            if !pt.eq_ignore_ascii_case("jwt") {
                f.push(Fault::ProofType);
            }
            if j.raw.is_some() || j.form.wrong_kind() || !GOOD_ALGS.contains(&j.alg.as_str()) && !BAD_ALGS.contains(&j.alg.as_str()) {
                f.push(Fault::Unreadable);
                return f;
            }
            if !j.typ.eq_ignore_ascii_case("openid4vci-proof+jwt") {
                f.push(Fault::Typ);
            }
            if BAD_ALGS.contains(&j.alg.as_str()) {
                f.push(Fault::Alg);
            }
        }
        f
    }

    pub fn faults(&self) -> Vec<Fault> {
        let mut f = vec![];
        if !Self::ids_distinct(&self.md_ids) {
            f.push(Fault::DupIds);
        }
        if self.offer.is_none() {
            f.push(Fault::NoOffer);
        }
        if self.asm {
            f.push(Fault::AuthServer);
        }
        if let Some(n) = self.nonce.as_ref().filter(|_| self.opts) {
            let end = n.created + Nanos::from(n.lifetime) * SEC;
            if self.now > end {
                f.push(Fault::NonceExpired(end));
            }
        }
        let Some((_, j)) = &self.proof else {
            f.push(Fault::NoProof);
            return f;
        };
        f.extend(self.proof_faults());
        if f.contains(&Fault::Unreadable) {
            return f;
        }
        if self.expected_nonce() != Some(&j.nonce) {
            f.push(Fault::Nonce);
        }
        let (auth, pre) = self.offer.unwrap_or((false, false));
        let cid = self.client();
        let check = cid.is_some() || auth || !pre;
        if check && j.iss.as_ref() != cid {
            f.push(Fault::Iss);
        }
        if j.aud != self.issuer {
            f.push(Fault::Aud);
        }
        if j.nbf.map_or(false, |t| self.now < t) {
            f.push(Fault::NotYet);
        }
        if j.exp.map_or(false, |t| self.now >= t) {
            f.push(Fault::Expired);
        }
        match &j.key {
            KeyHdr::Absent => f.push(Fault::NoKey),
            KeyHdr::Jwk(_) => f.push(Fault::Jwk),
            KeyHdr::X5c(_) => f.push(Fault::X5c),
            KeyHdr::Kid(k) => {
                if !is_did_url(k) {
                    f.push(Fault::NotDid);
                } else {
                    match &self.doc {
                        None => f.push(Fault::NoDoc),
                        Some(d) => {
                            let named = d.named(k);
                            if named.is_empty() {
                                f.push(Fault::NoVm);
                            } else if named.iter().all(|m| m.mat.usable().is_none()) {
                                f.push(Fault::BadKey);
                            }
                        }
                    }
                }
            }
        }
        if j.sig.is_none() {
            f.push(Fault::NoSignature);
        }
        f
    }

    fn expected_nonce(&self) -> Option<&String> {
        self.nonce.as_ref().filter(|_| self.opts).map(|n| &n.expected)
    }

    fn client(&self) -> Option<&String> {
        self.client_id.as_ref().filter(|_| self.opts)
    }

    pub fn request(&self) -> CredentialRequest {
        CredentialRequest {
            format: self.format.clone(),
            proof: self
                .proof
                .as_ref()
                .map(|(pt, j)| CredentialRequestProof { proof_type: pt.clone(), jwt: j.compact() }),
        }
    }

    pub fn metadata(&self) -> CredentialIssuerMetadata {
        let s = self.md_ids.iter().map(|id| supported(id.as_deref(), ldp(&["VerifiableCredential"])));
        let md = metadata(&self.issuer, s.collect());
        if self.around.md.is_empty() && self.around.supported.is_empty() {
            return md;
        }
        let mut v = serde_json::to_value(&md).expect("metadata");
        for (k, x) in &self.around.md {
            v[*k] = x.clone();
        }
        for c in v["credentials_supported"].as_array_mut().expect("list") {
            for (k, x) in &self.around.supported {
                c[*k] = x.clone();
            }
        }
        serde_json::from_value(v).expect("metadata")
    }

    pub fn offer(&self) -> Option<CredentialOffer> {
        let a = &self.around;
        let listed = a.offered.clone().unwrap_or_else(|| vec![json!("UniversityDegree")]);
        self.offer.map(|(auth, pre)| CredentialOffer {
            credential_issuer: a.offer_issuer.clone().unwrap_or_else(|| self.issuer.clone()),
            credentials: serde_json::from_value(Value::Array(listed)).expect("offered credentials"),
            grants: CredentialOfferGrants {
                authorized_code_flow: auth.then(|| AuthorizedCodeFlow { issuer_state: a.issuer_state.clone() }),
                pre_authorized_code_flow: pre.then(|| PreAuthorizedCodeFlow {
                    code: a.code.clone().unwrap_or_else(|| "code-1".into()),
                    user_pin_required: a.pin,
                }),
            },
        })
    }

    pub fn options(&self) -> Option<EvaluateCredentialRequestOptions> {
        if self.opts && self.around.options_json {
            let v = json!({
                "client_id": self.client_id,
                "c_nonce": self.nonce.as_ref().map(|n| json!({
                    "expected_c_nonce": n.expected,
                    "c_nonce_expires_in": n.lifetime,
                    "c_nonce_created_at": rfc3339(n.created),
                })),
            });
            return Some(serde_json::from_value(v).expect("options"));
        }
        self.opts.then(|| EvaluateCredentialRequestOptions {
            c_nonce: self.nonce.as_ref().map(|n| CNonceOptions {
                c_nonce_expires_in: n.lifetime,
                expected_c_nonce: n.expected.clone(),
                c_nonce_created_at: clock::utc(n.created).expect("creation time in range"),
            }),
            client_id: self.client_id.clone(),
        })
    }

    pub fn evaluate(
        &self,
        cx: &mut Ctx,
    ) -> Result<Result<CredentialIssuerEvaluateRequestResponse, E>, Problem> {
        let (md, rq, of, op) = (self.metadata(), self.request(), self.offer(), self.options());
        let doc = self.doc.as_ref().map(|d| {
            let mut v = d.json();
            for (k, x) in &self.around.doc {
                v[*k] = x.clone();
            }
            for list in LISTS {
                for m in v.get_mut(list).and_then(Value::as_array_mut).into_iter().flatten() {
                    if m.is_object() {
                        for (k, x) in &self.around.vm {
                            m[*k] = x.clone();
                        }
                        if m.get("publicKeyJwk").is_some() {
                            for (k, x) in &self.around.jwk {
                                m["publicKeyJwk"][*k] = x.clone();
                            }
                        }
                    }
                }
            }
            serde_json::from_value::<Document>(v).expect("a DID document")
        });
        let asm = self.asm.then_some(AuthorizationServerMetadata {});
        cx.note(|| format!("proof: {:?}", rq.proof.as_ref().map(|p| p.jwt.clone())));
        clock::set(self.now);
        let r = cx.call("evaluate_credential_request", || {
            CredentialIssuer::evaluate_credential_request(
                &md,
                &rq,
                of.as_ref(),
                asm.as_ref(),
                doc.as_ref(),
                op,
            )
        });
        clock::release();
        r
    }

    /// Does this error truthfully report this fault?
    pub fn reports(&self, e: &E, f: &Fault) -> bool {
        let j = self.proof.as_ref().map(|p| &p.1);
        match (f, e) {
            (Fault::DupIds, E::ValidationError(_)) => true,
            (Fault::NoOffer, E::CredentialOfferMustBeSupplied) => true,
            (Fault::AuthServer, E::AuthorizationServerMetadataNotSupported) => true,
            (Fault::NonceExpired(end), E::CNonceIsExpired { now, expiry_timestamp }) => {
                clock::nanos(*now) == self.now && clock::nanos(*expiry_timestamp) == *end
            }
            (Fault::NoProof, E::NoProofInCredentialRequest) => true,
            (
                Fault::ProofType | Fault::Unreadable | Fault::Typ | Fault::Alg,
                E::ValidationError(_) | E::JwtError(J::ValidationError(_)),
            ) => true,
            (Fault::Nonce, E::JwtError(J::NonceMismatch { expected_nonce, actual_nonce })) => {
                expected_nonce.as_ref() == self.expected_nonce()
                    && Some(actual_nonce) == j.map(|j| &j.nonce)
            }
            (Fault::Iss, E::JwtError(J::IssuerMismatch { expected_iss_in_jwt, actual_iss_in_jwt })) => {
                expected_iss_in_jwt.as_ref() == self.client()
                    && Some(actual_iss_in_jwt) == j.map(|j| &j.iss)
            }
            (Fault::Aud, E::JwtError(J::AudienceMismatch { expected_aud_in_jwt, actual_aud_in_jwt })) => {
                *expected_aud_in_jwt == self.issuer && Some(actual_aud_in_jwt) == j.map(|j| &j.aud)
            }
            (Fault::NotYet, E::JwtError(J::NotYetValid { valid_from, now })) => {
                clock::nanos(*now) == self.now && Some(clock::nanos(*valid_from)) == j.and_then(|j| j.nbf)
            }
            (Fault::Expired, E::JwtError(J::NotValidAnymore { valid_until, now })) => {
                clock::nanos(*now) == self.now
                    && Some(clock::nanos(*valid_until)) == j.and_then(|j| j.exp)
            }
            (Fault::NoKey, E::JwtError(J::NoKeyFoundInProof)) => true,
            (
                Fault::Jwk | Fault::X5c,
                E::ValidationError(_)
                | E::JwtError(
                    J::ValidationError(_)
                    | J::UnableToTransformIntoJoseItem { .. }
                    | J::UnsupportedAlgorithm { .. }
                    | J::EdDSAHasNoXCoordinate
                    | J::ESXXXHasNoXOrYCoordinate { .. },
                ),
            ) => true,
            (Fault::Jwk, E::JwtError(J::UnsupportedKeyTypeInJwtHeader { key_name, .. })) => {
                key_name == "jwk"
            }
            (Fault::X5c, E::JwtError(J::UnsupportedKeyTypeInJwtHeader { key_name, .. })) => {
                key_name == "x5c"
            }
            (Fault::NotDid, E::JwtError(J::UnableToTransformIntoDid { kid, .. })) => {
                matches!(j.map(|j| &j.key), Some(KeyHdr::Kid(k)) if k == kid)
            }
            (Fault::NoDoc, E::JwtError(J::NoDidDocumentProvidedForKidAsDid)) => true,
            (Fault::NoVm, E::JwtError(J::UnableToResolveDidInDidDocument { .. })) => true,
            (
                Fault::BadKey,
                E::JwtError(
                    J::UnableToMapVerificationMethodToJwk { .. }
                    | J::UnsupportedAlgorithm { .. }
                    | J::EdDSAHasNoXCoordinate
                    | J::ESXXXHasNoXOrYCoordinate { .. },
                ),
            ) => true,
            (Fault::NoSignature, E::JwtError(J::SignatureNotInJwt { .. })) => true,
            _ => false,
        }
    }

    /// Compares one answer of the implementation with the model. `Ok(class)`.
    /// Only what `focus` names is reported: a disagreement that belongs to another
    /// property is that property's violation, not this one's.
    pub fn judge(
        &self,
        cx: &mut Ctx,
        r: &Result<CredentialIssuerEvaluateRequestResponse, E>,
        focus: &Focus,
    ) -> Res {
        let faults = self.faults();
        let names = || faults.iter().map(Fault::name).collect::<Vec<_>>().join("+");
        let mine = focus.all || faults.iter().any(|f| focus.faults.contains(&f.name().as_str()));
        match r {
            Ok(r) => {
                if !faults.is_empty() {
                    // a finding of C12, which has its own parts for it
                    let known = faults == [Fault::NoSignature] && self.proof.as_ref().is_some_and(|p| p.1.has_dot());
                    if mine && !known {
                        return Err(Problem::new(
                            format!("accepted-despite/{}", names()),
                            format!("accepted although: {faults:?}"),
                        ));
                    }
                    return Ok(OUTSIDE.into());
                }
                match self.judge_accepted(r) {
                    Ok(()) => Ok("accepted".into()),
                    Err(p) if focus.all || focus.accepted.iter().any(|a| p.site.starts_with(a)) => Err(p),
                    // accepted is right; what it contains is another property's business
                    Err(_) => Ok("accepted".into()),
                }
            }
            Err(e) => {
                if faults.is_empty() {
                    // whose fault? if even the plain request is refused, it is not
                    // what this property varies
                    if !focus.all {
                        let base = Scn::default();
                        if !matches!(base.evaluate(cx), Ok(Ok(_))) {
                            return Ok(OUTSIDE.into());
                        }
                    }
                    return Err(Problem::new("refused-valid", format!("refused a valid request: {e:?}")));
                }
                let truthful = faults.iter().any(|f| self.reports(e, f));
                if !truthful && (focus.all || (mine && (faults.len() == 1 || focus.faults.len() > 20))) {
                    return Err(Problem::new(
                        format!("wrong-error/{}", names()),
                        format!("refused with {e:?}, but what is wrong is {faults:?}"),
                    ));
                }
                Ok(if faults.len() == 1 {
                    format!("refused: {}", names())
                } else {
                    format!("refused: {} faults", faults.len())
                })
            }
        }
    }

    /// Evaluate and judge.
    pub fn check(&self, cx: &mut Ctx, focus: &Focus) -> Res {
        let r = self.evaluate(cx)?;
        cx.note(|| format!("answer: {r:?}"));
        self.judge(cx, &r, focus)
    }

    pub fn judge_accepted(&self, r: &CredentialIssuerEvaluateRequestResponse) -> Result<(), Problem> {
        let j = &self.proof.as_ref().expect("accepted without proof").1;
        let KeyHdr::Kid(kid) = &j.key else {
            return Err(Problem::new("accepted-without-kid", "accepted a proof without kid"));
        };
        if r.credential != self.format {
            return Err(Problem::new(
                "credential-changed",
                format!("requested {:?}, returned {:?}", self.format, r.credential),
            ));
        }
        if r.subject_id.as_deref() != Some(did_of(kid)) {
            return Err(Problem::new("subject", format!("kid {kid}, subject {:?}", r.subject_id)));
        }
        let Some(p) = &r.proof_of_possession else {
            return Err(Problem::new("no-pop", "no proof of possession in an accepted request"));
        };
        let keys: Vec<Vec<u8>> = self
            .doc
            .iter()
            .flat_map(|d| d.named(kid))
            .filter_map(|m| m.mat.usable())
            .collect();
        if !keys.contains(&p.public_key) {
            return Err(Problem::new(
                "key",
                format!("kid {kid} names the key(s) {keys:?}, returned {:?}", p.public_key),
            ));
        }
        let alg = serde_json::to_value(&p.algorithm).unwrap_or_default();
        if alg != json!(j.alg) {
            return Err(Problem::new("alg", format!("header alg {}, returned {alg}", j.alg)));
        }
        if Some(p.signature.as_slice()) != j.sig.as_ref().map(String::as_bytes) {
            return Err(Problem::new(
                "signature",
                format!("third segment {:?}, returned {:?}", j.sig, String::from_utf8_lossy(&p.signature)),
            ));
        }
        check_message(j, &p.message)
    }
}

fn same_time(v: &Value, t: Nanos) -> bool {
    v.as_str()
        .and_then(|s| s.parse::<chrono::DateTime<chrono::Utc>>().ok())
        .map_or(false, |d| clock::nanos(d) == t)
}

/// `{header}.{body}` and nothing else, with exactly the proof's values.
pub fn check_message(j: &Jwt, message: &[u8]) -> Result<(), Problem> {
    let bad = |what: &str| {
        Err(Problem::new(
            format!("message/{what}"),
            format!("{what}: {:?} for {:?}", String::from_utf8_lossy(message), j),
        ))
    };
    let Ok(text) = std::str::from_utf8(message) else {
        return bad("not utf-8");
    };
    let mut it = serde_json::Deserializer::from_str(text).into_iter::<Value>();
    let Some(Ok(Value::Object(mut h))) = it.next() else {
        return bad("no header object");
    };
    let off = it.byte_offset();
    let Some(rest) = text[off..].strip_prefix('.') else {
        return bad("no dot after the header");
    };
    let Ok(Value::Object(mut b)) = serde_json::from_str::<Value>(rest) else {
        return bad("body is not exactly one object");
    };
    for (k, v) in j.header() {
        if h.remove(&k) != Some(v) {
            return bad(&format!("header {k}"));
        }
    }
    h.retain(|k, v| !v.is_null() && !j.form.head.iter().any(|(n, x)| n == k && x == v));
    if !h.is_empty() {
        return bad("surplus header members");
    }
    for (k, t) in [("iat", Some(j.iat)), ("nbf", j.nbf), ("exp", j.exp)] {
        let v = b.remove(k).filter(|v| !v.is_null());
        let ok = match (&v, t) {
            (None, None) => true,
            (Some(v), Some(t)) => same_time(v, t),
            _ => false,
        };
        if !ok {
            return bad(&format!("body {k}"));
        }
    }
    for (k, w) in [
        ("iss", j.iss.as_ref()),
        ("aud", Some(&j.aud)),
        ("sub", j.sub.as_ref()),
        ("nonce", Some(&j.nonce)),
    ] {
        let v = b.remove(k).filter(|v| !v.is_null());
        if v.as_ref().map(|v| v.as_str().unwrap_or("\u{1}not a string")) != w.map(String::as_str) {
            return bad(&format!("body {k}"));
        }
    }
    b.retain(|k, v| !v.is_null() && !j.form.body.iter().any(|(n, x)| n == k && x == v));
    if !b.is_empty() {
        return bad("surplus body members");
    }
    Ok(())
}
