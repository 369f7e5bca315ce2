//! C17, C18, C19, C23: what goes over the wire and how errors are reported.

use crate::clock::{self, Nanos, SEC};
use crate::explore::{Ctx, Problem, Res};
use crate::report::Part;
use crate::scn::T0;
use crate::util::{interesting_u32, near_misses, stretched, COUNTS};
use crate::Tier;
use openid4vci::access_token::error::AccessTokenError as AE;
use openid4vci::access_token::error_response::AccessTokenErrorCode as AC;
use openid4vci::access_token::{AccessToken, AccessTokenSuccessResponse};
use openid4vci::credential_issuer::error::CredentialIssuerError as CE;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode as CC;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId,
    CredentialOrIds, CredentialSuccessResponse, PreAuthorizedCodeFlow,
};
use openid4vci::error::ErrorInformation;
use openid4vci::jwt::error::JwtError as JE;
use openid4vci::return_object::{ReturnObject, ToReturnObject};
use openid4vci::types::credential::{CredentialFormatProfile, LinkedDataContext};
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported};
use openid4vci::types::credential_request::{CredentialRequest, CredentialRequestProof};
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::{Validatable, ValidationError as VE};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::fmt::Debug;

fn s(x: &str) -> String {
    x.to_owned()
}

/// Members that are null count as absent.
fn strip(v: Value) -> Value {
    match v {
        Value::Object(o) => {
            Value::Object(o.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, strip(v))).collect())
        }
        Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
        v => v,
    }
}

fn write<T: Serialize>(cx: &mut Ctx, what: &str, t: &T) -> Result<String, Problem> {
    cx.call("serialise", || serde_json::to_string(t))?
        .map_err(|e| Problem::new(format!("{what}/not writable"), e.to_string()))
}

fn read<T: DeserializeOwned>(cx: &mut Ctx, text: &str) -> Result<Result<T, String>, Problem> {
    cx.call("deserialise", || serde_json::from_str::<T>(text).map_err(|e| e.to_string()))
}

/// Writes `t`, compares with the specification's form, reads it back and writes it again.
fn wire<T: Serialize + DeserializeOwned + Debug>(
    cx: &mut Ctx,
    what: &str,
    t: &T,
    want: &Value,
    equal: impl Fn(&T, &T) -> bool,
) -> Result<(), Problem> {
    let text = write(cx, what, t)?;
    cx.note(|| format!("{what} on the wire: {text}"));
    let v: Value = serde_json::from_str(&text).map_err(|e| Problem::new(format!("{what}/not JSON"), e.to_string()))?;
    if strip(v) != strip(want.clone()) {
        return Err(Problem::new(format!("{what}/wire form"), format!("wanted {want}, got {text}")));
    }
    let back = read::<T>(cx, &text)?.map_err(|e| Problem::new(format!("{what}/not readable"), format!("{e}: {text}")))?;
    if !equal(&back, t) {
        return Err(Problem::new(format!("{what}/reads back different"), format!("{t:?} -> {text} -> {back:?}")));
    }
    let again = write(cx, what, &back)?;
    let v: Value = serde_json::from_str(&again).map_err(|e| Problem::new(format!("{what}/not JSON"), e.to_string()))?;
    if strip(v) != strip(want.clone()) {
        return Err(Problem::new(format!("{what}/second wire form"), format!("wanted {want}, got {again}")));
    }
    Ok(())
}

/// Reads a message somebody else wrote; writing it again loses and adds nothing.
fn foreign<T: Serialize + DeserializeOwned + Debug>(cx: &mut Ctx, what: &str, v: &Value) -> Result<T, Problem> {
    let text = v.to_string();
    cx.note(|| format!("{what} received: {text}"));
    let t = read::<T>(cx, &text)?.map_err(|e| Problem::new(format!("{what}/not readable"), format!("{e}: {text}")))?;
    let again = write(cx, what, &t)?;
    let w: Value = serde_json::from_str(&again).map_err(|e| Problem::new(format!("{what}/not JSON"), e.to_string()))?;
    if strip(w) != strip(v.clone()) {
        return Err(Problem::new(format!("{what}/not preserved"), format!("received {text}, written again {again}")));
    }
    Ok(t)
}

const TEXTS: [&str; 18] = [
    "", "x", "a b", "\"\\\n\t\0", "é\u{1f511}\u{2028}", "null", "{}", "https://a.test/?b=c&d=%20#e", "0", " pad ", "MiXed",
    "%41+b&amp;<c>'", "eyJh.eyJi.s-_", "a\r\nb", "did:key:z6Mk#z6Mk", "\u{feff}e\u{301}\u{7f}", "true", "{0} %s",
];

fn opt(cx: &mut Ctx, name: &'static str, v: &[&str]) -> Option<String> {
    let i = cx.all_n(name, v.len() + 1);
    let r = (i > 0).then(|| s(v[i - 1]));
    cx.note(|| format!("  {name}: {r:?}"));
    r
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug)]
struct Token {
    token: String,
    expires: Option<u32>,
    scope: Option<String>,
    nonce: Option<String>,
    nonce_expires: Option<u32>,
    pending: Option<bool>,
    interval: Option<u32>,
}

impl Token {
    fn json(&self, token_type: &str) -> Value {
        strip(json!({
            "access_token": self.token,
            "token_type": token_type,
            "expires_in": self.expires,
            "scope": self.scope,
            "c_nonce": self.nonce,
            "c_nonce_expires_in": self.nonce_expires,
            "authorization_pending": self.pending,
            "interval": self.interval,
        }))
    }

    fn same(&self, r: &AccessTokenSuccessResponse) -> bool {
        r.access_token == self.token
            && r.token_type == AccessTokenType::Bearer
            && r.expires_in == self.expires
            && r.scope == self.scope
            && r.c_nonce == self.nonce
            && r.c_nonce_expires_in == self.nonce_expires
            && r.authorization_pending == self.pending
            && r.interval == self.interval
    }

    fn validated(&self, cx: &mut Ctx, r: &AccessTokenSuccessResponse) -> Res {
        let want = !(self.nonce_expires.is_some() && self.nonce.is_none());
        let v = cx.call("validate", || r.validate())?;
        if v.is_ok() != want {
            return Err(Problem::new("token-response/validation", format!("{self:?}: {v:?}")));
        }
        Ok(s(if want { "valid" } else { "lifetime without nonce" }))
    }

    fn check(&self, cx: &mut Ctx, now: Nanos) -> Res {
        clock::set(now);
        let t = self.clone();
        let r = cx.call("create_access_token_success_response", || {
            AccessToken::create_access_token_success_response(
                t.token,
                AccessTokenType::Bearer,
                t.expires,
                t.scope,
                t.nonce,
                t.nonce_expires,
                t.pending,
                t.interval,
            )
        });
        clock::release();
        let (r, at) = r?.map_err(|e| Problem::new("token-response/refused", format!("{e:?}: {self:?}")))?;
        cx.note(|| format!("answer: {r:?} at {at}"));
        if !self.same(&r) {
            return Err(Problem::new("token-response/values", format!("given {self:?}, got {r:?}")));
        }
        if clock::nanos(at) != now {
            return Err(Problem::new("token-response/time", format!("now {now}, got {at}")));
        }
        wire(cx, "token-response", &r, &self.json("Bearer"), |a, b| a == b)?;
        self.validated(cx, &r)
    }

    /// As another implementation may write it.
    fn received(&self, cx: &mut Ctx, token_type: &str, nulls: bool) -> Res {
        let mut v = self.json(token_type);
        if nulls {
            for k in ["expires_in", "scope", "c_nonce", "c_nonce_expires_in", "authorization_pending", "interval"] {
                if v.get(k).is_none() {
                    v[k] = Value::Null;
                }
            }
        }
        let text = v.to_string();
        cx.note(|| format!("received: {text}"));
        let r = read::<AccessTokenSuccessResponse>(cx, &text)?;
        match (token_type.eq_ignore_ascii_case("bearer"), r) {
            (true, Ok(r)) if self.same(&r) => self.validated(cx, &r),
            (false, Err(_)) => Ok(s("other token type refused")),
            (_, r) => Err(Problem::new("token-response/reading", format!("{text} -> {r:?}"))),
        }
    }
}

fn cases(word: &str) -> Vec<String> {
    let c: Vec<char> = word.chars().collect();
    (0..1u32 << c.len())
        .map(|m| {
            c.iter()
                .enumerate()
                .map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                .collect()
        })
        .collect()
}

pub fn c17(tier: Tier) -> Vec<Part> {
    let nums: Vec<Option<u32>> = std::iter::once(None).chain(interesting_u32().into_iter().map(Some)).collect();
    let times: [Nanos; 6] = [T0, 0, 1, T0 + 1, T0 + 999_999_999, 253_402_300_799 * SEC];
    let some: &[Option<u32>] = tier.pick(&[None, Some(0), Some(u32::MAX)], &[None, Some(0), Some(1), Some(86_400), Some(1 << 31), Some(u32::MAX)]);
    let sigma: &[char] = &['a', 'r', 'B', ' ', '-', '0', 'é'];
    let mut types = cases("Bearer");
    types.extend(near_misses("Bearer", sigma));
    types.extend(["mac", "DPoP", "N_A", "pop", "Basic", "Bearer,Bearer", "Bearer Token", "ＢＥＡＲＥＲ"].map(s));
    let t2 = types.clone();
    let long17 = stretched();
    vec![
        Part::full("contents", &["valid", "lifetime without nonce"], move |cx| {
            let t = Token {
                token: s(cx.all("token", &TEXTS)),
                expires: *cx.all("expires_in", some),
                scope: opt(cx, "scope", &["", "openid a.b"]),
                nonce: opt(cx, "c_nonce", &["", "tZignsnFbp"]),
                nonce_expires: *cx.all("c_nonce_expires_in", some),
                pending: *cx.all("authorization_pending", &[None, Some(false), Some(true)]),
                interval: *cx.all("interval", some),
            };
            t.check(cx, T0)
        }),
        Part::full("numbers-and-times", &["valid", "lifetime without nonce"], move |cx| {
            let n = *cx.all("number", &nums);
            let mut t = Token {
                token: s("t"),
                expires: Some(300),
                scope: None,
                nonce: Some(s("n")),
                nonce_expires: Some(86_400),
                pending: None,
                interval: Some(5),
            };
            match cx.all_n("place", 3) {
                0 => t.expires = n,
                1 => t.nonce_expires = n,
                _ => t.interval = n,
            }
            if cx.flag("no nonce") {
                t.nonce = None;
            }
            let now = *cx.all("now", &times);
            t.check(cx, now)
        }),
        Part::full("texts", &["valid"], |cx| {
            let t = Token {
                token: s(cx.all("token", &TEXTS)),
                expires: None,
                scope: opt(cx, "scope", &TEXTS),
                nonce: opt(cx, "c_nonce", &TEXTS),
                nonce_expires: None,
                pending: Some(true),
                interval: None,
            };
            t.check(cx, T0)
        }),
        Part::full("long-texts", &["valid"], move |cx| {
            let l = cx.all("text", &long17).clone();
            let mut t = Token {
                token: s("t"),
                expires: Some(300),
                scope: Some(s("a b")),
                nonce: Some(s("n")),
                nonce_expires: Some(86_400),
                pending: *cx.all("authorization_pending", &[None, Some(true)]),
                interval: None,
            };
            match cx.all_n("place", 4) {
                0 => t.token = l,
                1 => t.scope = Some(l),
                2 => t.nonce = Some(l),
                _ => (t.token, t.scope, t.nonce) = (l.clone(), Some(l.clone()), Some(l)),
            }
            if cx.flag("received") {
                t.received(cx, "bearer", false)
            } else {
                t.check(cx, T0)
            }
        }),
        Part::full("received", &["valid", "lifetime without nonce", "other token type refused"], move |cx| {
            let ty = cx.all("token type", &types).clone();
            let t = Token {
                token: s("czZCaGRSa3F0MzpnWDFmQmF0M2JW"),
                expires: *cx.all("expires_in", &[None, Some(86_400)]),
                scope: None,
                nonce: opt(cx, "c_nonce", &["tZignsnFbp"]),
                nonce_expires: *cx.all("c_nonce_expires_in", &[None, Some(86_400)]),
                pending: *cx.all("authorization_pending", &[None, Some(true)]),
                interval: None,
            };
            let nulls = cx.flag("absent written as null");
            t.received(cx, &ty, nulls)
        }),
        Part::full("token-type-names", &["Bearer", "refused"], move |cx| {
            let t = cx.all("name", &t2).clone();
            let a = cx.call("TryFrom<String>", || AccessTokenType::try_from(t.clone()))?;
            let b = read::<AccessTokenType>(cx, &json!(t).to_string())?;
            let want = t.eq_ignore_ascii_case("bearer");
            if a.is_ok() != want || b.is_ok() != want {
                return Err(Problem::new("token-type", format!("{t:?}: {a:?}, read {b:?}")));
            }
            let n: &str = AccessTokenType::Bearer.into();
            let w = write(cx, "token-type", &AccessTokenType::Bearer)?;
            if n != "Bearer" || w != "\"Bearer\"" {
                return Err(Problem::new("token-type/name", format!("{n}, {w}")));
            }
            Ok(s(if want { "Bearer" } else { "refused" }))
        }),
    ]
}

// ---------------------------------------------------------------- C18

fn token_codes() -> Vec<(AC, &'static str)> {
    vec![
        (AC::InvalidRequest, "invalid_request"),
        (AC::InvalidGrant, "invalid_grant"),
        (AC::InvalidClient, "invalid_client"),
        (AC::AccessDenied, "access_denied"),
        (AC::UnsupportedResponseType, "unsupported_response_type"),
        (AC::InvalidScope, "invalid_scope"),
        (AC::ServerError, "server_error"),
        (AC::TemporarilyUnavailable, "temporarily_unavailable"),
    ]
}

fn credential_codes() -> Vec<(CC, &'static str)> {
    vec![
        (CC::InvalidRequest, "invalid_request"),
        (CC::InvalidToken, "invalid_token"),
        (CC::UnsupportedCredentialType, "unsupported_credential_type"),
        (CC::UnsupportedCredentialFormat, "unsupported_credential_format"),
        (CC::InvalidOrMissingProof, "invalid_or_missing_proof"),
    ]
}

/// One name against one code table, by conversion and on the wire.
fn code_name<C>(cx: &mut Ctx, table: &[(C, &'static str)], name: &str) -> Res
where
    C: Clone + PartialEq + Debug + Serialize + DeserializeOwned + TryFrom<String>,
    &'static str: From<C>,
{
    let want = table.iter().find(|(_, n)| *n == name).map(|(c, _)| c.clone());
    let a = cx.call("TryFrom<String>", || C::try_from(name.to_owned()).ok())?;
    if a != want {
        return Err(Problem::new("code/conversion", format!("{name:?} -> {a:?}, should be {want:?}")));
    }
    let b = read::<C>(cx, &json!(name).to_string())?.ok();
    if b != want {
        return Err(Problem::new("code/read", format!("{name:?} on the wire -> {b:?}, should be {want:?}")));
    }
    if let Some(c) = &want {
        let n: &str = cx.call("Into<&str>", || <&str>::from(c.clone()))?;
        if n != name {
            return Err(Problem::new("code/name", format!("{c:?} -> {n:?}")));
        }
        let w = write(cx, "code", c)?;
        if w != json!(name).to_string() {
            return Err(Problem::new("code/written", format!("{c:?} is written {w}")));
        }
    }
    Ok(s(if want.is_some() { "a code" } else { "no code" }))
}

fn universe(sigma: &[char]) -> Vec<String> {
    let names: Vec<&str> = token_codes().iter().map(|c| c.1).chain(credential_codes().iter().map(|c| c.1)).collect();
    let mut v: Vec<String> = names.iter().map(|n| s(n)).collect();
    for n in &names {
        v.extend(near_misses(n, sigma));
        v.push(n.replace('_', "-"));
        v.push(n.replace('_', ""));
        v.push(n.replace('_', " "));
        // the variant's own name and camel case
        let camel: String = n
            .split('_')
            .map(|w| w[..1].to_uppercase() + &w[1..])
            .collect();
        v.push(camel[..1].to_lowercase() + &camel[1..]);
        v.push(camel);
    }
    v.extend(
        ["unsupported_grant_type", "unauthorized_client", "invalid_proof", "invalid_nonce", "slow_down", "authorization_pending", "expired_token", "issuance_pending", "invalid"]
            .map(s),
    );
    v.sort();
    v.dedup();
    v
}

fn details() -> Vec<Option<Value>> {
    vec![
        None,
        Some(json!({})),
        Some(json!({"c_nonce": "8YE9hCnyV2", "c_nonce_expires_in": 86_400})),
        Some(json!({"a": {"b": [1, 2.5, null, true, "é"]}, "": "", "error description": "x"})),
        Some(json!({"Error": "x", "state": "y", "n": -1, "big": u64::MAX})),
        Some(json!({"details": {"error": "inner", "error_description": "inner"}, "code": "c", "error_code": 1, "errors": [], "description": "d", "uri": "u"})),
        Some(Value::Object((0..100).map(|i| (format!("k{i}"), json!(i))).collect())),
        Some(json!({"list": (0..300).collect::<Vec<u32>>(), "authorization_pending": true, "interval": 5, "c_nonce": "", "c_nonce_expires_in": 0})),
        Some(json!({"c_nonce": null, "x": null, "y": 1})),
        Some(json!({"nulls": [null, null], "in": {"x": null}, "empty": {}, "none": [], "no": false, "zero": 0, "text": ""})),
        Some(json!({"z": 1, "a": 2, "M": 3, "m": 4, "10": 5, "9": 6, "é": 7, " ": 8, "a ": 9, "error_": 10, "Error_Description": 11, "errorUri": 12})),
        Some(json!({"f": 1.0, "g": 1e300, "h": -0.0, "i": i64::MIN, "j": 0.1, "k": "1", "l": "true", "m": [[], {}, [{}]], "n": " x "})),
        Some(json!({"deep": {"a": {"b": {"c": {"d": {"e": {"f": [[[[1]]]]}}}}}}, "scope": " ", "access_token": "t", "token_type": "bearer"})),
    ]
}

/// Every number, and every text as a name and as a value, in details of several shapes.
fn all_details() -> Vec<Value> {
    let mut leaves: Vec<Value> = vec![json!(null), json!(true), json!(false), json!([]), json!({}), json!([null]), json!({"x": null}), json!([[], [{}]])];
    for n in crate::util::interesting_u64() {
        leaves.push(json!(n));
        if let Ok(i) = i64::try_from(n) {
            leaves.push(json!(-i));
        }
    }
    leaves.push(json!(i64::MIN));
    leaves.extend([0.0, -0.0, 0.1, 1.0, -1.0, 1.5, 1e16, 1e21, 1e300, -1e-300, f64::MIN_POSITIVE, f64::MAX, 4_294_967_296.0, 9_007_199_254_740_993.0, 1.0 / 3.0].map(|x| json!(x)));
    leaves.extend(crate::util::contents().into_iter().map(Value::from));
    let mut v = vec![];
    for l in leaves {
        v.push(json!({"x": l}));
        v.push(json!({"a": [l, {"b": l}], "c": {"d": {"e": l}}}));
        v.push(json!({"c_nonce": l, "c_nonce_expires_in": l, "interval": l}));
    }
    for t in crate::util::contents() {
        if !["error", "error_description", "error_uri"].contains(&t.as_str()) {
            v.push(Value::Object([(t.clone(), json!(t)), (format!("{t}{t}"), json!({t.as_str(): t}))].into_iter().collect()));
        }
    }
    v
}

/// What an error response is made with.
enum Given<'a> {
    Usual,
    Long(&'a [String]),
    Details(&'a [Value]),
    /// the same texts in several places
    Echoes,
}

fn error_response<C, R>(
    cx: &mut Ctx,
    table: &[(C, &'static str)],
    given: Given,
    make: impl FnOnce(C, Option<String>, Option<String>, Option<Value>) -> Option<R>,
) -> Res
where
    C: Clone + Debug,
    R: Serialize + Debug,
{
    let i = cx.all_n("code", table.len());
    let (c, name) = table[i].clone();
    let (d, u, det) = match given {
        Given::Details(g) => {
            let d = cx.all("details", g).clone();
            if cx.flag("description and URI") { (Some(s("d")), Some(s("u")), Some(d)) } else { (None, None, Some(d)) }
        }
        Given::Long(l) => {
            let t = cx.all("text", l).clone();
            match cx.all_n("place", 4) {
                0 => (Some(t), None, None),
                1 => (Some(s("d")), Some(t), Some(json!({"c_nonce": "n"}))),
                2 => (Some(s("d")), Some(s("u")), Some(json!({"c_nonce": t, "x": [t, {"y": t}]}))),
                _ => (None, None, Some(Value::Object([(t, json!(1)), (s("z"), json!(2))].into_iter().collect()))),
            }
        }
        Given::Echoes => {
            let uri = "https://issuer.test/errors/1";
            let pascal: String = name.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
            let spaced = name.replace('_', " ");
            let mut texts: Vec<String> = table.iter().map(|(_, n)| s(n)).collect();
            texts.extend([pascal, spaced, s(uri), format!("see {uri}"), format!("{uri}: {name}"), s("error"), s("error_description"), s("error_uri"), s("null"), s("")]);
            texts.extend(["d", "none", "unknown", "-", " ", "server_error"].map(s));
            let of = |cx: &mut Ctx, what: &'static str| {
                let i = cx.all_n(what, texts.len() + 1);
                (i < texts.len()).then(|| texts[i].clone())
            };
            let (d, u) = (of(cx, "description"), of(cx, "uri"));
            let (x, y) = (d.clone().unwrap_or_default(), u.clone().unwrap_or_default());
            let det = match cx.all_n("details", 5) {
                0 => None,
                1 => Some(json!({"description": x, "uri": y, "error_code": name})),
                2 => Some(json!({"c_nonce": name, "code": [name, x, y]})),
                3 => Some(json!({"errors": {"error": name, "error_description": x, "error_uri": y}})),
                _ => Some(Value::Object([(s(name), json!(x)), (format!("{name}_description"), json!(y))].into_iter().collect())),
            };
            (d, u, det)
        }
        Given::Usual => (opt(cx, "description", &TEXTS), opt(cx, "uri", &["", "https://issuer.test/e#1", "é\"", " u "]), cx.all("details", &details()).clone()),
    };
    let (d2, u2, det2) = (d.clone(), u.clone(), det.clone());
    let r = cx.call("create error response", || make(c, d2, u2, det2))?;
    let r = r.ok_or(Problem::new("error-response/refused", format!("{name}, {d:?}, {u:?}, {det:?}")))?;
    let text = write(cx, "error-response", &r)?;
    cx.note(|| format!("on the wire: {text}"));
    let mut want = det.unwrap_or(json!({}));
    want["error"] = json!(name);
    want["error_description"] = json!(d);
    want["error_uri"] = json!(u);
    let got: Value = serde_json::from_str(&text).map_err(|e| Problem::new("error-response/not JSON", e.to_string()))?;
    // absent description and URI may be written as null; the details' own nulls are theirs
    let bare = |mut v: Value| {
        if let Value::Object(m) = &mut v {
            m.retain(|k, v| !v.is_null() || !matches!(k.as_str(), "error_description" | "error_uri"));
        }
        v
    };
    if bare(got) != bare(want.clone()) {
        return Err(Problem::new("error-response/wire form", format!("wanted {want}, got {text}")));
    }
    Ok(s("written"))
}

pub fn c18(tier: Tier) -> Vec<Part> {
    let sigma: &[char] = tier.pick(&['a', '_', ' '], &['a', 'z', '_', '-', ' ', 'A', '0', 'é', '\0']);
    let u = universe(sigma);
    let u2 = u.clone();
    let l1 = stretched();
    let l2 = l1.clone();
    vec![
        Part::full("long-token-error-responses", &["written"], move |cx| {
            error_response(cx, &token_codes(), Given::Long(&l1), |c, d, u, v| AccessToken::create_access_token_error_response(c, d, u, v).ok())
        }),
        Part::full("long-credential-error-responses", &["written"], move |cx| {
            error_response(cx, &credential_codes(), Given::Long(&l2), |c, d, u, v| {
                CredentialIssuer::create_credential_error_response(&c, d, u, v).ok()
            })
        }),
        Part::full("token-error-details", &["written"], {
            let all = all_details();
            move |cx| error_response(cx, &token_codes(), Given::Details(&all), |c, d, u, v| AccessToken::create_access_token_error_response(c, d, u, v).ok())
        }),
        Part::full("credential-error-details", &["written"], {
            let all = all_details();
            move |cx| {
                error_response(cx, &credential_codes(), Given::Details(&all), |c, d, u, v| {
                    CredentialIssuer::create_credential_error_response(&c, d, u, v).ok()
                })
            }
        }),
        Part::full("token-code-names", &["a code", "no code"], move |cx| {
            let n = cx.all("name", &u).clone();
            code_name(cx, &token_codes(), &n)
        }),
        Part::full("credential-code-names", &["a code", "no code"], move |cx| {
            let n = cx.all("name", &u2).clone();
            code_name(cx, &credential_codes(), &n)
        }),
        Part::full("token-errors-that-repeat-themselves", &["written"], |cx| {
            error_response(cx, &token_codes(), Given::Echoes, |c, d, u, v| AccessToken::create_access_token_error_response(c, d, u, v).ok())
        }),
        Part::full("credential-errors-that-repeat-themselves", &["written"], |cx| {
            error_response(cx, &credential_codes(), Given::Echoes, |c, d, u, v| {
                CredentialIssuer::create_credential_error_response(&c, d, u, v).ok()
            })
        }),
        Part::full("token-error-responses", &["written"], |cx| {
            error_response(cx, &token_codes(), Given::Usual, |c, d, u, v| AccessToken::create_access_token_error_response(c, d, u, v).ok())
        }),
        Part::full("credential-error-responses", &["written"], |cx| {
            error_response(cx, &credential_codes(), Given::Usual, |c, d, u, v| {
                CredentialIssuer::create_credential_error_response(&c, d, u, v).ok()
            })
        }),
    ]
}

// ---------------------------------------------------------------- C19

/// What an error must report.
struct Kind {
    code: u32,
    name: &'static str,
    /// any of these
    text: Vec<String>,
    data: Value,
}

fn kind(code: u32, name: &'static str, text: impl Into<String>, data: Value) -> Kind {
    Kind { code, name, text: vec![text.into()], data }
}

const VALIDATION: &str = "An error occurred during validation, serialization or deserialization";

fn validation(msg: &str) -> (VE, Kind) {
    let mut k = kind(1, "Any", VALIDATION, json!({ "validation_message": msg }));
    k.text.push(s(msg));
    (VE::Any { validation_message: s(msg) }, k)
}

fn stamp(t: Nanos) -> (chrono::DateTime<chrono::Utc>, Value, String) {
    let d = clock::utc(t).expect("time in range");
    (d, serde_json::to_value(d).expect("time"), d.to_string())
}

/// The contents an error of the `n`-th kind is filled with; only what the kind uses is chosen.
fn jwt_error(cx: &mut Ctx, texts: &[String]) -> (JE, Kind) {
    let n = cx.all_n("kind", 17);
    let (two_texts, times, options) = ([6, 7, 9, 14, 16].contains(&n), [1, 2].contains(&n), [3, 12, 15].contains(&n));
    let t = if [1, 2, 4, 5, 11].contains(&n) { s("") } else { cx.all("text", texts).clone() };
    let u = if !two_texts {
        s("")
    } else if cx.flag("the text in the other place") {
        // both places get each text
        return jwt_error_of(cx, n, s("y"), t, times, options);
    } else {
        s(cx.all("other text", &["y", ""]))
    };
    jwt_error_of(cx, n, t, u, times, options)
}

const ERROR_TIMES: [Nanos; 6] = [0, T0, T0 + 1, T0 + 500_000_000, 253_402_300_799 * SEC, -SEC - 1];

fn jwt_error_of(cx: &mut Ctx, n: usize, t: String, u: String, times: bool, options: bool) -> (JE, Kind) {
    let (x, y) = if times { (*cx.all("time", &ERROR_TIMES), *cx.all("other time", &ERROR_TIMES)) } else { (T0, T0) };
    let ((a, aj, at), (b, bj, bt)) = (stamp(x), stamp(y));
    let bytes = if n == 12 { cx.all("bytes", &[None, Some(vec![]), Some(vec![0u8, 255]), Some(vec![7; 300])]).clone() } else { None };
    let some = if options { cx.all("optional text", &[None, Some(s("")), Some(s("z")), Some(t.clone()), Some(crate::util::long(600))]).clone() } else { None };
    match n {
        0 => {
            let (v, mut k) = validation(&t);
            k.code = 300;
            k.name = "ValidationError";
            k.text.push(s("An error occurred while validating"));
            (JE::ValidationError(v), k)
        }
        1 => (
            JE::NotYetValid { valid_from: a, now: b },
            kind(301, "NotYetValid", format!("JWT is not yet valid. Valid from: {at} and checked at {bt}"), json!({"valid_from": aj, "now": bj})),
        ),
        2 => (
            JE::NotValidAnymore { valid_until: a, now: b },
            kind(302, "NotValidAnymore", format!("JWT is not valid anymore. Valid until: {at} and checked at {bt}"), json!({"valid_until": aj, "now": bj})),
        ),
        3 => (
            JE::IssuerMismatch { expected_iss_in_jwt: Some(t.clone()), actual_iss_in_jwt: some.clone() },
            kind(303, "IssuerMismatch", "`iss` field in the body mismatched with provided client id", json!({"expected_iss_in_jwt": t, "actual_iss_in_jwt": some})),
        ),
        4 => (JE::NoKeyFoundInProof, kind(304, "NoKeyFoundInProof", "No `kid`, `jwk` or `x5c` found in the JWT header", Value::Null)),
        5 => (
            JE::NoDidDocumentProvidedForKidAsDid,
            kind(305, "NoDidDocumentProvidedForKidAsDid", "No did document provided when the `kid` is a did", Value::Null),
        ),
        6 => (
            JE::UnableToTransformIntoDid { kid: t.clone(), message: u.clone() },
            kind(306, "UnableToTransformIntoDid", "Unable to transform did, from `kid`, into a Did type", json!({"kid": t, "message": u})),
        ),
        7 => (
            JE::UnableToResolveDidInDidDocument { did: t.clone(), message: u.clone() },
            kind(307, "UnableToResolveDidInDidDocument", "Unable to find the verification method the did, `kid`, was referring to", json!({"did": t, "message": u})),
        ),
        8 => (
            JE::UnableToMapVerificationMethodToJwk { messsage: t.clone() },
            kind(308, "UnableToMapVerificationMethodToJwk", "Unable to map the verification method to a JWK", json!({ "messsage": t })),
        ),
        9 => (
            JE::UnableToTransformIntoJoseItem { original_string: t.clone(), serde_message: u.clone() },
            kind(309, "UnableToTransformIntoJoseItem", format!("Unable to convert '{t}' into a valid Jose Item"), json!({"original_string": t, "serde_message": u})),
        ),
        10 => (
            JE::UnsupportedAlgorithm { algorithm: t.clone() },
            kind(310, "UnsupportedAlgorithm", format!("supplied algorithm, '{t}' is not valid"), json!({ "algorithm": t })),
        ),
        11 => (
            JE::EdDSAHasNoXCoordinate,
            kind(311, "EdDSAHasNoXCoordinate", "JWK with algorithm of 'edDSA' has no x coordinate", Value::Null),
        ),
        12 => (
            JE::ESXXXHasNoXOrYCoordinate { algorithm: t.clone(), x: bytes.clone(), y: Some(vec![7]) },
            kind(312, "ESXXXHasNoXOrYCoordinate", format!("JWK with algorithm of '{t}' has no 'x' or 'y' coordinate"), json!({"algorithm": t, "x": bytes, "y": [7]})),
        ),
        13 => (
            JE::SignatureNotInJwt { jwt: t.clone() },
            kind(313, "SignatureNotInJwt", "Signature was expected but not found in the JWT", json!({ "jwt": t })),
        ),
        14 => (
            JE::UnsupportedKeyTypeInJwtHeader { key_name: u.clone(), key_type: t.clone() },
            kind(314, "UnsupportedKeyTypeInJwtHeader", format!("Unsupported key type `{t}` found in JWT header"), json!({"key_name": u, "key_type": t})),
        ),
        15 => (
            JE::NonceMismatch { expected_nonce: some.clone(), actual_nonce: t.clone() },
            kind(315, "NonceMismatch", "Expected nonce was not found in the JWT", json!({"expected_nonce": some, "actual_nonce": t})),
        ),
        _ => (
            JE::AudienceMismatch { expected_aud_in_jwt: t.clone(), actual_aud_in_jwt: u.clone() },
            kind(316, "AudienceMismatch", "`aud` field in the body mismatched with provided credential issuer url", json!({"expected_aud_in_jwt": t, "actual_aud_in_jwt": u})),
        ),
    }
}

fn issuer_error(cx: &mut Ctx, texts: &[String]) -> (CE, Kind) {
    let n = cx.all_n("issuer kind", 13);
    if n == 1 {
        let (e, mut k) = jwt_error(cx, texts);
        k.code = 101;
        k.name = "JwtError";
        return (CE::JwtError(e), k);
    }
    let t = if [0, 3, 4, 10].contains(&n) { cx.all("text", texts).clone() } else { s("") };
    let (x, y) = if [6, 11].contains(&n) { (*cx.all("time", &ERROR_TIMES), *cx.all("other time", &ERROR_TIMES)) } else { (T0, T0) };
    let ((a, aj, at), (b, bj, bt)) = (stamp(x), stamp(y));
    match n {
        0 => {
            let (v, mut k) = validation(&t);
            k.code = 100;
            k.name = "ValidationError";
            (CE::ValidationError(v), k)
        }
        2 => (
            CE::AuthorizedFlowNotSupported,
            kind(102, "AuthorizedFlowNotSupported", "The Authorized flow is currently not supported", Value::Null),
        ),
        3 => (
            CE::CredentialIdNotInIssuerMetadata { id: t.clone() },
            kind(103, "CredentialIdNotInIssuerMetadata", format!("The id `{t}` does not refer to a credential format inside the issuer metadata"), json!({ "id": t })),
        ),
        4 => (
            CE::InvalidCredentialOfferEncoding { error_message: t.clone() },
            kind(104, "InvalidCredentialOfferEncoding", "Could not url-encode the credential", json!({ "error_message": t })),
        ),
        5 => {
            let fs = super::issuer::formats();
            let c = fs[cx.all_n("format", fs.len())].clone();
            let m = *cx.all("supported formats", &COUNTS);
            let v: Vec<CredentialFormatProfile> = fs.iter().cycle().take(m).cloned().collect();
            let data = json!({"requested_credential": serde_json::to_value(&c).unwrap(), "supported_formats": serde_json::to_value(&v).unwrap()});
            (
                CE::InvalidRequestedCredential { requested_credential: Box::new(c), supported_formats: v },
                kind(105, "InvalidRequestedCredential", "Requested credential not found in issuer metadata", data),
            )
        }
        6 => {
            let o = if cx.flag("with expiry") { Some(b) } else { None };
            (
                CE::ExpiredCNonce { now: a, expires_in: o },
                kind(106, "ExpiredCNonce", "`c_nonce_expires_in` is not valid anymore.", json!({"now": aj, "expires_in": o.map(|_| bj)})),
            )
        }
        7 => (
            CE::CredentialAndAcceptanceTokenSupplied,
            kind(107, "CredentialAndAcceptanceTokenSupplied", "Credential and acceptance token cannot both be supplied for the success response", Value::Null),
        ),
        8 => (
            CE::AuthorizationServerMetadataNotSupported,
            kind(108, "AuthorizationServerMetadataNotSupported", "Authorization server metadata is not yet supported", Value::Null),
        ),
        9 => (
            CE::CredentialOfferMustBeSupplied,
            kind(109, "CredentialOfferMustBeSupplied", "Credential offer must be supplied, other flows are not supported yet", Value::Null),
        ),
        10 => (
            CE::EvaluteCredentialRequestOptionsNotSupplied { reason: t.clone() },
            kind(110, "EvaluteCredentialRequestOptionsNotSupplied", "evaluate credential request called without options, but were needed", json!({ "reason": t })),
        ),
        11 => (
            CE::CNonceIsExpired { now: a, expiry_timestamp: b },
            kind(111, "CNonceIsExpired", format!("c_nonce expires at {bt} which is before {at}"), json!({"now": aj, "expiry_timestamp": bj})),
        ),
        _ => (
            CE::NoProofInCredentialRequest,
            kind(112, "NoProofInCredentialRequest", "The credential request does not contain a JWT proof", Value::Null),
        ),
    }
}

fn token_error(cx: &mut Ctx, depth: u32, texts: &[String]) -> (AE, Kind) {
    match cx.all_n("token kind", if depth == 0 { 9 } else { 8 }) {
        0 => {
            let (v, mut k) = validation(cx.all("text", texts));
            k.code = 400;
            k.name = "ValidationError";
            (AE::ValidationError(v), k)
        }
        1 => {
            let t = cx.all("text", texts).clone();
            let v = cx.all("accepted", &[vec![], vec![s("a")], vec![s("b"), s(""), s("a")], vec![s("a"), s("a")], (0..70).map(|i| format!("g{i}")).collect()]).clone();
            (
                AE::InvalidGrantType { requested_grant_type: t.clone(), accepted_grant_type: v.clone() },
                kind(401, "InvalidGrantType", "Invalid requested grant type", json!({"requested_grant_type": t, "accepted_grant_type": v})),
            )
        }
        2 => (
            AE::AuthorizedFlowNotSupported,
            kind(402, "AuthorizedFlowNotSupported", "The Authorized flow is currently not supported", Value::Null),
        ),
        3 => (
            AE::NoFlowSupportedInCredentialOffer,
            kind(403, "NoFlowSupportedInCredentialOffer", "Supplied credential offer has no authorized, or pre-authorized, code flow", Value::Null),
        ),
        4 => {
            let (p, c) = (cx.flag("pin"), cx.flag("code"));
            (
                AE::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: p, does_code_match: c },
                kind(404, "InvalidPreAuthorizedCodeFlowValues", "Requested pre-authorized code flow has invalid values", json!({"should_pin_be_supplied": p, "does_code_match": c})),
            )
        }
        5 => {
            let t = cx.all("text", texts).clone();
            (
                AE::OptionsAreRequiredForEvaluation { reason: t.clone() },
                kind(406, "OptionsAreRequiredForEvaluation", "Options are required when evaluating the access token request", json!({ "reason": t })),
            )
        }
        6 => (
            AE::UserPinMismatch,
            kind(407, "UserPinMismatch", "Provided user pin does not match user pin from access token request", Value::Null),
        ),
        7 => (
            AE::CredentialOfferMustBeSupplied,
            kind(409, "CredentialOfferMustBeSupplied", "Access token request is not yet supported without a credential offer", Value::Null),
        ),
        _ => {
            let (a, ka) = token_error(cx, depth + 1, texts);
            let (b, kb) = token_error(cx, depth + 1, texts);
            (
                AE::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error: Box::new(a), pre_authorized_error: Box::new(b) },
                kind(405, "InvalidAuthorizedAndPreAuthorizedCodeFlow", "Both the authorized and pre-authorized are incorrect", json!({"authorized_error": ka.data, "pre_authorized_error": kb.data})),
            )
        }
    }
}

fn information(i: &ErrorInformation, k: &Kind, what: &str) -> Result<(), Problem> {
    let bad = |w: &str| Err(Problem::new(format!("information/{w}/{}", k.name), format!("{what}: {w}: {i:?}")));
    if i.code != k.code {
        return bad("code");
    }
    if i.name != k.name {
        return bad("name");
    }
    if !k.text.contains(&i.description) {
        return bad("description");
    }
    if i.additional_information.clone().unwrap_or(Value::Null) != k.data {
        return bad("data");
    }
    Ok(())
}

fn json_information(v: &Value, k: &Kind, what: &str) -> Result<(), Problem> {
    let i = ErrorInformation {
        code: v["code"].as_u64().and_then(|c| u32::try_from(c).ok()).unwrap_or(u32::MAX),
        name: s(v["name"].as_str().unwrap_or("\0")),
        description: s(v["description"].as_str().unwrap_or("\0")),
        additional_information: v.get("additional_information").cloned(),
    };
    let n = v.as_object().map_or(0, |o| o.keys().filter(|k| !["code", "name", "description", "additional_information"].contains(&k.as_str())).count());
    if n > 0 {
        return Err(Problem::new("information/json", format!("{what}: {v}")));
    }
    information(&i, k, what)
}

/// The error alone, then inside a return object with a history of warnings.
fn reported<Er, T>(
    cx: &mut Ctx,
    r: Result<T, Er>,
    k: Option<&Kind>,
    info: impl Fn(&Er) -> ErrorInformation,
    warnings: &[String],
) -> Res
where
    Result<T, Er>: ToReturnObject<T, ErrorInformation, String>,
    T: Serialize + Clone + PartialEq + Debug,
    Er: Debug,
{
    let what = format!("{r:?}");
    if let (Err(e), Some(k)) = (&r, k) {
        let i = cx.call("information", || info(e))?;
        information(&i, k, &what)?;
        let shown = cx.call("display", || i.to_string())?;
        let v: Value = serde_json::from_str(&shown).map_err(|e| Problem::new("information/display", format!("{e}: {shown}")))?;
        json_information(&v, k, &what)?;
    }
    let mut o: ReturnObject<T, ErrorInformation, String> = cx.call("to_return_object", || r.to_return_object())?;
    for n in 0..=warnings.len() {
        let text = write(cx, "return-object", &o)?;
        cx.note(|| format!("after {n} warnings: {text}"));
        let v: Value = serde_json::from_str(&text).map_err(|e| Problem::new("return-object/not JSON", e.to_string()))?;
        let bad = |w: &str| Err(Problem::new(format!("return-object/{w}"), format!("{what}, {n} warnings: {text}")));
        match (&r, k) {
            (Err(_), Some(k)) => {
                let Some(e) = &o.error else { return bad("no error") };
                information(e, k, &what)?;
                json_information(&v["error"], k, &what)?;
                if o.info.is_some() || v.get("info").map_or(false, |i| !i.is_null()) {
                    return bad("value on failure");
                }
            }
            (Ok(t), _) => {
                if o.error.is_some() || v.get("error").map_or(false, |e| !e.is_null()) {
                    return bad("error on success");
                }
                let want = serde_json::to_value(t).expect("value");
                if o.info.as_ref() != Some(t) || v.get("info").cloned().unwrap_or(Value::Null) != want {
                    return bad("value");
                }
            }
            _ => unreachable!(),
        }
        let have = o.warnings.clone().unwrap_or_default();
        let wire: Vec<Value> = v.get("warnings").and_then(Value::as_array).cloned().unwrap_or_default();
        if have != warnings[..n] || wire != warnings[..n].iter().map(|w| json!(w)).collect::<Vec<_>>() {
            return bad("warnings");
        }
        if n < warnings.len() {
            let w = warnings[n].clone();
            o = cx.call("add_warning", || o.add_warning(w))?;
        }
    }
    Ok(s(if r.is_ok() { "success reported" } else { "error reported" }))
}

pub fn c19(tier: Tier) -> Vec<Part> {
    let words: &[&str] = tier.pick(&["", "a", "b\n\u{1f511}"], &["", "a", "A", "b\n\u{1f511}"]);
    let max = tier.pick(4, 5);
    let two = || vec![s("first"), s("second")];
    let long1 = stretched();
    vec![
        Part::full("token-errors", &["error reported"], move |cx| {
            let (e, k) = token_error(cx, 0, &TEXTS.map(s));
            reported(cx, Err::<u8, _>(e), Some(&k), AE::information, &two())
        }),
        Part::full("issuer-errors", &["error reported"], move |cx| {
            let (e, k) = issuer_error(cx, &TEXTS.map(s));
            reported(cx, Err::<u8, _>(e), Some(&k), CE::information, &two())
        }),
        Part::full("jwt-errors", &["error reported"], move |cx| {
            let (e, k) = jwt_error(cx, &TEXTS.map(s));
            reported(cx, Err::<u8, _>(e), Some(&k), JE::information, &two())
        }),
        Part::full("validation-errors", &["error reported"], move |cx| {
            let (e, k) = validation(cx.all("text", &TEXTS));
            reported(cx, Err::<u8, _>(e), Some(&k), VE::information, &two())
        }),
        Part::full("long-contents", &["error reported", "success reported"], move |cx| {
            let warn = || vec![s("first"), s("second")];
            match cx.all_n("type of error", 6) {
                0 => {
                    // nested: one long, the other short
                    let (e, k) = token_error(cx, 1, &long1);
                    reported(cx, Err::<u8, _>(e), Some(&k), AE::information, &warn())
                }
                1 => {
                    let (e, k) = issuer_error(cx, &long1);
                    reported(cx, Err::<u8, _>(e), Some(&k), CE::information, &warn())
                }
                2 => {
                    let (e, k) = jwt_error(cx, &long1);
                    reported(cx, Err::<u8, _>(e), Some(&k), JE::information, &warn())
                }
                3 => {
                    let (e, k) = validation(cx.all("text", &long1));
                    reported(cx, Err::<u8, _>(e), Some(&k), VE::information, &warn())
                }
                4 => {
                    let t = cx.all("text", &long1).clone();
                    let (inner, ki) = validation(&t);
                    let k = kind(405, "InvalidAuthorizedAndPreAuthorizedCodeFlow", "Both the authorized and pre-authorized are incorrect",
                        json!({"authorized_error": ki.data, "pre_authorized_error": {"reason": t}}));
                    let e = AE::InvalidAuthorizedAndPreAuthorizedCodeFlow {
                        authorized_error: Box::new(AE::ValidationError(inner)),
                        pre_authorized_error: Box::new(AE::OptionsAreRequiredForEvaluation { reason: t }),
                    };
                    reported(cx, Err::<u8, _>(e), Some(&k), AE::information, &warn())
                }
                _ => {
                    let t = cx.all("text", &long1).clone();
                    let w = vec![t.clone(), s("short"), t.clone()];
                    if cx.flag("success") {
                        reported(cx, Ok::<_, AE>(t), None, AE::information, &w)
                    } else {
                        let k = kind(407, "UserPinMismatch", "Provided user pin does not match user pin from access token request", Value::Null);
                        reported(cx, Err::<u8, _>(AE::UserPinMismatch), Some(&k), AE::information, &w)
                    }
                }
            }
        }),
        Part::full("warnings-that-repeat-the-result", &["error reported", "success reported"], |cx| {
            let texts = ["a", "", "{}", "did:ex:1#k"].map(s);
            let repeated = |k: &Kind, n: usize| -> Vec<String> {
                let mut v = k.text.clone();
                v.extend([s(k.name), k.code.to_string(), k.data.to_string(), format!("{}: {}", k.name, k.text[0])]);
                v.extend(k.data.as_object().into_iter().flatten().filter_map(|(_, x)| x.as_str().map(str::to_owned)));
                v.extend(v.clone());
                v.rotate_left(n);
                v
            };
            match cx.all_n("type of error", 5) {
                0 => {
                    let (e, k) = token_error(cx, 0, &texts);
                    let w = repeated(&k, cx.all_n("first", 4));
                    reported(cx, Err::<u8, _>(e), Some(&k), AE::information, &w)
                }
                1 => {
                    let (e, k) = issuer_error(cx, &texts);
                    let w = repeated(&k, cx.all_n("first", 4));
                    reported(cx, Err::<u8, _>(e), Some(&k), CE::information, &w)
                }
                2 => {
                    let (e, k) = jwt_error(cx, &texts);
                    let w = repeated(&k, cx.all_n("first", 4));
                    reported(cx, Err::<u8, _>(e), Some(&k), JE::information, &w)
                }
                3 => {
                    let (e, k) = validation(cx.all("text", &texts));
                    let w = repeated(&k, cx.all_n("first", 4));
                    reported(cx, Err::<u8, _>(e), Some(&k), VE::information, &w)
                }
                _ => {
                    let t = cx.all("text", &texts).clone();
                    let w = vec![t.clone(), json!(t).to_string(), s("x"), t.clone()];
                    reported(cx, Ok::<_, AE>(t), None, AE::information, &w)
                }
            }
        }),
        Part::full("many-warnings", &["error reported", "success reported"], move |cx| {
            let n = *cx.all("warnings", &COUNTS);
            let same = cx.flag("all the same");
            let ws: Vec<String> = (0..n).map(|i| if same { s("w") } else { format!("w{i}") }).collect();
            if cx.flag("success") {
                reported(cx, Ok::<_, AE>(s("v")), None, AE::information, &ws)
            } else {
                let k = kind(407, "UserPinMismatch", "Provided user pin does not match user pin from access token request", Value::Null);
                reported(cx, Err::<u8, _>(AE::UserPinMismatch), Some(&k), AE::information, &ws)
            }
        }),
        Part::full("warning-histories", &["error reported", "success reported"], move |cx| {
            let n = cx.all_n("warnings", max + 1);
            let ws: Vec<String> = (0..n).map(|_| s(cx.all("warning", words))).collect();
            let ok = cx.flag("success");
            match cx.all_n("result", 4) {
                0 => {
                    let k = kind(407, "UserPinMismatch", "Provided user pin does not match user pin from access token request", Value::Null);
                    let r = if ok { Ok(s("value")) } else { Err(AE::UserPinMismatch) };
                    reported(cx, r, Some(&k), AE::information, &ws)
                }
                1 => {
                    let k = kind(103, "CredentialIdNotInIssuerMetadata", "The id `a` does not refer to a credential format inside the issuer metadata", json!({"id": "a"}));
                    let r = if ok { Ok(vec![1u8, 2]) } else { Err(CE::CredentialIdNotInIssuerMetadata { id: s("a") }) };
                    reported(cx, r, Some(&k), CE::information, &ws)
                }
                2 => {
                    let k = kind(304, "NoKeyFoundInProof", "No `kid`, `jwk` or `x5c` found in the JWT header", Value::Null);
                    let r = if ok { Ok(json!({"a": 1})) } else { Err(JE::NoKeyFoundInProof) };
                    reported(cx, r, Some(&k), JE::information, &ws)
                }
                _ => {
                    let (e, k) = validation("m");
                    reported(cx, if ok { Ok(()) } else { Err(e) }, Some(&k), VE::information, &ws)
                }
            }
        }),
    ]
}

// ---------------------------------------------------------------- C23

/// A claim description in the specification's form.
fn claim(cx: &mut Ctx) -> Value {
    match cx.all_n("claim", 6) {
        0 => json!({}),
        1 => json!({"mandatory": true}),
        2 => json!({"value_type": "image/jpeg", "mandatory": false}),
        3 => json!({"display": [{"name": "Given Name", "locale": "en-US"}, {"name": "Vorname"}, {}]}),
        4 => json!({"value_type": "", "display": []}),
        _ => json!({"value_type": "string", "mandatory": true, "display": [{"locale": "é"}]}),
    }
}

/// A credential format description in the specification's form.
fn format_json(cx: &mut Ctx) -> Value {
    let types = cx.all("types", &[json!(["VerifiableCredential", "T"]), json!([]), json!(["é\"\n", "", "x", "x"])]).clone();
    let order = cx.all("order", &[None, Some(json!(["b", "a"])), Some(json!([]))]).clone();
    let n = cx.all_n("claims: none, empty, one, two", 4);
    let claims = match n {
        0 => None,
        1 => Some(json!({})),
        _ => {
            let mut m = Map::new();
            m.insert(s("given_name"), claim(cx));
            if n == 3 {
                m.insert(s(cx.all("claim name", &["a.b", "", "value_type"])), json!({"mandatory": true}));
            }
            Some(Value::Object(m))
        }
    };
    let mut v = match cx.all_n("format", 4) {
        0 => json!({"format": "jwt_vc_json", "types": types, "credentialSubject": claims}),
        1 => json!({"format": "jwt_vc_json-ld", "types": types, "credentialSubject": claims}),
        2 => {
            let c = cx
                .all("context", &[
                    json!([]),
                    json!(["https://www.w3.org/2018/credentials/v1", {"@vocab": "x", "n": [1, null, {"y": 2.5}]}]),
                    json!(["é\"", "", {}]),
                ])
                .clone();
            json!({"format": "ldp_vc", "@context": c, "types": types, "credentialSubject": claims})
        }
        _ => json!({"format": "mso_mdoc", "doctype": cx.all("doctype", &["org.iso.18013.5.1.mDL", "", "é\"\n"]), "claims": claims}),
    };
    v["order"] = json!(order);
    // contexts may contain null of their own; only absent members go
    if let Value::Object(o) = &mut v {
        o.retain(|_, v| !v.is_null());
    }
    v
}

fn display_json(cx: &mut Ctx) -> Value {
    let n = cx.all_n("display: none, empty, name, full, two, logo parts", 6);
    match n {
        0 => Value::Null,
        1 => json!([]),
        2 => json!([{"name": "University Credential"}]),
        3 => json!([{"name": "é\"", "locale": "en-US", "logo": {"url": "https://a.test/l.png", "alt_text": "a square logo"},
            "description": "d", "background_color": "#12107c", "text_color": "#FFFFFF"}]),
        4 => json!([{"name": "", "locale": ""}, {"name": "b", "text_color": "red"}]),
        _ => json!([{"name": "n", "logo": {}}, {"name": "n", "logo": {"url": "u"}}, {"name": "n", "logo": {"alt_text": "a"}}]),
    }
}

fn supported_json(cx: &mut Ctx, format: Value) -> Value {
    let mut v = format;
    v["id"] = json!(opt(cx, "id", &["UniversityDegree_JWT", "", "é\""]));
    v["cryptographic_binding_methods_supported"] =
        cx.all("binding methods", &[Value::Null, json!(["did:example", "jwk"]), json!([])]).clone();
    v["cryptographic_suites_supported"] = cx.all("suites", &[Value::Null, json!(["ES256K", "Ed25519Signature2018"])]).clone();
    v["display"] = display_json(cx);
    if let Value::Object(o) = &mut v {
        o.retain(|_, v| !v.is_null());
    }
    v
}

fn plain_formats() -> Vec<Value> {
    vec![
        json!({"format": "jwt_vc_json", "types": ["VerifiableCredential"], "credentialSubject": {"given_name": {"mandatory": true, "value_type": "string", "display": [{"name": "N"}]}}}),
        json!({"format": "jwt_vc_json-ld", "types": ["T"], "order": ["a"]}),
        json!({"format": "ldp_vc", "@context": ["https://www.w3.org/2018/credentials/v1"], "types": ["VerifiableCredential"]}),
        json!({"format": "mso_mdoc", "doctype": "org.iso.18013.5.1.mDL"}),
    ]
}

/// The structure a wire form stands for, built by hand and not by reading it.
fn profile(v: &Value) -> CredentialFormatProfile {
    let st = |k: &str| v[k].as_array().map(|a| a.iter().map(|x| s(x.as_str().expect("text"))).collect::<Vec<String>>());
    let claims = |k: &str| {
        v[k].as_object().map(|o| {
            o.iter()
                .map(|(n, c)| {
                    let display = c["display"].as_array().map(|a| {
                        a.iter()
                            .map(|d| openid4vci::types::credential::CredentialSubjectDisplay {
                                name: d["name"].as_str().map(s),
                                locale: d["locale"].as_str().map(s),
                            })
                            .collect()
                    });
                    let c = openid4vci::types::credential::CredentialSubject {
                        mandatory: c["mandatory"].as_bool(),
                        value_type: c["value_type"].as_str().map(s),
                        display,
                    };
                    (n.clone(), c)
                })
                .collect()
        })
    };
    match v["format"].as_str().expect("format") {
        "jwt_vc_json" => CredentialFormatProfile::JwtVcJson {
            types: st("types").expect("types"),
            credential_subject: claims("credentialSubject"),
            order: st("order"),
        },
        "jwt_vc_json-ld" => CredentialFormatProfile::JwtVcJsonLd {
            types: st("types").expect("types"),
            credential_subject: claims("credentialSubject"),
            order: st("order"),
        },
        "ldp_vc" => CredentialFormatProfile::LdpVc {
            context: v["@context"]
                .as_array()
                .expect("context")
                .iter()
                .map(|c| match c {
                    Value::String(t) => LinkedDataContext::String(t.clone()),
                    c => LinkedDataContext::Map(c.as_object().expect("map").clone().into_iter().collect()),
                })
                .collect(),
            types: st("types").expect("types"),
            credential_subject: claims("credentialSubject"),
            order: st("order"),
        },
        _ => CredentialFormatProfile::MsoMdoc {
            doctype: s(v["doctype"].as_str().expect("doctype")),
            claims: claims("claims"),
            order: st("order"),
        },
    }
}

/// Compares without dropping nulls inside free-form values.
fn exact(cx: &mut Ctx, what: &str, p: &CredentialFormatProfile, want: &Value) -> Result<(), Problem> {
    let text = write(cx, what, p)?;
    let v: Value = serde_json::from_str(&text).map_err(|e| Problem::new(format!("{what}/not JSON"), e.to_string()))?;
    if v["@context"] != want["@context"] {
        return Err(Problem::new(format!("{what}/context"), format!("wanted {want}, got {text}")));
    }
    Ok(())
}

fn request_check(cx: &mut Ctx, format: &Value, proof: &Option<(Option<String>, String)>) -> Res {
    let mut v = format.clone();
    if let Some((t, j)) = proof {
        v["proof"] = json!({ "jwt": j });
        if let Some(t) = t {
            v["proof"]["proof_type"] = json!(t);
        }
    }
    let text = v.to_string();
    cx.note(|| format!("request received: {text}"));
    let r = read::<CredentialRequest>(cx, &text)?
        .map_err(|e| Problem::new("request/not readable", format!("{e}: {text}")))?;
    let want = profile(format);
    let same = match (&r.proof, proof) {
        (None, None) => true,
        (Some(p), Some((t, j))) => {
            p.jwt == *j
                && match t {
                    Some(t) => p.proof_type == *t,
                    None => p.proof_type.eq_ignore_ascii_case("jwt"),
                }
        }
        _ => false,
    };
    if r.format != want || !same {
        return Err(Problem::new("request/values", format!("{text} -> {r:?}")));
    }
    // and written by the library
    let built = CredentialRequest {
        format: want,
        proof: proof.as_ref().map(|(t, j)| CredentialRequestProof { proof_type: t.clone().unwrap_or(s("jwt")), jwt: j.clone() }),
    };
    let mut w = v;
    if let Some((None, _)) = proof {
        w["proof"]["proof_type"] = json!("jwt");
    }
    wire(cx, "request", &built, &w, |a, b| {
        a.format == b.format
            && a.proof.as_ref().map(|p| (&p.proof_type, &p.jwt)) == b.proof.as_ref().map(|p| (&p.proof_type, &p.jwt))
    })?;
    Ok(s("survives"))
}

/// Where a text stands in a document: paths to the texts, the lists and the maps of claims.
fn places(v: &Value, at: &str, texts: &mut Vec<String>, lists: &mut Vec<String>) {
    match v {
        Value::String(_) if !at.ends_with("/format") && !at.ends_with("/token_type") => texts.push(s(at)),
        Value::Array(a) => {
            lists.push(s(at));
            for (i, x) in a.iter().enumerate() {
                places(x, &format!("{at}/{i}"), texts, lists);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                places(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), texts, lists);
            }
        }
        _ => {}
    }
}

/// The specification's form of a format description, written without the library.
pub fn spec_format(c: &CredentialFormatProfile) -> Value {
    let claims = |c: &Option<std::collections::HashMap<String, openid4vci::types::credential::CredentialSubject>>| match c {
        None => Value::Null,
        Some(c) => Value::Object(
            c.iter()
                .map(|(k, c)| {
                    let mut m = Map::new();
                    if let Some(x) = c.mandatory {
                        m.insert(s("mandatory"), json!(x));
                    }
                    if let Some(x) = &c.value_type {
                        m.insert(s("value_type"), json!(x));
                    }
                    if let Some(x) = &c.display {
                        let display: Vec<Value> = x
                            .iter()
                            .map(|d| {
                                let mut m = Map::new();
                                if let Some(x) = &d.name {
                                    m.insert(s("name"), json!(x));
                                }
                                if let Some(x) = &d.locale {
                                    m.insert(s("locale"), json!(x));
                                }
                                Value::Object(m)
                            })
                            .collect();
                        m.insert(s("display"), json!(display));
                    }
                    (k.clone(), Value::Object(m))
                })
                .collect(),
        ),
    };
    let mut v = match c {
        CredentialFormatProfile::JwtVcJson { types, credential_subject, order } => {
            json!({"format": "jwt_vc_json", "types": types, "credentialSubject": claims(credential_subject), "order": order})
        }
        CredentialFormatProfile::JwtVcJsonLd { types, credential_subject, order } => {
            json!({"format": "jwt_vc_json-ld", "types": types, "credentialSubject": claims(credential_subject), "order": order})
        }
        CredentialFormatProfile::LdpVc { context, types, credential_subject, order } => {
            let context: Vec<Value> = context
                .iter()
                .map(|c| match c {
                    LinkedDataContext::String(t) => json!(t),
                    LinkedDataContext::Map(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
                })
                .collect();
            json!({"format": "ldp_vc", "@context": context, "types": types, "credentialSubject": claims(credential_subject), "order": order})
        }
        CredentialFormatProfile::MsoMdoc { doctype, claims: c, order } => {
            json!({"format": "mso_mdoc", "doctype": doctype, "claims": claims(c), "order": order})
        }
    };
    if let Value::Object(o) = &mut v {
        o.retain(|_, x| !x.is_null());
    }
    v
}

/// Equal, but for members that are null in `got` and absent in `want`.
pub fn same_but_nulls(got: &Value, want: &Value) -> bool {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => {
            w.iter().all(|(k, x)| g.get(k).is_some_and(|y| same_but_nulls(y, x))) && g.iter().all(|(k, y)| y.is_null() || w.contains_key(k))
        }
        (Value::Array(g), Value::Array(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| same_but_nulls(a, b)),
        (g, w) => g == w,
    }
}

/// Paths to everything in a document.
fn nodes(v: &Value, at: &str, out: &mut Vec<String>) {
    out.push(s(at));
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| nodes(x, &format!("{at}/{i}"), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| nodes(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
        _ => {}
    }
}

/// The document with one thing in it changed in any way its type allows: flags
/// turned, texts and numbers replaced, lists emptied, cut, doubled, turned, members
/// that may be absent left out.
pub fn variations(v: &Value) -> Vec<Value> {
    const REQUIRED: [&str; 14] = [
        "format", "types", "doctype", "@context", "credential_issuer", "credential_endpoint", "credentials_supported", "credentials",
        "grants", "pre-authorized_code", "jwt", "proof_type", "access_token", "c_nonce",
    ];
    let mut paths = vec![];
    nodes(v, "", &mut paths);
    let mut out = vec![v.clone()];
    for p in &paths {
        let (parent, last) = p.rsplit_once('/').unwrap_or(("", ""));
        let free = p.contains("@context/");
        let mut put = |x: Value| {
            let mut d = v.clone();
            *d.pointer_mut(p).expect("place") = x;
            if !out.contains(&d) {
                out.push(d);
            }
        };
        match v.pointer(p).expect("place") {
            Value::Bool(b) => put(json!(!b)),
            Value::String(_) if ["format", "token_type", "proof_type"].contains(&last) => {}
            Value::String(t) => {
                for y in ["", " ", "x", "null", "\u{e9}\u{1f511}\"\\\n"] {
                    put(json!(y));
                }
                put(json!(format!("{t} ")));
            }
            Value::Number(_) => [json!(0), json!(1), json!(u32::MAX), json!(u32::MAX - 1)].into_iter().for_each(&mut put),
            Value::Array(a) => {
                put(json!([]));
                put(json!(a[..a.len().min(1)]));
                put(json!(a.iter().rev().collect::<Vec<_>>()));
                put(json!(a.iter().chain(a).collect::<Vec<_>>()));
            }
            Value::Object(o) if free || ["credentialSubject", "claims"].contains(&last) || parent.ends_with("/credentialSubject") || parent.ends_with("/claims") => {
                put(json!({}));
                let _ = o;
            }
            _ => {}
        }
        // a supported credential's display must have a name
        let named = last == "name" && !p.contains("credentialSubject") && !p.contains("claims");
        if !REQUIRED.contains(&last) && last != "token_type" && !named && last.parse::<usize>().is_err() && !p.is_empty() {
            let mut d = v.clone();
            d.pointer_mut(parent).and_then(Value::as_object_mut).map(|o| o.remove(&last.replace("~1", "/").replace("~0", "~")));
            if !out.contains(&d) {
                out.push(d);
            }
        }
    }
    out
}

/// Every variation of the four rich format descriptions, and of some variations again.
pub fn format_docs() -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    for (what, v) in rich() {
        if what != "request" {
            continue;
        }
        let mut v = v;
        v.as_object_mut().expect("object").remove("proof");
        for x in variations(&v) {
            out.push(x);
        }
        // flags and members of claims once more, two at a time
        let k = if v["claims"].is_object() { "claims" } else { "credentialSubject" };
        for claims in [
            json!({"a": {"mandatory": false}, "b": {"mandatory": false, "value_type": ""}, "c": {"mandatory": true, "display": []}}),
            json!({"a": {"mandatory": false, "display": [{}]}, "": {}, "B": {"display": [{"name": ""}, {"locale": ""}, {}]}}),
            json!({"z": {"value_type": "x"}, "y": {"mandatory": false}, "x": {"mandatory": true}}),
        ] {
            let mut d = v.clone();
            d[k] = claims;
            out.extend(variations(&d));
        }
    }
    out
}

pub fn format_of(v: &Value) -> CredentialFormatProfile {
    profile(v)
}

/// One rich message of every type that is read.
fn rich() -> Vec<(&'static str, Value)> {
    let claims = json!({"given_name": {"mandatory": true, "value_type": "string", "display": [{"name": "Name", "locale": "en"}, {"name": "N"}]}, "last_name": {}});
    let sup = |f: usize| {
        let mut v = match f {
            0 => json!({"format": "jwt_vc_json", "types": ["VerifiableCredential", "T"], "credentialSubject": claims}),
            1 => json!({"format": "jwt_vc_json-ld", "types": ["VerifiableCredential", "T"], "credentialSubject": claims}),
            2 => json!({"format": "ldp_vc", "@context": ["https://www.w3.org/2018/credentials/v1", {"x": ["y", {"z": "w"}]}], "types": ["A", "B"], "credentialSubject": claims}),
            _ => json!({"format": "mso_mdoc", "doctype": "org.iso.18013.5.1.mDL", "claims": claims}),
        };
        v["order"] = json!(["given_name", "last_name"]);
        v["id"] = json!(format!("id-{f}"));
        v["cryptographic_binding_methods_supported"] = json!(["did:example", "jwk"]);
        v["cryptographic_suites_supported"] = json!(["ES256K", "EdDSA"]);
        v["display"] = json!([{"name": "é", "locale": "en-US", "logo": {"url": "https://a.test/l.png", "alt_text": "a logo"},
            "description": "d", "background_color": "#12107c", "text_color": "#FFFFFF"}, {"name": "b"}]);
        v
    };
    let bare = |f: usize| {
        let mut v = sup(f);
        for k in ["id", "cryptographic_binding_methods_supported", "cryptographic_suites_supported", "display"] {
            v.as_object_mut().expect("object").remove(k);
        }
        v
    };
    let mut out: Vec<(&'static str, Value)> = (0..4).map(|f| ("supported", sup(f))).collect();
    out.push((
        "metadata",
        json!({"credential_issuer": "https://issuer.test", "credential_endpoint": "https://issuer.test/c", "authorization_server": "https://as.test",
            "batch_credential_endpoint": "https://issuer.test/b", "credentials_supported": [sup(0), sup(3)],
            "display": [{"name": "U", "locale": "de"}], "x": {"y": ["z"]}}),
    ));
    out.push((
        "offer",
        json!({"credential_issuer": "https://issuer.test", "credentials": ["id-0", bare(2), "id-1"],
            "grants": {"authorization_code": {"issuer_state": "st"},
                "urn:ietf:params:oauth:grant-type:pre-authorized_code": {"pre-authorized_code": "code", "user_pin_required": true}}}),
    ));
    for f in 0..4 {
        let mut v = bare(f);
        v["proof"] = json!({"proof_type": "jwt", "jwt": "a.b.c"});
        out.push(("request", v));
    }
    out.push(("token-response", json!({"access_token": "t", "token_type": "Bearer", "scope": "a b", "c_nonce": "n", "c_nonce_expires_in": 5})));
    out.push(("credential-response", json!({"format": "ldp_vc", "credential": bare(2), "c_nonce": "n", "c_nonce_expires_in": 5})));
    out.push(("credential-response", json!({"format": "jwt_vc_json", "acceptance_token": "at", "c_nonce": "n"})));
    out
}

fn survives(cx: &mut Ctx, what: &str, v: &Value) -> Res {
    match what {
        "supported" => foreign::<CredentialSupported>(cx, what, v).map(|_| ()),
        "metadata" => foreign::<CredentialIssuerMetadata>(cx, what, v).map(|_| ()),
        "offer" => foreign::<CredentialOffer>(cx, what, v).map(|_| ()),
        "request" => foreign::<CredentialRequest>(cx, what, v).map(|_| ()),
        "token-response" => foreign::<AccessTokenSuccessResponse>(cx, what, v).map(|_| ()),
        _ => foreign::<CredentialSuccessResponse>(cx, what, v).map(|_| ()),
    }?;
    Ok(s("survives"))
}

pub fn c23(tier: Tier) -> Vec<Part> {
    let _ = tier;
    let all_texts: Vec<String> = TEXTS.map(s).into_iter().chain(stretched()).collect();
    let (text2, text2b) = (all_texts.clone(), all_texts.clone());
    let known = |site: &'static str, v: Value, path: &'static str| move |cx: &mut Ctx| -> Res {
        match foreign::<CredentialSupported>(cx, "supported", &v) {
            Ok(_) => Ok(s("survives")),
            Err(p) if p.site == "supported/not preserved" => {
                // only this loss is the recorded one
                let text = v.to_string();
                let t = read::<CredentialSupported>(cx, &text)?.map_err(|e| Problem::new("supported/not readable", e))?;
                let again: Value = serde_json::from_str(&write(cx, "supported", &t)?).expect("JSON");
                let mut a = strip(again);
                let mut b = strip(v.clone());
                for x in [&mut a, &mut b] {
                    if let Some(p) = x.pointer_mut(path) {
                        *p = Value::Null;
                    }
                    *x = strip(x.clone());
                }
                if a == b {
                    Err(Problem::new(site, format!("{v} is written again without {path}")))
                } else {
                    Err(p)
                }
            }
            Err(p) => Err(p),
        }
    };
    vec![
        Part::full("variations", &["survives"], {
            let all: Vec<(&'static str, Value)> = rich().into_iter().flat_map(|(w, v)| variations(&v).into_iter().map(move |x| (w, x))).collect();
            move |cx| {
                let (what, v) = cx.all("message", &all);
                survives(cx, what, v)
            }
        }),
        Part::full("format-variations", &["survives"], {
            let all = format_docs();
            move |cx| {
                let v = cx.all("format", &all).clone();
                request_check(cx, &v, &None)
            }
        }),
        Part::full("formats", &["survives"], |cx| {
            let v = format_json(cx);
            let p = profile(&v);
            wire(cx, "format", &p, &v, |a, b| a == b)?;
            exact(cx, "format", &p, &v)?;
            let q: CredentialFormatProfile = foreign(cx, "format", &v)?;
            if q != p {
                return Err(Problem::new("format/values", format!("{v} -> {q:?}")));
            }
            Ok(s("survives"))
        }),
        Part::full("supported-credentials", &["survives"], |cx| {
            let f = cx.all("format", &plain_formats()).clone();
            let v = supported_json(cx, f);
            let c: CredentialSupported = foreign(cx, "supported", &v)?;
            wire(cx, "supported", &c, &v, |a, b| a == b)?;
            let bad = |w: &str| Err(Problem::new(format!("supported/{w}"), format!("{v} -> {c:?}")));
            if c.format != profile(&v) {
                return bad("format");
            }
            if json!(c.id) != v["id"] || json!(c.cryptographic_suites_supported) != v["cryptographic_suites_supported"] {
                return bad("id or suites");
            }
            let d: Vec<Value> = c.display.iter().flatten().map(|d| serde_json::to_value(d).unwrap()).map(strip).collect();
            if c.display.is_some() != v.get("display").is_some() || Value::Array(d) != strip(v.get("display").cloned().unwrap_or(json!([]))) {
                return bad("display");
            }
            Ok(s("survives"))
        }),
        Part::full("supported-credentials-all-formats", &["survives"], |cx| {
            let f = format_json(cx);
            let mut v = f;
            v["id"] = json!("x");
            v["cryptographic_binding_methods_supported"] = json!(["did"]);
            v["display"] = json!([{"name": "n"}]);
            foreign::<CredentialSupported>(cx, "supported", &v)?;
            Ok(s("survives"))
        }),
        Part::full("every-text-everywhere", &["survives"], move |cx| {
            let docs = rich();
            let (what, mut v) = docs[cx.all_n("message", docs.len())].clone();
            let (mut texts, mut lists) = (vec![], vec![]);
            places(&v, "", &mut texts, &mut lists);
            let at = cx.all("place", &texts).clone();
            *v.pointer_mut(&at).expect("place") = json!(cx.all("text", &all_texts));
            survives(cx, what, &v)
        }),
        Part::full("lists-of-every-length", &["survives"], move |cx| {
            let docs = rich();
            let (what, mut v) = docs[cx.all_n("message", docs.len())].clone();
            let (mut texts, mut lists) = (vec![], vec![]);
            places(&v, "", &mut texts, &mut lists);
            if lists.is_empty() {
                return Ok(s("survives"));
            }
            let at = cx.all("list", &lists).clone();
            let n = *cx.all("entries", &COUNTS);
            let same = cx.flag("all the same");
            let l = v.pointer_mut(&at).expect("place");
            let old = l.as_array().expect("list").clone();
            *l = (0..n)
                .map(|i| match &old[if same { 0 } else { i % old.len() }] {
                    Value::String(t) if !same => json!(format!("{t}{i}")),
                    x => {
                        let mut x = x.clone();
                        if !same && x.get("id").is_some() {
                            x["id"] = json!(format!("id{i}"));
                        }
                        x
                    }
                })
                .collect();
            survives(cx, what, &v)
        }),
        Part::full("claims-of-every-number-and-name", &["survives"], move |cx| {
            let docs = rich();
            let f = cx.all_n("format", 4);
            let mut v = docs[f].1.clone();
            let k = if f == 3 { "claims" } else { "credentialSubject" };
            let inner = v[k]["given_name"].clone();
            v[k] = if cx.flag("many") {
                Value::Object((0..*cx.all("claims", &COUNTS)).map(|i| (format!("claim{i}"), inner.clone())).collect())
            } else {
                let t = cx.all("name", &text2).clone();
                Value::Object([(t, inner), (s("other"), json!({}))].into_iter().collect())
            };
            survives(cx, "supported", &v)
        }),
        Part::full("unknown-metadata-parameters", &["survives"], move |cx| {
            let docs = rich();
            let mut v = docs[4].1.clone();
            let known = ["credential_issuer", "credential_endpoint", "authorization_server", "batch_credential_endpoint", "credentials_supported", "display"];
            let names: Vec<String> = known
                .iter()
                .flat_map(|k| {
                    let mut camel = String::new();
                    for (i, w) in k.split('_').enumerate() {
                        camel += &if i == 0 { s(w) } else { w[..1].to_uppercase() + &w[1..] };
                    }
                    [camel, k.to_uppercase(), k.replace('_', "-"), format!("{k}s"), format!("{k} "), format!("_{k}"), format!("x_{k}"), format!("$.{k}")]
                })
                .chain(text2b.iter().cloned())
                .collect();
            let n = cx.all("name", &names).clone();
            let x = cx
                .all("value", &[json!("t"), json!(0), json!(-1), json!(u64::MAX), json!(i64::MIN), json!(0.1), json!(1e300), json!([]), json!({}), json!([{"credential_issuer": [1]}]), json!(false), json!(""), json!(null), json!([null]), json!({"a": null}), json!([[null], {"b": [{"c": null}]}])])
                .clone();
            if cx.flag("alone") {
                for k in ["display", "x"] {
                    v.as_object_mut().expect("object").remove(k);
                }
            }
            v[&n] = x.clone();
            survives(cx, "metadata", &v)?;
            // even an explicit null, which the comparison above overlooks
            let t = read::<CredentialIssuerMetadata>(cx, &v.to_string())?.map_err(|e| Problem::new("metadata/not readable", e))?;
            let again: Value = serde_json::from_str(&write(cx, "metadata", &t)?).expect("JSON");
            if again.get(&n) != Some(&x) {
                return Err(Problem::new("metadata/unknown parameter", format!("{n:?}: {x} is written again as {:?}", again.get(&n))));
            }
            Ok(s("survives"))
        }),
        Part::full("issuer-metadata", &["survives"], |cx| {
            let mut v = json!({
                "credential_issuer": cx.all("issuer", &TEXTS),
                "credential_endpoint": cx.all("endpoint", &["https://issuer.test/credential", "", "é\""]),
            });
            v["authorization_server"] = json!(opt(cx, "authorization server", &["", "https://as.test"]));
            v["batch_credential_endpoint"] = json!(opt(cx, "batch endpoint", &["https://issuer.test/batch"]));
            let f = plain_formats();
            let n = cx.all_n("supported credentials", 4);
            v["credentials_supported"] = (0..n)
                .map(|i| {
                    let mut c = f[(i + n) % 4].clone();
                    if i % 2 == 0 {
                        c["id"] = json!(format!("id-{i}"));
                    }
                    c["cryptographic_binding_methods_supported"] = json!([i]).as_array().map(|_| json!(["did"])).unwrap();
                    c
                })
                .collect();
            match cx.all_n("unknown parameters", 5) {
                0 => {}
                1 => v["display"] = json!([{"name": "Example University", "locale": "en-US"}]),
                2 => {
                    v["deferred_credential_endpoint"] = json!("https://issuer.test/deferred");
                    v["x"] = json!({"a": [1, -1, 2.5, u64::MAX, true, {"b": "é"}]});
                }
                3 => v[""] = json!(0),
                _ => v["format"] = json!("jwt_vc_json"),
            }
            if let Value::Object(o) = &mut v {
                o.retain(|_, v| !v.is_null());
            }
            let m: CredentialIssuerMetadata = foreign(cx, "metadata", &v)?;
            if json!(m.credential_issuer) != v["credential_issuer"]
                || json!(m.credential_endpoint) != v["credential_endpoint"]
                || json!(m.authorization_server) != v["authorization_server"]
                || json!(m.batch_credential_endpoint) != v["batch_credential_endpoint"]
                || m.credentials_supported.len() != n
            {
                return Err(Problem::new("metadata/values", format!("{v} -> {m:?}")));
            }
            Ok(s("survives"))
        }),
        Part::full("offers", &["survives"], |cx| {
            let t = cx.all("text", &TEXTS).to_string();
            let f = plain_formats();
            let n = cx.all_n("entries", 3);
            let es: Vec<Value> = (0..n)
                .map(|_| match cx.all_n("entry", 2 + f.len()) {
                    0 => json!(t),
                    1 => json!("UniversityDegree_JWT"),
                    k => f[k - 2].clone(),
                })
                .collect();
            let auth = *cx.all("authorization-code grant", &[None, Some(false), Some(true)]);
            let pin = *cx.all("pre-authorized grant, pin", &[None, Some(None), Some(Some(false)), Some(Some(true))]);
            let mut g = json!({});
            if let Some(st) = auth {
                g["authorization_code"] = if st { json!({ "issuer_state": t }) } else { json!({}) };
            }
            if let Some(p) = pin {
                let mut m = json!({ "pre-authorized_code": t });
                if let Some(p) = p {
                    m["user_pin_required"] = json!(p);
                }
                g["urn:ietf:params:oauth:grant-type:pre-authorized_code"] = m;
            }
            let v = json!({"credential_issuer": t, "credentials": es, "grants": g});
            let a = auth.map(|st| AuthorizedCodeFlow { issuer_state: st.then(|| t.clone()) });
            let p = pin.map(|p| PreAuthorizedCodeFlow { code: t.clone(), user_pin_required: p });
            let list = es
                .iter()
                .map(|e| match e {
                    Value::String(i) => CredentialOrId::CredentialId(i.clone()),
                    e => CredentialOrId::Credential(profile(e)),
                })
                .collect();
            let o = CredentialOffer::new(&t, CredentialOrIds::new(list), &a, &p);
            wire(cx, "offer", &o, &v, |a, b| a == b)?;
            let q: CredentialOffer = foreign(cx, "offer", &v)?;
            if q != o {
                return Err(Problem::new("offer/values", format!("{v} -> {q:?}")));
            }
            Ok(s("survives"))
        }),
        Part::full("requests", &["survives"], |cx| {
            let f = cx.all("format", &plain_formats()).clone();
            let proof = if cx.flag("proof") {
                Some((opt(cx, "proof type", &["jwt", "JWT", "cwt", ""]), s(cx.all("jwt", &TEXTS))))
            } else {
                None
            };
            request_check(cx, &f, &proof)
        }),
        Part::full("requests-all-formats", &["survives"], |cx| {
            let f = format_json(cx);
            request_check(cx, &f, &Some((Some(s("jwt")), s("a.b.c"))))
        }),
        Part::full("credential-responses", &["survives"], |cx| {
            let f = plain_formats();
            let p = profile(&f[cx.all_n("format", f.len())]);
            let rq = CredentialRequest { format: p.clone(), proof: None };
            let c = match cx.all_n("issued", 3) {
                0 => None,
                1 => Some(CredentialOrAcceptanceToken::AcceptanceToken(s(cx.all("token", &TEXTS)))),
                _ => Some(CredentialOrAcceptanceToken::Credential(p)),
            };
            let n = if cx.flag("nonce") {
                Some(CNonce { c_nonce: s(cx.all("c_nonce", &TEXTS)), c_nonce_expires_in: *cx.all("lifetime", &[None, Some(0), Some(u32::MAX)]) })
            } else {
                None
            };
            let r = cx.call("create_credential_success_response", || CredentialIssuer::create_credential_success_response(&rq, c, n))?;
            let Ok((r, _)) = r else { return Ok(s(crate::scn::OUTSIDE)) };
            let text = write(cx, "credential-response", &r)?;
            let v: Value = serde_json::from_str(&text).expect("JSON");
            for k in v.as_object().expect("object").keys() {
                if !["format", "credential", "acceptance_token", "c_nonce", "c_nonce_expires_in"].contains(&k.as_str()) {
                    return Err(Problem::new("credential-response/names", text));
                }
            }
            wire(cx, "credential-response", &r, &v, |a, b| a == b)?;
            // absent members may also be left out by others
            let q: CredentialSuccessResponse = foreign(cx, "credential-response", &strip(v))?;
            if q != r {
                return Err(Problem::new("credential-response/values", format!("{r:?} -> {q:?}")));
            }
            Ok(s("survives"))
        }),
        Part::full("token-responses", &["survives"], |cx| {
            let t = Token {
                token: s(cx.all("token", &TEXTS)),
                expires: *cx.all("expires_in", &[None, Some(0), Some(u32::MAX)]),
                scope: opt(cx, "scope", &["a b"]),
                nonce: opt(cx, "c_nonce", &["", "n"]),
                nonce_expires: *cx.all("c_nonce_expires_in", &[None, Some(1)]),
                pending: *cx.all("authorization_pending", &[None, Some(true)]),
                interval: *cx.all("interval", &[None, Some(5)]),
            };
            let r: AccessTokenSuccessResponse = foreign(cx, "token-response", &t.json("Bearer"))?;
            if !t.same(&r) {
                return Err(Problem::new("token-response/values", format!("{t:?} -> {r:?}")));
            }
            Ok(s("survives"))
        }),
        Part::full(
            "nested-claims",
            &["nested-credential-subject"],
            known(
                "nested-credential-subject",
                json!({"format": "jwt_vc_json", "types": ["T"], "credentialSubject": {"address": {"street": {"mandatory": true}}}}),
                "/credentialSubject/address/street",
            ),
        ),
        Part::full(
            "mdoc-claims",
            &["mso_mdoc-claims"],
            known(
                "mso_mdoc-claims",
                json!({"format": "mso_mdoc", "doctype": "org.iso.18013.5.1.mDL", "claims": {"org.iso.18013.5.1": {"given_name": {"mandatory": true}}}}),
                "/claims/org.iso.18013.5.1/given_name",
            ),
        ),
        Part::full(
            "json-ld-context",
            &["jwt_vc_json-ld-context"],
            known(
                "jwt_vc_json-ld-context",
                json!({"format": "jwt_vc_json-ld", "@context": ["https://www.w3.org/2018/credentials/v1"], "types": ["T"]}),
                "/@context",
            ),
        ),
    ]
}
