//! C25: what a compact proof says, read by an independent strict reader.

use crate::clock::{Nanos, SEC};
use crate::explore::{Ctx, Problem, Res};
use crate::report::Part;
use crate::scn::{ldp, Jwt, KeyHdr, Scn, BAD_ALGS, GOOD_ALGS, KID, T0};
use crate::util::{all_sentences, all_strings, b64url, unb64url};
use crate::Tier;
use openid4vci::credential_issuer::CredentialIssuer;
use openid4vci::jwt::{ProofJwt, ProofJwtAdditionalHeader};
use openid4vci::types::credential_request::{CredentialRequest, CredentialRequestProof};
use serde_json::{json, Map, Value};
use std::str::FromStr;

fn s(x: &str) -> String {
    x.to_owned()
}

/// RFC 3339 texts and the instant they name; anything else given as a time is
/// one of `BAD_TIMES`.
pub const TIMES: [(&str, i64, u32); 12] = [
    ("2023-11-14T22:13:20Z", 1_700_000_000, 0),
    ("2023-11-14T22:13:20.5Z", 1_700_000_000, 500_000_000),
    ("2023-11-14T22:13:20.123456789Z", 1_700_000_000, 123_456_789),
    ("2023-11-14T22:13:20.000000001Z", 1_700_000_000, 1),
    ("2023-11-14T22:13:20+00:00", 1_700_000_000, 0),
    ("2023-11-14T23:13:20+01:00", 1_700_000_000, 0),
    ("2023-11-14T16:43:20-05:30", 1_700_000_000, 0),
    ("1970-01-01T00:00:00Z", 0, 0),
    ("1969-12-31T23:59:59Z", -1, 0),
    ("2024-02-29T12:00:00Z", 1_709_208_000, 0),
    ("2038-01-19T03:14:08Z", 2_147_483_648, 0),
    ("9999-12-31T23:59:59Z", 253_402_300_799, 0),
];

pub const BAD_TIMES: [&str; 14] = [
    "",
    "x",
    "now",
    "1700000000",
    "2023-11-14",
    "22:13:20Z",
    "2023-11-14T22:13:20",
    "2023-13-14T22:13:20Z",
    "2023-02-30T22:13:20Z",
    "2023-02-29T12:00:00Z",
    "2023-11-14T25:13:20Z",
    "2023-11-14T22:13:20Zx",
    "2023-11-14T22:13:20+25:61:00",
    "Tue, 14 Nov 2023 22:13:20 GMT",
];

/// What the reader must find.
#[derive(Debug, PartialEq)]
struct Read {
    typ: String,
    alg: String,
    key: Option<(&'static str, String)>,
    iss: Option<String>,
    aud: String,
    sub: Option<String>,
    iat: Nanos,
    nonce: String,
    nbf: Option<Nanos>,
    exp: Option<Nanos>,
    sig: Option<String>,
}

fn text(m: &Map<String, Value>, k: &str) -> Result<String, String> {
    m.get(k).and_then(Value::as_str).map(s).ok_or(format!("no text {k}"))
}

fn opt_text(m: &Map<String, Value>, k: &str) -> Result<Option<String>, String> {
    match m.get(k) {
        None | Some(Value::Null) => Ok(None),
        Some(Value::String(t)) => Ok(Some(t.clone())),
        Some(v) => Err(format!("{k} is {v}")),
    }
}

/// Says that RFC 3339 does not settle it (other separators, leap seconds...).
const UNSETTLED: &str = "unsettled";

fn days(y: i64, m: i64, d: i64) -> i64 {
    // days since 1970-01-01 in the proleptic Gregorian calendar
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

pub fn rfc3339(t: &str) -> Option<Nanos> {
    let b = t.as_bytes();
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        let x = b.get(r)?;
        x.iter().all(u8::is_ascii_digit).then(|| x.iter().fold(0, |n, c| n * 10 + i64::from(c - b'0')))
    };
    let lit = |i: usize, c: u8| (b.get(i) == Some(&c)).then_some(());
    let (y, mo, d) = (num(0..4)?, num(5..7)?, num(8..10)?);
    let (h, mi, se) = (num(11..13)?, num(14..16)?, num(17..19)?);
    for (i, c) in [(4, b'-'), (7, b'-'), (10, b'T'), (13, b':'), (16, b':')] {
        lit(i, c)?;
    }
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let len = [31, 28 + i64::from(leap), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&mo) || d < 1 || d > len[mo as usize - 1] || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    let mut at = 19;
    let mut nanos: Nanos = 0;
    if b.get(at) == Some(&b'.') {
        let n = b[at + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
        if !(1..=9).contains(&n) {
            return None;
        }
        nanos = Nanos::from(num(at + 1..at + 1 + n)?) * (10 as Nanos).pow(9 - n as u32);
        at += 1 + n;
    }
    let off = match b.get(at)? {
        b'Z' => {
            at += 1;
            0
        }
        c @ (b'+' | b'-') => {
            let (oh, om) = (num(at + 1..at + 3)?, num(at + 4..at + 6)?);
            lit(at + 3, b':')?;
            if oh > 23 || om > 59 {
                return None;
            }
            at += 6;
            (oh * 3600 + om * 60) * if *c == b'+' { 1 } else { -1 }
        }
        _ => return None,
    };
    (at == b.len()).then_some(())?;
    Some(Nanos::from(days(y, mo, d) * 86_400 + h * 3600 + mi * 60 + se - off) * SEC + nanos)
}

fn time(t: &str) -> Result<Nanos, String> {
    if let Some(n) = rfc3339(t) {
        if let Some((_, secs, f)) = TIMES.iter().find(|x| x.0 == t) {
            assert_eq!(n, Nanos::from(*secs) * SEC + Nanos::from(*f), "the oracle reads {t} wrongly");
        }
        return Ok(n);
    }
    assert!(!TIMES.iter().any(|x| x.0 == t), "the oracle does not read {t}");
    let clear = BAD_TIMES.contains(&t) || t.bytes().filter(u8::is_ascii_digit).count() < 10;
    Err(if clear { format!("no time: {t}") } else { s(UNSETTLED) })
}

fn object(seg: &str) -> Result<Map<String, Value>, String> {
    let b = unb64url(seg).ok_or("not base64url")?;
    match serde_json::from_slice(&b) {
        Ok(Value::Object(m)) => Ok(m),
        _ => Err(s("not a JSON object")),
    }
}

fn oracle(proof: &str) -> Result<Read, String> {
    let segs: Vec<&str> = proof.split('.').collect();
    if !(2..=3).contains(&segs.len()) {
        return Err(format!("{} segments", segs.len()));
    }
    let (h, b) = (object(segs[0])?, object(segs[1])?);
    let alg = text(&h, "alg")?;
    if !GOOD_ALGS.contains(&alg.as_str()) && !BAD_ALGS.contains(&alg.as_str()) {
        return Err(format!("unknown alg {alg}"));
    }
    let mut keys = vec![];
    for k in ["kid", "jwk", "x5c"] {
        if h.contains_key(k) {
            keys.push((k, text(&h, k)?));
        }
    }
    if keys.len() > 1 {
        return Err(s("several key references"));
    }
    let opt_time = |k| match opt_text(&b, k) {
        Ok(None) => Ok(None),
        Ok(Some(t)) => time(&t).map(Some),
        Err(e) => Err(e),
    };
    Ok(Read {
        typ: text(&h, "typ")?,
        alg,
        key: keys.pop(),
        iss: opt_text(&b, "iss")?,
        aud: text(&b, "aud")?,
        sub: opt_text(&b, "sub")?,
        iat: time(&text(&b, "iat")?)?,
        nonce: text(&b, "nonce")?,
        nbf: opt_time("nbf")?,
        exp: opt_time("exp")?,
        sig: segs.get(2).map(|x| s(x)),
    })
}

fn nanos(t: &chrono::DateTime<chrono::Utc>) -> Nanos {
    Nanos::from(t.timestamp()) * SEC + Nanos::from(t.timestamp_subsec_nanos())
}

fn seen(j: &ProofJwt) -> Read {
    Read {
        typ: j.header.typ.clone(),
        alg: serde_json::to_value(&j.header.alg).ok().and_then(|v| v.as_str().map(s)).unwrap_or_default(),
        key: j.header.additional_header.as_ref().map(|k| match k {
            ProofJwtAdditionalHeader::KeyId(k) => ("kid", k.clone()),
            ProofJwtAdditionalHeader::Jwk(k) => ("jwk", k.clone()),
            ProofJwtAdditionalHeader::X5c(k) => ("x5c", k.clone()),
        }),
        iss: j.body.issuer.clone(),
        aud: j.body.audience.clone(),
        sub: j.body.subject.clone(),
        iat: nanos(&j.body.issued_at),
        nonce: j.body.nonce.clone(),
        nbf: j.body.not_before.as_ref().map(nanos),
        exp: j.body.expires_at.as_ref().map(nanos),
        sig: j.signature.clone(),
    }
}

fn check(cx: &mut Ctx, proof: &str) -> Res {
    cx.note(|| format!("proof: {proof:?}"));
    let want = oracle(proof);
    let got = cx.call("from_str", || ProofJwt::from_str(proof))?;
    cx.note(|| format!("wanted: {want:?}"));
    cx.note(|| format!("got: {got:?}"));
    match (&want, &got) {
        (Err(e), _) if e == UNSETTLED => Ok(s("unsettled")),
        (Ok(w), Ok(g)) => {
            let g = seen(g);
            if *w != g {
                return Err(Problem::new("read/values", format!("{proof:?}: wanted {w:?}, got {g:?}")));
            }
            Ok(s("read"))
        }
        (Err(_), Err(_)) => {
            // and the endpoint refuses it as well
            let request = CredentialRequest {
                format: ldp(&["VerifiableCredential"]),
                proof: Some(CredentialRequestProof { proof_type: s("jwt"), jwt: s(proof) }),
            };
            let r = cx.call("pre_evaluate_credential_request", || {
                CredentialIssuer::pre_evaluate_credential_request(&request)
            })?;
            if r.is_ok() {
                return Err(Problem::new("pre-evaluated", format!("{proof:?}: {want:?}, but {r:?}")));
            }
            Ok(s("unreadable"))
        }
        (Ok(_), Err(e)) => Err(Problem::new("refused", format!("{proof:?} is fine, but {e:?}"))),
        (Err(e), Ok(_)) => Err(Problem::new("read", format!("{proof:?} was read: {e}"))),
    }
}

fn base(sig: Option<&str>) -> Jwt {
    let mut j = Scn::default().jwt().clone();
    j.iat = T0;
    j.sig = sig.map(s);
    j
}

fn head() -> Map<String, Value> {
    base(None).header()
}

fn body() -> Map<String, Value> {
    base(None).body()
}

fn seg(v: &Map<String, Value>) -> String {
    b64url(Value::Object(v.clone()).to_string().as_bytes())
}

/// Segments whose base64url text has length 0, 2 and 3 mod 4 and uses '-' and '_'.
fn shapes() -> Vec<(String, String)> {
    let mut v = vec![];
    for pad in ["", "x", "xx"] {
        let mut h = head();
        h.insert(s("crit"), json!(format!("{pad}>>>???\u{ff}")));
        let mut b = body();
        b.insert(s("jti"), json!(format!("{pad}???>>>\u{fe}")));
        v.push((seg(&h), seg(&b)));
    }
    assert!(v.iter().any(|x| x.0.contains('-') && x.0.contains('_')));
    v
}

fn kinds() -> Vec<Option<Value>> {
    vec![
        None,
        Some(Value::Null),
        Some(json!(true)),
        Some(json!(0)),
        Some(json!(1_700_000_000)),
        Some(json!(-1.5)),
        Some(json!("")),
        Some(json!("text")),
        Some(json!(KID)),
        Some(json!([])),
        Some(json!(["text"])),
        Some(json!({})),
        Some(json!({"kty": "OKP", "crv": "Ed25519", "x": "AAAA"})),
        Some(json!({"ES256": null})),
        Some(json!({"kid": "text"})),
    ]
}

fn time_kinds() -> Vec<Option<Value>> {
    let mut v = kinds();
    v.extend(TIMES.iter().map(|t| Some(json!(t.0))));
    v.extend(BAD_TIMES.iter().map(|t| Some(json!(t))));
    v
}

fn set(m: &mut Map<String, Value>, k: &str, v: &Option<Value>) {
    match v {
        Some(v) => m.insert(s(k), v.clone()),
        None => m.remove(k),
    };
}

const ALGS: [&str; 16] = [
    "ES256", "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES384", "ES512", "PS256", "PS384",
    "PS512", "EdDSA", "ES256K", "ECDH-ES", "none",
];

const TEXTS: [&str; 14] = [
    "",
    "a",
    " ",
    "a.b",
    "...",
    "did:example:123#k.1",
    "\"",
    "\\",
    "\n\t\u{0}\u{1f}",
    "é\u{301}\u{1f511}\u{200b}\u{feff}",
    "</script>&amp;%2E",
    "null",
    "{\"kid\":\"x\"}",
    "a\u{2028}b",
];

fn sigs() -> Vec<String> {
    let mut v: Vec<String> = TEXTS.iter().filter(|t| !t.contains('.')).map(|t| s(t)).collect();
    for t in ["c2ln", "c2ln=", "c2ln==", "c2l", "c", "c2ln\n", " c2ln", "+/+/", "-_-_", "=", "%2e", "\u{ff0e}"] {
        v.push(s(t));
    }
    v.push("A".repeat(4096));
    v
}

pub fn c25(tier: Tier) -> Vec<Part> {
    let tokens: Vec<String> = vec![
        s("."),
        seg(&head()),
        seg(&body()),
        s("c2ln"),
        s("="),
        s(" "),
        b64url(b"{}"),
        b64url(b"[]"),
    ];
    let tokens: Vec<&'static str> = tokens.into_iter().map(|t| &*Box::leak(t.into_boxed_str())).collect();
    let sentences = all_sentences(&tokens, tier.pick(5, 6));
    let short = all_strings(&['.', 'e', '3', '0', '=', '-', '/', '\n'], tier.pick(5, 6));
    let shapes: Vec<(String, String)> = shapes();
    let long25 = crate::util::stretched();
    let texts_of = |h: &str, b: &str, w: usize, t: String| match w {
        0 => format!("{t}.{b}.c2ln"),
        1 => format!("{h}.{t}.c2ln"),
        _ => format!("{h}.{t}"),
    };
    let raw = |h: &[u8], b: &[u8]| format!("{}.{}.c2ln", b64url(h), b64url(b));
    vec![
        Part::full("sentences", &["read", "unreadable"], move |cx| {
            let p = cx.all("proof", &sentences).clone();
            check(cx, &p)
        }),
        Part::full("short-strings", &["unreadable"], move |cx| {
            let p = cx.all("proof", &short).clone();
            check(cx, &p)
        }),
        Part::full("encoding", &["read", "unreadable"], {
            let shapes = shapes.clone();
            move |cx| {
                const BAD: [&str; 14] =
                    ["=", "+", "/", " ", ".", "\n", "A", "-", "_", "é", "\0", "%3D", "\u{200b}", "=="];
                let (h, b) = cx.all("shape", &shapes).clone();
                let w = cx.all_n("segment", 3);
                let t = if w == 0 { &h } else { &b };
                let i = cx.all_n("position", t.len() + 1);
                let out = match cx.all_n("change", 5) {
                    0 => format!("{}{}{}", &t[..i], cx.all("insert", &BAD), &t[i..]),
                    1 if i < t.len() => format!("{}{}{}", &t[..i], cx.all("replace", &BAD), &t[i + 1..]),
                    2 if i < t.len() => format!("{}{}", &t[..i], &t[i + 1..]),
                    3 => s(&t[..i]),
                    _ => s(&t[i..]),
                };
                check(cx, &texts_of(&h, &b, w, out))
            }
        }),
        Part::full("last-characters", &["read", "unreadable"], {
            let shapes = shapes.clone();
            move |cx| {
                let (h, b) = cx.all("shape", &shapes).clone();
                let w = cx.all_n("segment", 3);
                let t = if w == 0 { &h } else { &b };
                let chars = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
                let c = char::from(*cx.all("character", chars));
                check(cx, &texts_of(&h, &b, w, format!("{}{c}", &t[..t.len() - 1])))
            }
        }),
        Part::full("other-encodings", &["read", "unreadable"], {
            let shapes = shapes.clone();
            move |cx| {
                let (h, b) = cx.all("shape", &shapes).clone();
                let mut segs = [h, b];
                for t in &mut segs {
                    let padded = format!("{t}{}", ["", "", "==", "="][t.len() % 4]);
                    *t = match cx.all_n("form", 10) {
                        0 => t.clone(),
                        1 => padded,
                        2 => t.replace('-', "+").replace('_', "/"),
                        3 => padded.replace('-', "+").replace('_', "/"),
                        4 => String::from_utf8_lossy(&unb64url(t).unwrap_or_default()).replace('.', ""),
                        5 => b64url(t.as_bytes()),
                        6 => t.to_lowercase(),
                        7 => unb64url(t).unwrap_or_default().iter().map(|b| format!("{b:02x}")).collect(),
                        8 => t.as_bytes().chunks(64).map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>().join("\n"),
                        _ => format!("{t}="),
                    };
                }
                let sig = cx.all("signature", &[None, Some("c2ln"), Some("")]);
                let p = match sig {
                    Some(x) => format!("{}.{}.{x}", segs[0], segs[1]),
                    None => format!("{}.{}", segs[0], segs[1]),
                };
                check(cx, &p)
            }
        }),
        Part::bounded("header-kinds", tier.pick(3, 4), &["read", "unreadable"], move |cx| {
            let mut h = head();
            for k in ["typ", "alg", "kid", "jwk", "x5c", "extra"] {
                let mut alts = vec![h.get(k).cloned()];
                alts.extend(kinds());
                let v = cx.dev(k, &alts).clone();
                set(&mut h, k, &v);
            }
            check(cx, &format!("{}.{}.c2ln", seg(&h), seg(&body())))
        }),
        Part::bounded("body-kinds", tier.pick(2, 3), &["read", "unreadable"], move |cx| {
            let mut b = body();
            for k in ["iss", "aud", "sub", "iat", "nonce", "nbf", "exp", "extra"] {
                let mut alts = vec![b.get(k).cloned()];
                alts.extend(if ["iat", "nbf", "exp"].contains(&k) { time_kinds() } else { kinds() });
                let v = cx.dev(k, &alts).clone();
                set(&mut b, k, &v);
            }
            check(cx, &format!("{}.{}.c2ln", seg(&head()), seg(&b)))
        }),
        Part::full("key-references", &["read", "unreadable"], move |cx| {
            let mut h = head();
            let alts: Vec<Option<Value>> = vec![
                None,
                Some(json!(KID)),
                Some(json!("")),
                Some(json!("{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"AAAA\"}")),
                Some(json!({"kty": "OKP", "crv": "Ed25519", "x": "AAAA"})),
                Some(json!(["MIIB"])),
                Some(Value::Null),
            ];
            for k in ["kid", "jwk", "x5c"] {
                set(&mut h, k, cx.all(k, &alts));
            }
            // the place among the other members must not matter
            let members: Vec<(String, Value)> = h.into_iter().collect();
            let n = cx.all_n("rotate", members.len());
            let parts: Vec<String> = (0..members.len())
                .map(|i| &members[(i + n) % members.len()])
                .map(|(k, v)| format!("{}:{v}", json!(k)))
                .collect();
            check(cx, &raw(format!("{{{}}}", parts.join(",")).as_bytes(), Value::Object(body()).to_string().as_bytes()))
        }),
        Part::full("algorithms", &["read", "unreadable"], move |cx| {
            let a = cx.all("alg", &ALGS);
            let variants = {
                let mut v = vec![s(a)];
                v.extend(crate::util::near_misses(a, &['A', '2', ' ']));
                v
            };
            let alg = cx.all("variant", &variants).clone();
            let mut j = base(Some("c2ln"));
            j.alg = alg;
            check(cx, &j.compact())
        }),
        Part::full("other-algorithms", &["read", "unreadable"], move |cx| {
            let mut texts: Vec<String> = crate::util::JOSE.map(s).to_vec();
            texts.extend(crate::util::contents());
            let mut j = base(Some("c2ln"));
            j.alg = cx.all("alg", &texts).clone();
            check(cx, &j.compact())
        }),
        Part::full("times", &["read", "unreadable"], move |cx| {
            let kinds = time_kinds();
            let mut b = body();
            let which = *cx.all("claim", &["iat", "nbf", "exp"]);
            set(&mut b, which, cx.all("value", &kinds));
            if which != "iat" {
                b.insert(s("iat"), json!(cx.all("iat", &TIMES).0));
            }
            check(cx, &format!("{}.{}.c2ln", seg(&head()), seg(&b)))
        }),
        Part::full("texts", &["read"], move |cx| {
            let mut j = base(Some("c2ln"));
            let t = s(cx.all("text", &TEXTS));
            let u = s(cx.all("other text", &TEXTS));
            match cx.all_n("pair", 6) {
                0 => (j.typ, j.aud) = (t, u),
                1 => (j.iss, j.sub) = (Some(t), Some(u)),
                2 => (j.nonce, j.key) = (t, KeyHdr::Kid(u)),
                3 => (j.key, j.aud) = (KeyHdr::Jwk(t), u),
                4 => (j.key, j.nonce) = (KeyHdr::X5c(t), u),
                _ => (j.iss, j.nonce) = (Some(t), u),
            }
            check(cx, &j.compact())
        }),
        Part::full("long-texts", &["read"], move |cx| {
            let t = cx.all("text", &long25).clone();
            let mut j = base(Some("c2ln"));
            match cx.all_n("place", 9) {
                0 => j.typ = t,
                1 => j.aud = t,
                2 => j.iss = Some(t),
                3 => j.sub = Some(t),
                4 => j.nonce = t,
                5 => j.key = KeyHdr::Kid(t),
                6 => j.key = KeyHdr::Jwk(t),
                7 => j.key = KeyHdr::X5c(t),
                _ => j.sig = Some(b64url(t.as_bytes())),
            }
            check(cx, &j.compact())
        }),
        Part::full("many-members", &["read"], move |cx| {
            let n = *cx.all("members", &crate::util::COUNTS);
            let front = cx.flag("in front");
            let x = cx.all("value", &[json!(1), json!("."), json!([1, [2, {"kid": "x"}]]), Value::Null]).clone();
            let (mut h, mut b) = (head(), body());
            let m = if cx.flag("in the header") { &mut h } else { &mut b };
            for i in 0..n {
                m.insert(if front { format!("!{i}") } else { format!("~{i}") }, x.clone());
            }
            check(cx, &format!("{}.{}.c2ln", seg(&h), seg(&b)))
        }),
        Part::full("signatures", &["read", "unreadable"], move |cx| {
            let sigs = sigs();
            let mut j = base(None);
            if cx.flag("dots in the header") {
                j.key = KeyHdr::Kid(s("did:example:a.b.c#d.e"));
            }
            if cx.flag("dots in the body") {
                j.aud = s("https://a.b.c/");
            }
            let c = j.compact();
            let p = match cx.all_n("segments", 6) {
                0 => c,
                1 => format!("{c}.{}", cx.all("third", &sigs)),
                2 => format!("{c}.{}.", cx.all("third", &sigs)),
                3 => format!("{c}.{}.{}", cx.all("third", &sigs), cx.all("fourth", &["x", "."])),
                4 => format!("{c}..{}", cx.all("fourth", &sigs)),
                _ => format!(".{c}.{}", cx.all("fourth", &sigs)),
            };
            check(cx, &p)
        }),
        Part::full("json-forms", &["read", "unreadable"], move |cx| {
            let which = cx.all_n("segment", 2);
            let m = if which == 0 { head() } else { body() };
            let o = Value::Object(m.clone()).to_string();
            let vals: Vec<Value> = if which == 0 {
                ["typ", "alg", "kid"].iter().map(|k| m[*k].clone()).collect()
            } else {
                ["iss", "aud", "sub", "iat", "nonce", "nbf", "exp"]
                    .iter()
                    .map(|k| m.get(*k).cloned().unwrap_or(Value::Null))
                    .collect()
            };
            let forms: Vec<Vec<u8>> = vec![
                o.clone().into_bytes(),
                format!(" \t\r\n{o}\n ").into_bytes(),
                serde_json::to_vec_pretty(&m).expect("JSON"),
                json!(vals).to_string().into_bytes(),
                json!([m]).to_string().into_bytes(),
                json!([]).to_string().into_bytes(),
                json!(o).to_string().into_bytes(),
                b"null".to_vec(),
                b"true".to_vec(),
                b"0".to_vec(),
                b"\"\"".to_vec(),
                b"{}".to_vec(),
                b"".to_vec(),
                b" ".to_vec(),
                format!("{o}{o}").into_bytes(),
                format!("{o},").into_bytes(),
                format!("{o}x").into_bytes(),
                format!("{o}\0").into_bytes(),
                format!("\u{feff}{o}").into_bytes(),
                format!("{}", &o[..o.len() - 1]).into_bytes(),
                format!("{},}}", &o[..o.len() - 1]).into_bytes(),
                format!("{}/**/}}", &o[..o.len() - 1]).into_bytes(),
                o.replace('"', "'").into_bytes(),
                o.replace(':', "=").into_bytes(),
                format!("{},\"x\":{{\"typ\":1,\"kid\":2,\"aud\":3}}}}", &o[..o.len() - 1]).into_bytes(),
                format!("{},\"x\":[[[[{{}}]]]]}}", &o[..o.len() - 1]).into_bytes(),
                o.replace("\"alg\"", "\"\\u0061lg\"").replace("\"aud\"", "\"\\u0061ud\"").into_bytes(),
                o.replace("\"alg\"", "\"ALG\"").replace("\"aud\"", "\"AUD\"").into_bytes(),
                o.replace("\"kid\"", "\"Kid\"").replace("\"iss\"", "\"Iss\"").into_bytes(),
                o.replace("\"typ\"", "\"type\"").replace("\"nonce\"", "\"c_nonce\"").into_bytes(),
                o.replace("\"typ\"", "\" typ\"").replace("\"iat\"", "\"issued_at\"").into_bytes(),
                o.replace("\"kid\"", "\"KeyId\"").replace("\"aud\"", "\"audience\"").into_bytes(),
                o.replace("\"kid\"", "\"additional_header\"").replace("\"iss\"", "\"issuer\"").into_bytes(),
                [o.as_bytes(), &[0xff]].concat(),
                o.replace("did", "\u{1}").into_bytes(),
                o.bytes().map(|b| if b == b'd' { 0xe9 } else { b }).collect(),
                o.encode_utf16().flat_map(u16::to_le_bytes).collect(),
            ];
            let f = cx.all_n("form", forms.len());
            let (h, b) = (Value::Object(head()).to_string(), Value::Object(body()).to_string());
            let p = if which == 0 { raw(&forms[f], b.as_bytes()) } else { raw(h.as_bytes(), &forms[f]) };
            check(cx, &p)
        }),
        Part::full("swapped-segments", &["read", "unreadable"], move |cx| {
            let parts = [seg(&head()), seg(&body()), s("c2ln"), s("")];
            let n = 1 + cx.all_n("segments", 4);
            let p: Vec<&str> = (0..n).map(|_| parts[cx.all_n("part", 4)].as_str()).collect();
            check(cx, &p.join("."))
        }),
    ]
}
