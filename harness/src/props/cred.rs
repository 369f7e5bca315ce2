//! C04 .. C09, C11, C12, C24: the credential endpoint.

use crate::clock::{self, Nanos, SEC};
use crate::explore::{Ctx, Problem, Res};
use crate::report::Part;
use crate::scn::{
    did_of, is_did_url, jwt_vc, key, ldp, Doc, Fault, Focus, Jwt, KeyHdr, Mat, NonceOpt, Scn, Vm, BAD_ALGS,
    DID, GOOD_ALGS, KID, LISTS, T0,
};
use crate::util::{all_sentences, all_strings, interesting_u32, long, long_misses, near_misses, LADDER};
use crate::Tier;
use openid4vci::credential_issuer::error::CredentialIssuerError as E;
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOrAcceptanceToken};
use openid4vci::jwt::error::JwtError as J;
use openid4vci::jwt::ProofJwt;
use openid4vci::types::credential::CredentialFormatProfile;
use serde_json::json;
use std::str::FromStr;

fn s(x: &str) -> String {
    x.to_owned()
}

/// Strings a protocol value may take, several lengths and scripts.
pub fn bases() -> Vec<String> {
    vec![
        s(""),
        s("a"),
        s("0"),
        s("tZignsnFbp"),
        s("https://issuer.test"),
        s("https://Issuer.test:8443/a%20b/?q=1&r=2#f"),
        s("Çödé-ß e\u{301}\u{1f511}"),
        s("a.b.c"),
        s("\"quoted\\back\"\n\t"),
        "0123456789abcdef".repeat(4),
        "x1.Y_-~".repeat(40),
    ]
}

fn sigma(tier: Tier) -> &'static [char] {
    tier.pick(&['a', '0', '/', ' '], &['a', 'Z', '0', '9', '/', ' ', '.', '-', '_', 'é', '%', '+', '\0', '"'])
}

/// (base, near) in both roles.
pub fn near_pairs(tier: Tier) -> impl Fn(&mut Ctx) -> (String, String) + Send + Sync {
    let b = bases();
    let near: Vec<Vec<String>> = b
        .iter()
        .map(|x| {
            let mut v = vec![x.clone()];
            v.extend(near_misses(x, sigma(tier)));
            v
        })
        .collect();
    move |cx| {
        let i = cx.all_n("base", b.len() + 1);
        let (base, o) = if i < b.len() {
            (b[i].clone(), cx.all("other", &near[i]).clone())
        } else {
            long_pair(cx, "")
        };
        if cx.flag("swap roles") {
            (o, base)
        } else {
            (base, o)
        }
    }
}

/// A text of a length from the ladder, and the same or something that differs in one place.
pub fn long_pair(cx: &mut Ctx, before: &str) -> (String, String) {
    let base = format!("{before}{}", long(*cx.all("length", &LADDER)));
    let o = match cx.all_n("difference", 11) {
        0 => base.clone(),
        k => long_misses(&base)[(k - 1) % long_misses(&base).len()].clone(),
    };
    (base, o)
}

/// All pairs of short strings, `f` for each.
fn short_pairs(
    tier: Tier,
    focus: &'static Focus,
    f: impl Fn(String, String) -> Scn + Send + Sync,
) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    let all = match tier {
        Tier::Quick => all_strings(&['a', 'A', ' '], 3),
        Tier::Thorough => all_strings(&['a', 'A', ' ', '/', 'é'], 4),
    };
    move |cx| {
        let a = cx.all("first", &all).clone();
        let n = cx.all_n("block", 8);
        let mut ok = 0;
        for (i, b) in all.iter().enumerate() {
            if i % 8 == n && f(a.clone(), b.clone()).check(cx, focus)? == "accepted" {
                ok += 1;
            }
        }
        Ok(if ok > 0 { "one accepted in block".into() } else { "block refused".into() })
    }
}

pub const NONCE: Focus = Focus { faults: &["Nonce"], accepted: &[], all: false };
pub const LIFE: Focus = Focus { faults: &["NonceExpired"], accepted: &[], all: false };
pub const AUD: Focus = Focus { faults: &["Aud"], accepted: &[], all: false };
pub const ISS: Focus = Focus { faults: &["Iss"], accepted: &[], all: false };
pub const TIME: Focus = Focus { faults: &["NotYet", "Expired"], accepted: &[], all: false };
pub const TYPES: Focus =
    Focus { faults: &["ProofType", "Unreadable", "Typ", "Alg", "NoProof"], accepted: &[], all: false };
pub const BIND: Focus =
    Focus { faults: &["NotDid", "Jwk", "X5c", "NoKey"], accepted: &["credential-changed", "subject"], all: false };
pub const POP: Focus =
    Focus { faults: &["NoSignature"], accepted: &["message", "signature", "no-pop", "alg"], all: false };
pub const ALL: Focus = Focus { faults: &[], accepted: &[], all: true };

/// Flows in which a proof can be presented: (grants, client id).
const FLOWS: [((bool, bool), bool); 4] =
    [((false, true), true), ((false, true), false), ((true, true), true), ((false, false), true)];

pub fn with_flow(cx: &mut Ctx, sc: &mut Scn) {
    let ((a, p), c) = *cx.all("flow (auth, pre), client id", &FLOWS);
    sc.offer = Some((a, p));
    if !c {
        sc.client_id = None;
    }
}

/// A member of the proof that is not a text but something with the right text in it.
fn kinds(name: &'static str, members: &'static [(bool, &'static str)]) -> Part {
    const FOCUS: Focus = Focus { faults: &["Unreadable"], accepted: &[], all: false };
    Part::full(name, &["refused: Unreadable"], move |cx| {
        let mut sc = Scn::default();
        with_flow(cx, &mut sc);
        let (head, k) = *cx.all("member", members);
        let j = sc.jwt();
        let all = if head { j.header() } else { j.body() };
        let t = all.get(k).and_then(|v| v.as_str()).unwrap_or_default().to_owned();
        let v = match cx.all_n("kind", 17) {
            0 => json!([t]),
            1 => json!([t, "other"]),
            2 => json!(["other", t]),
            3 => json!([t, t]),
            4 => json!([[t]]),
            5 => json!([]),
            6 => json!({}),
            7 => json!({ t.clone(): t }),
            8 => json!({ t: null }),
            9 => json!({ k: t }),
            10 => json!({ "value": t }),
            11 => json!(0),
            12 => json!(1_700_000_000),
            13 => json!(1.5),
            14 => json!(true),
            15 => json!(false),
            // null is no wrong kind for what may be absent
            _ => if ["iss"].contains(&k) { json!([null]) } else { json!(null) },
        };
        if head {
            sc.jwt().form.head = vec![(k, v)];
        } else {
            sc.jwt().form.body = vec![(k, v)];
        }
        sc.jwt().form.style = *cx.all("style", &[0, 1, 3]);
        sc.check(cx, &FOCUS)
    })
}

// ---------------------------------------------------------------- C04

pub fn c04(tier: Tier) -> Vec<Part> {
    let pairs = near_pairs(tier);
    vec![
        Part::full("nonce-neighbourhoods", &["accepted", "refused: Nonce"], move |cx| {
            let (exp, act) = pairs(cx);
            let mut sc = Scn::default();
            with_flow(cx, &mut sc);
            sc.nonce.as_mut().unwrap().expected = exp;
            sc.jwt().nonce = act;
            sc.check(cx, &NONCE)
        }),
        Part::full(
            "all-short-nonce-pairs",
            &["one accepted in block", "block refused"],
            short_pairs(tier, &NONCE, |a, b| {
                let mut sc = Scn::default();
                sc.nonce.as_mut().unwrap().expected = a;
                sc.jwt().nonce = b;
                sc
            }),
        ),
        Part::full("nonce-contents", &["accepted", "refused: Nonce"], {
            let pairs = crate::util::Pairs::new();
            move |cx| {
                let (a, b) = pairs.pick(cx);
                let mut sc = Scn::default();
                sc.nonce.as_mut().unwrap().expected = a;
                sc.jwt().nonce = b;
                sc.check(cx, &NONCE)
            }
        }),
        Part::full("no-expected-nonce", &["refused: Nonce"], |cx| {
            let mut sc = Scn::default();
            with_flow(cx, &mut sc);
            if cx.flag("no options") {
                sc.opts = false;
                // without options there is no client id either
                sc.jwt().iss = None;
            } else {
                sc.nonce = None;
            }
            let vals = [
                "tZignsnFbp", "", "null", "None", "client-1", "https://issuer.test", "code-1", KID, "undefined", "0",
            ];
            sc.jwt().nonce = s(cx.all("nonce", &vals));
            sc.check(cx, &NONCE)
        }),
        Part::full("nonce-against-other-values", &["accepted", "refused: Nonce"], |cx| {
            // every field of the protocol may hold the value of any other
            let vals =
                ["tZignsnFbp", "", "client-1", "https://issuer.test", "code-1", DID, KID, "UniversityDegree", "EdDSA", "jwt", "c2lnbmF0dXJl"];
            let mut sc = Scn::default();
            sc.nonce.as_mut().unwrap().expected = s(cx.all("expected", &vals));
            sc.jwt().nonce = s(cx.all("actual", &vals));
            sc.jwt().sub = cx.all("sub", &[None, Some(s("tZignsnFbp")), Some(s(""))]).clone();
            sc.nonce.as_mut().unwrap().lifetime = *cx.all("lifetime", &[300, 10, u32::MAX]);
            sc.jwt().exp = *cx.all("exp", &[None, Some(T0 + 60 * SEC)]);
            sc.check(cx, &NONCE)
        }),
        echoes(
            "nonce-echoes",
            &["accepted", "refused: Nonce"],
            3,
            |sc, place, t| {
                if place != 1 {
                    sc.nonce.as_mut().unwrap().expected = t.clone();
                }
                if place != 0 {
                    sc.jwt().nonce = t;
                }
            },
            |cx, sc| sc.check(cx, &NONCE),
        ),
        kinds("nonce-kinds", &[(false, "nonce")]),
        whatever_else(
            "nonce-whatever-else",
            &["accepted", "refused: Nonce", "refused: 2 faults"],
            tier.pick(2, 3),
            |cx, sc| {
                let (e, a) = *cx.all("expected, actual", &[("n-1", "n-1"), ("n-1", "n-2"), ("", ""), ("n-1", "N-1")]);
                if let Some(n) = sc.nonce.as_mut() {
                    n.expected = s(e);
                }
                sc.jwt().nonce = s(a);
            },
            |cx, sc| sc.check(cx, &NONCE),
        ),
    ]
}

// ---------------------------------------------------------------- C05

const MS: Nanos = 1_000_000;
const DELTAS: [Nanos; 33] = [
    0, 1, -1, 1000, -1000, MS, -MS, 499 * MS, -499 * MS, 500 * MS, -500 * MS, 999_999_999, -999_999_999, SEC, -SEC,
    2 * SEC, -2 * SEC, 5 * SEC, -5 * SEC, 59 * SEC, -59 * SEC, 60 * SEC, -60 * SEC, 300 * SEC, -300 * SEC,
    3600 * SEC, -3600 * SEC, 86_400 * SEC, -86_400 * SEC, 31_536_000 * SEC, -31_536_000 * SEC, 1 << 62, -(1 << 62),
];

/// Latest time the virtual clock is set to: 9999-12-31T23:59:59Z.
const CLOCK_MAX: Nanos = 253_402_300_799 * SEC;

fn max_time() -> Nanos {
    clock::nanos(chrono::DateTime::<chrono::Utc>::MAX_UTC)
}

fn min_time() -> Nanos {
    clock::nanos(chrono::DateTime::<chrono::Utc>::MIN_UTC)
}

fn clock_ok(t: Nanos) -> bool {
    (0..=CLOCK_MAX).contains(&t)
}

pub fn c05(tier: Tier) -> Vec<Part> {
    let lifetimes = interesting_u32();
    let creations: Vec<Nanos> = vec![
        T0,
        T0 + 1,
        T0 + 123_456_789,
        T0 + 500 * MS,
        T0 + 999_999_999,
        0,
        1,
        SEC - 1,
        -1,
        -SEC / 2,
        -3600 * SEC,
        951_782_399 * SEC + 7,   // end of 2000-02-28
        1_709_164_800 * SEC,     // 2024-02-29
        (1 << 31) * SEC - 1,
        (1 << 31) * SEC,
        (1 << 32) * SEC,
        4_102_444_800 * SEC,     // 2100
        CLOCK_MAX - 10 * SEC,
    ];
    let sub: Vec<Nanos> = tier.pick(vec![0, 1, 500 * MS, 999_999_999], {
        let mut v: Vec<Nanos> = (0..10).map(|i| i * 100 * MS).collect();
        v.extend([1, 2, 999, 1000, 999_999, MS, 999 * MS, 999_999_000, 999_999_999]);
        v
    });
    let deltas: Vec<Nanos> = match tier {
        Tier::Quick => DELTAS.to_vec(),
        Tier::Thorough => {
            let mut v = DELTAS.to_vec();
            for k in 0..62 {
                v.extend([1i128 << k, -(1i128 << k)]);
            }
            for n in 1..120 {
                v.extend([n * SEC, -n * SEC, n * 10 * MS, -n * 10 * MS]);
            }
            v.sort_unstable();
            v.dedup();
            v
        }
    };
    let l2 = lifetimes.clone();
    let edges = vec![
        min_time(), min_time() + 1, min_time() + SEC, -62_167_219_200 * SEC, -(1 << 40) * SEC, CLOCK_MAX, CLOCK_MAX + SEC,
        max_time() - 4_294_967_296 * SEC, max_time() - 4_294_967_295 * SEC, max_time() - 4_294_967_294 * SEC,
        max_time() - 86_400 * SEC, max_time() - 61 * SEC, max_time() - 60 * SEC, max_time() - 1000 * SEC,
        max_time() - SEC, max_time() - 1, max_time(),
    ];
    vec![
        Part::full("around-the-end", &["accepted", "refused: NonceExpired"], move |cx| {
            let created = *cx.all("created", &creations) ;
            let life = *cx.all("lifetime", &lifetimes);
            let d = *cx.all("now - end", &deltas);
            let now = created + Nanos::from(life) * SEC + d;
            if !clock_ok(now) {
                return Ok("time out of the clock's range".into());
            }
            let mut sc = Scn::default();
            sc.nonce = Some(NonceOpt { expected: s("tZignsnFbp"), created, lifetime: life });
            sc.now = now;
            sc.check(cx, &LIFE)?;
            // the same options from their JSON
            sc.around.options_json = true;
            sc.check(cx, &LIFE)
        }),
        Part::full("sub-second", &["accepted", "refused: NonceExpired"], move |cx| {
            let created = T0 + *cx.all("created fraction", &sub);
            let now_s = *cx.all("whole seconds after creation", &[0u32, 1, 9, 10, 11, 299, 300, 301]);
            let now = T0 + Nanos::from(now_s) * SEC + *cx.all("now fraction", &sub);
            let life = *cx.all("lifetime", &[0u32, 1, 10, 300]);
            let mut sc = Scn::default();
            sc.nonce = Some(NonceOpt { expected: s("tZignsnFbp"), created, lifetime: life });
            sc.now = now;
            sc.check(cx, &LIFE)
        }),
        Part::full("extreme-creation-times", &["accepted", "refused: NonceExpired"], move |cx| {
            let created = *cx.all("created", &edges);
            let life = *cx.all("lifetime", &l2);
            let now = *cx.all("now", &[T0, 0, 1, SEC, CLOCK_MAX, (1 << 31) * SEC, (1 << 32) * SEC + 1]);
            let mut sc = Scn::default();
            sc.nonce = Some(NonceOpt { expected: s("tZignsnFbp"), created, lifetime: life });
            sc.now = now;
            sc.check(cx, &LIFE)
        }),
        // an expired nonce is not revived by anything else in the request
        Part::full("expired-whatever-else", &["accepted", "refused: NonceExpired"], |cx| {
            let mut sc = Scn::default();
            with_flow(cx, &mut sc);
            sc.now = T0 + *cx.all("now", &[290 * SEC, 290 * SEC + 1, 291 * SEC, 1000 * SEC]);
            sc.jwt().iat = *cx.all("iat", &[T0 - 5 * SEC, T0 + 290 * SEC, T0 + 10_000 * SEC, 0]);
            sc.jwt().exp = *cx.all("exp", &[None, Some(T0 + 100_000 * SEC)]);
            sc.jwt().nbf = *cx.all("nbf", &[None, Some(T0 - 100_000 * SEC)]);
            sc.jwt().sub = cx.all("sub", &[None, Some(s(DID))]).clone();
            sc.check(cx, &LIFE)
        }),
        whatever_else(
            "lifetime-whatever-else",
            &["accepted", "refused: NonceExpired", "refused: 2 faults"],
            tier.pick(2, 3),
            |cx, sc| {
                let (age, life) = *cx.all("age, lifetime", &[(300 * SEC, 300u32), (300 * SEC + 1, 300), (1, 0), (MS, 0), (0, 0), (301 * SEC, 300)]);
                let now = sc.now;
                if let Some(n) = sc.nonce.as_mut() {
                    n.created = now - age;
                    n.lifetime = life;
                }
            },
            |cx, sc| sc.check(cx, &LIFE),
        ),
    ]
}

// ---------------------------------------------------------------- C06

pub fn c06(tier: Tier) -> Vec<Part> {
    let pairs = near_pairs(tier);
    let mut urls = vec![];
    for scheme in ["https://", "http://", "HTTPS://"] {
        for host in ["a.test", "A.test", "b.test", "a.test.", "www.a.test"] {
            for port in ["", ":443", ":8443"] {
                for path in ["", "/", "/x", "/x/"] {
                    for tail in ["", "?q=1", "#f"] {
                        urls.push(format!("{scheme}{host}{port}{path}{tail}"));
                    }
                }
            }
        }
    }
    urls.push(String::new());
    vec![
        Part::full("audience-neighbourhoods", &["accepted", "refused: Aud"], move |cx| {
            let (iss, aud) = pairs(cx);
            let mut sc = Scn::default();
            with_flow(cx, &mut sc);
            sc.issuer = iss;
            sc.jwt().aud = aud;
            sc.check(cx, &AUD)
        }),
        Part::full("all-url-variant-pairs", &["one accepted in block", "block refused"], move |cx| {
            let a = cx.all("issuer", &urls).clone();
            let n = cx.all_n("block", 4);
            let mut ok = 0;
            for (i, b) in urls.iter().enumerate() {
                if i % 4 == n {
                    let mut sc = Scn::default();
                    sc.issuer = a.clone();
                    sc.jwt().aud = b.clone();
                    if sc.check(cx, &AUD)? == "accepted" {
                        ok += 1;
                    }
                }
            }
            Ok(if ok > 0 { "one accepted in block".into() } else { "block refused".into() })
        }),
        Part::full("audience-contents", &["accepted", "refused: Aud"], {
            let pairs = crate::util::Pairs::new();
            move |cx| {
                let (a, b) = pairs.pick(cx);
                let mut sc = Scn::default();
                sc.issuer = a;
                sc.jwt().aud = b;
                sc.check(cx, &AUD)
            }
        }),
        Part::full("audience-against-other-values", &["accepted", "refused: Aud"], |cx| {
            let vals = [
                "https://issuer.test", "https://issuer.test/credential", "client-1", "tZignsnFbp", "", "null", DID, KID,
                "code-1", "UniversityDegree",
            ];
            let mut sc = Scn::default();
            sc.issuer = s(cx.all("issuer", &vals));
            sc.jwt().aud = s(cx.all("audience", &vals));
            sc.jwt().sub = cx.all("sub", &[None, Some(s("https://issuer.test"))]).clone();
            with_flow(cx, &mut sc);
            sc.check(cx, &AUD)
        }),
        echoes(
            "audience-echoes",
            &["accepted", "refused: Aud"],
            3,
            |sc, place, t| {
                if place != 1 {
                    sc.issuer = t.clone();
                }
                if place != 0 {
                    sc.jwt().aud = t;
                }
            },
            |cx, sc| sc.check(cx, &AUD),
        ),
        kinds("audience-kinds", &[(false, "aud")]),
        whatever_else(
            "audience-whatever-else",
            &["accepted", "refused: Aud", "refused: 2 faults"],
            tier.pick(2, 3),
            |cx, sc| {
                let t = [
                    ("https://i.test/a", "https://i.test/a"), ("https://i.test/a", "https://i.test"), ("https://i.test", "https://i.test/a"),
                    ("https://i.test", "HTTPS://i.test"), ("", ""), ("https://i.test", "https://issuer.test/credential"),
                    ("https://i.test", "client-1"), ("https://i.test", "https://as.test"), ("https://i.test", "https://other.test"),
                ];
                let (i, a) = *cx.all("issuer, audience", &t);
                sc.issuer = s(i);
                sc.jwt().aud = s(a);
            },
            |cx, sc| sc.check(cx, &AUD),
        ),
    ]
}

// ---------------------------------------------------------------- C07

pub fn c07(tier: Tier) -> Vec<Part> {
    let pairs = near_pairs(tier);
    const GRANTS: [(bool, bool); 4] = [(false, true), (true, true), (true, false), (false, false)];
    vec![
        Part::full("table", &["accepted", "refused: Iss"], |cx| {
            let vals = [
                None, Some(s("")), Some(s("client-1")), Some(s("client-2")), Some(s("Client-1")), Some(s("null")),
                Some(s("https://issuer.test")), Some(s("tZignsnFbp")), Some(s(DID)), Some(s("code-1")),
            ];
            let mut sc = Scn::default();
            sc.offer = Some(*cx.all("grants (auth, pre)", &GRANTS));
            sc.client_id = cx.all("client id", &vals).clone();
            sc.jwt().iss = cx.all("iss", &vals).clone();
            sc.jwt().sub = cx.all("sub", &[None, Some(s("client-1"))]).clone();
            sc.check(cx, &ISS)
        }),
        Part::full("client-id-neighbourhoods", &["accepted", "refused: Iss"], move |cx| {
            let (c, i) = pairs(cx);
            let mut sc = Scn::default();
            sc.offer = Some(*cx.all("grants (auth, pre)", &GRANTS));
            sc.client_id = Some(c);
            sc.jwt().iss = Some(i);
            sc.check(cx, &ISS)
        }),
        Part::full(
            "all-short-client-id-pairs",
            &["one accepted in block", "block refused"],
            short_pairs(tier, &ISS, |a, b| {
                let mut sc = Scn::default();
                sc.client_id = Some(a);
                sc.jwt().iss = Some(b);
                sc
            }),
        ),
        Part::full("client-id-contents", &["accepted", "refused: Iss"], {
            let pairs = crate::util::Pairs::new();
            move |cx| {
                let (a, b) = pairs.pick(cx);
                let mut sc = Scn::default();
                sc.client_id = Some(a);
                sc.jwt().iss = Some(b);
                sc.check(cx, &ISS)
            }
        }),
        Part::full("without-client-id", &["accepted", "refused: Iss"], {
            let vals: Vec<Option<String>> = std::iter::once(None)
                .chain(all_strings(&['a', ' ', '\0'], 2).into_iter().map(Some))
                .chain(bases().into_iter().map(Some))
                .collect();
            move |cx| {
                let mut sc = Scn::default();
                sc.offer = Some(*cx.all("grants (auth, pre)", &GRANTS));
                sc.client_id = None;
                sc.jwt().iss = cx.all("iss", &vals).clone();
                sc.check(cx, &ISS)
            }
        }),
        echoes(
            "client-id-echoes",
            &["accepted", "refused: Iss"],
            6,
            |sc, place, t| {
                match place {
                    0 => sc.client_id = Some(t),
                    1 => sc.jwt().iss = Some(t),
                    2 => {
                        sc.client_id = Some(t.clone());
                        sc.jwt().iss = Some(t);
                    }
                    3 => {
                        sc.client_id = Some(t);
                        sc.jwt().iss = None;
                    }
                    4 => {
                        sc.client_id = None;
                        sc.jwt().iss = Some(t);
                    }
                    _ => {
                        sc.client_id = None;
                        sc.jwt().iss = None;
                        sc.jwt().sub = Some(t);
                    }
                }
            },
            |cx, sc| sc.check(cx, &ISS),
        ),
        kinds("client-id-kinds", &[(false, "iss")]),
        whatever_else(
            "client-id-whatever-else",
            &["accepted", "refused: Iss", "refused: 2 faults"],
            tier.pick(1, 2),
            |cx, sc| {
                let v = [None, Some(s("c-1")), Some(s("c-2")), Some(s(""))];
                sc.offer = Some(*cx.all("grants (auth, pre)", &GRANTS));
                sc.client_id = cx.all("client id", &v).clone();
                sc.jwt().iss = cx.all("iss", &v).clone();
            },
            |cx, sc| sc.check(cx, &ISS),
        ),
    ]
}

// ---------------------------------------------------------------- C08

pub fn c08(tier: Tier) -> Vec<Part> {
    let mut offs: Vec<Option<Nanos>> = vec![None];
    offs.extend(DELTAS.iter().filter(|d| d.abs() < 1 << 61).map(|d| Some(*d)));
    let o2 = offs.clone();
    let stamps: Vec<Option<Nanos>> = {
        let mut v = vec![None];
        // representable in RFC 3339: years 0000 .. 9999
        for t in [
            -62_167_219_200 * SEC, -62_135_596_800 * SEC, -(1 << 31) * SEC - 1, -SEC, -1, 0, 1, SEC - 1, SEC, T0 - SEC, T0 - 1,
            T0, T0 + 1, T0 + SEC, (1 << 31) * SEC - 1, (1 << 31) * SEC, (1 << 32) * SEC, CLOCK_MAX - SEC, CLOCK_MAX,
        ] {
            v.push(Some(t));
        }
        v
    };
    let nows: Vec<Nanos> = tier.pick(vec![T0, T0 + 500 * MS, T0 + 999_999_999], {
        vec![
            T0, T0 + 1, T0 + MS, T0 + 500 * MS, T0 + 999_999_999, 0, 1, SEC, (1 << 31) * SEC - 1, (1 << 31) * SEC,
            4_102_444_800 * SEC + 7, 1_709_164_799 * SEC + 999_999_999,
        ]
    });
    fn both(cx: &mut Ctx, nbf: Option<Nanos>, exp: Option<Nanos>, now: Nanos) -> Res {
        let mut sc = Scn::default();
        sc.now = now;
        sc.nonce.as_mut().unwrap().created = now;
        sc.jwt().nbf = nbf;
        sc.jwt().exp = exp;
        verify_alone(cx, &sc)?;
        sc.check(cx, &TIME)
    }
    vec![
        Part::full("around-nbf-and-exp", &["accepted", "refused: NotYet", "refused: Expired", "refused: 2 faults"], move |cx| {
            let now = *cx.all("now", &nows);
            let nbf = cx.all("nbf - now", &offs).map(|d| now + d);
            let exp = cx.all("exp - now", &o2).map(|d| now + d);
            both(cx, nbf, exp, now)
        }),
        // times that happen to be equal, or nearly
        Part::full("coinciding-times", &["accepted", "refused: NotYet", "refused: Expired", "refused: 2 faults"], {
            let near: &'static [Nanos] =
                tier.pick(&[0, -1, 1, -SEC, SEC], &[0, -1, 1, -MS, MS, -SEC, SEC, -60 * SEC, 60 * SEC, -3600 * SEC, 3600 * SEC]);
            let span: &'static [Nanos] = tier.pick(
                &[-3600 * SEC, -SEC, -1, 0, 1, SEC, 3600 * SEC],
                &[-86_400 * SEC, -3600 * SEC, -60 * SEC, -SEC, -MS, -1, 0, 1, MS, SEC, 60 * SEC, 3600 * SEC, 86_400 * SEC],
            );
            move |cx| {
                let mut sc = Scn::default();
                let at = |d: &Nanos| T0 + *d;
                let opt: Vec<Option<Nanos>> = std::iter::once(None).chain(span.iter().map(|d| Some(at(d)))).collect();
                let (nbf, exp) = (*cx.all("nbf", &opt), *cx.all("exp", &opt));
                // what another time is near to
                let anchor = |cx: &mut Ctx, what: &'static str| -> Nanos {
                    let to = *cx.all(what, &["now", "nbf", "exp"]);
                    match to {
                        "nbf" => nbf.unwrap_or(T0),
                        "exp" => exp.unwrap_or(T0),
                        _ => T0,
                    }
                };
                sc.jwt().nbf = nbf;
                sc.jwt().exp = exp;
                sc.jwt().iat = anchor(cx, "iat near") + cx.all("iat from there", near);
                let n = sc.nonce.as_mut().unwrap();
                n.lifetime = 100_000;
                match cx.all_n("nonce", 4) {
                    0 => n.created = T0,
                    1 => n.created = nbf.unwrap_or(T0),
                    2 => n.created = exp.unwrap_or(T0),
                    _ => {
                        // it ends with the proof, if it still lives
                        let end = exp.filter(|e| *e >= T0).unwrap_or(T0);
                        n.created = end - 100_000 * SEC;
                    }
                }
                sc.jwt().sub = cx.all("sub", &[None, Some(s("did:example:holder"))]).clone();
                verify_alone(cx, &sc)?;
                sc.check(cx, &TIME)
            }
        }),
        Part::full("absolute-times", &["accepted", "refused: NotYet", "refused: Expired"], move |cx| {
            let nbf = *cx.all("nbf", &stamps);
            let exp = *cx.all("exp", &stamps);
            let now = *cx.all("now", &[0, 1, SEC, T0, T0 + 1, (1 << 31) * SEC, CLOCK_MAX - SEC, CLOCK_MAX]);
            both(cx, nbf, exp, now)
        }),
        Part::full("window-in-every-flow", &["accepted", "refused: NotYet", "refused: Expired"], |cx| {
            let mut sc = Scn::default();
            with_flow(cx, &mut sc);
            sc.now = T0 + *cx.all("now", &[-SEC, -1, 0, 1, 10 * SEC - 1, 10 * SEC, 11 * SEC]);
            sc.jwt().nbf = *cx.all("nbf", &[None, Some(T0)]);
            sc.jwt().exp = *cx.all("exp", &[None, Some(T0 + 10 * SEC)]);
            sc.jwt().iat = *cx.all("iat", &[T0 - 5 * SEC, T0 + 5 * SEC, 0]);
            sc.jwt().alg = s(cx.all("alg", &["EdDSA", "ES256", "RS256"]));
            sc.nonce.as_mut().unwrap().lifetime = *cx.all("nonce lifetime", &[21, 3600]);
            verify_alone(cx, &sc)?;
            sc.check(cx, &TIME)
        }),
        whatever_else(
            "window-whatever-else",
            &["accepted", "refused: NotYet", "refused: Expired", "refused: 2 faults"],
            tier.pick(2, 3),
            |cx, sc| {
                let (b, e) = *cx.all(
                    "nbf, exp, from now",
                    &[
                        (Some(0), Some(1)), (Some(1), None), (None, Some(0)), (Some(1), Some(SEC)), (Some(-SEC), Some(0)),
                        (Some(SEC), Some(-SEC)), (Some(2 * SEC), Some(SEC)), (Some(-5 * SEC), Some(-4 * SEC)),
                    ],
                );
                let now = sc.now;
                sc.jwt().nbf = b.map(|d: Nanos| now + d);
                sc.jwt().exp = e.map(|d: Nanos| now + d);
            },
            |cx, sc| {
                let readable = sc.proof.as_ref().is_some_and(|p| p.1.raw.is_none());
                if readable && !sc.proof_faults().contains(&Fault::Unreadable) {
                    verify_alone(cx, sc)?;
                }
                sc.check(cx, &TIME)
            },
        ),
    ]
}

fn verify_alone(cx: &mut Ctx, sc: &Scn) -> Result<(), Problem> {
    let text = sc.proof.as_ref().unwrap().1.compact();
    let jwt = cx.call("parse", || ProofJwt::from_str(&text))?;
    let jwt = jwt.map_err(|e| Problem::new("verify/unreadable", format!("{e:?}: {text}")))?;
    clock::set(sc.now);
    let r = cx.call("verify", || jwt.verify());
    clock::release();
    let r = r?;
    let faults: Vec<Fault> =
        sc.faults().into_iter().filter(|f| matches!(f, Fault::NotYet | Fault::Expired)).collect();
    let ok = match &r {
        Ok(()) => faults.is_empty(),
        Err(e) => faults.iter().any(|f| sc.reports(&E::JwtError(e.clone()), f)),
    };
    if ok {
        Ok(())
    } else {
        Err(Problem::new("verify", format!("verify answered {r:?}, what is wrong is {faults:?}")))
    }
}

// ---------------------------------------------------------------- C09

fn case_variants(base: &str, mask: u64) -> String {
    let mut bit = 0;
    base.chars()
        .map(|c| {
            if c.is_ascii_alphabetic() {
                let up = mask >> bit & 1 == 1;
                bit += 1;
                if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
            } else {
                c
            }
        })
        .collect()
}

/// All three entry points on one scenario.
fn entries(cx: &mut Ctx, sc: &Scn) -> Res {
    let rq = sc.request();
    let faults = sc.proof_faults();
    let pre = cx.call("pre_evaluate_credential_request", || CredentialIssuer::pre_evaluate_credential_request(&rq))?;
    let mut answers = vec![("pre", pre.err())];
    let issue = |n: usize| match n {
        0 => Some(CredentialOrAcceptanceToken::AcceptanceToken(s("t"))),
        1 => None,
        2 => Some(CredentialOrAcceptanceToken::Credential(sc.format.clone())),
        _ => Some(CredentialOrAcceptanceToken::Credential(super::issuer::formats()[3].clone())),
    };
    for (n, nonce) in [(0, true), (0, false), (1, true), (1, false), (2, false), (3, true)] {
        let nonce = nonce.then(CNonce::default);
        let r = cx.call("create_credential_success_response", || CredentialIssuer::create_credential_success_response(&rq, issue(n), nonce))?;
        answers.push(("response", r.err()));
    }
    for (what, err) in answers {
        match err {
            None if faults.is_empty() => {}
            Some(e) if faults.iter().any(|f| sc.reports(&e, f)) => {}
            // what the key reference deserves is another property's business
            Some(e) if sc.faults().iter().any(|f| matches!(f, Fault::Jwk | Fault::X5c | Fault::NotDid | Fault::NoKey) && sc.reports(&e, f)) => {}
            got => {
                return Err(Problem::new(
                    format!("{what}/{}", faults.iter().map(Fault::name).collect::<Vec<_>>().join("+")),
                    format!("{what} answered {got:?}, what is wrong with the proof is {faults:?}: {:?}", sc.proof),
                ))
            }
        }
    }
    sc.check(cx, &TYPES)
}

pub fn c09(tier: Tier) -> Vec<Part> {
    let algs: Vec<&str> = GOOD_ALGS.iter().chain(&BAD_ALGS).copied().collect();
    let a2 = algs.clone();
    let typ = "openid4vci-proof+jwt";
    let letters = typ.chars().filter(char::is_ascii_alphabetic).count();
    let masks: Vec<u64> = match tier {
        Tier::Quick => {
            let mut v: Vec<u64> = vec![0, (1 << letters) - 1];
            for i in 0..letters {
                v.push(1 << i);
                v.push((1 << i) - 1);
                for j in 0..i {
                    v.push(1 << i | 1 << j);
                }
            }
            v.sort_unstable();
            v.dedup();
            v
        }
        Tier::Thorough => (0..1 << letters).collect(),
    };
    let sg: &[char] = tier.pick(
        &['a', 'J', '+', ' ', '\u{131}', '\u{17f}'],
        &['a', 'J', '0', '+', ' ', '-', '/', '.', '\u{131}', '\u{130}', '\u{17f}', '\u{212a}', '\0', 'é'],
    );
    let mut typs = near_misses(typ, sg);
    for t in ["jwt", "JWT", "at+jwt", "openid4vci-proof", "application/openid4vci-proof+jwt", "openid4vci-proof+cwt", "dpop+jwt"] {
        typs.push(s(t));
    }
    let mut pts = near_misses("jwt", sg);
    pts.extend(near_misses("JWT", sg));
    for t in ["cwt", "ldp_vp", "jwt_vc", "jws", "none"] {
        pts.push(s(t));
    }
    let mut alg_near: Vec<String> = vec![];
    for a in &algs {
        alg_near.push(s(a));
        alg_near.extend(near_misses(a, &['a', 'S', '1', 'K', ' ', '-']));
    }
    alg_near.extend(crate::util::JOSE.map(s));
    alg_near.extend(["ES512K", "HMAC"].map(s));
    alg_near.sort();
    alg_near.dedup();
    // names that are themselves a listed algorithm stay: the model knows them
    let pt_cases: Vec<String> = (0..8).map(|m| case_variants("jwt", m)).collect();
    let p2 = pt_cases.clone();
    vec![
        Part::full(
            "table",
            &["accepted", "refused: ProofType", "refused: Typ", "refused: Alg", "refused: 3 faults"],
            move |cx| {
                let mut sc = Scn::default();
                with_flow(cx, &mut sc);
                let mut ptv = pt_cases.clone();
                ptv.extend(["cwt", "", "jwt ", "ldp_vp"].map(s));
                sc.proof.as_mut().unwrap().0 = cx.all("proof type", &ptv).clone();
                sc.jwt().typ = cx.all("typ", &[s(typ), typ.to_uppercase(), s("OpenID4VCI-Proof+JWT"), s("jwt"), s("")]).clone();
                sc.jwt().alg = s(cx.all("alg", &algs));
                sc.jwt().sig = cx.all("signature", &[Some(s("c2lnbmF0dXJl")), None, Some(s(""))]).clone();
                entries(cx, &sc)
            },
        ),
        Part::full("typ-letter-cases", &["accepted", "refused: Alg"], move |cx| {
            let mut sc = Scn::default();
            sc.jwt().typ = case_variants(typ, *cx.all("mask", &masks));
            sc.jwt().alg = s(cx.all("alg", &["EdDSA", "none"]));
            entries(cx, &sc)
        }),
        Part::full("typ-neighbourhood", &["refused: Typ"], move |cx| {
            let mut sc = Scn::default();
            sc.jwt().typ = cx.all("typ", &typs).clone();
            sc.jwt().alg = s(cx.all("alg", &["EdDSA", "HS256", "ES256"]));
            if cx.flag("unsigned") {
                sc.jwt().sig = None;
            }
            entries(cx, &sc)
        }),
        Part::full("proof-type-neighbourhood", &["refused: ProofType", "accepted"], move |cx| {
            let mut sc = Scn::default();
            sc.proof.as_mut().unwrap().0 = cx.all("proof type", &pts).clone();
            sc.jwt().alg = s(cx.all("alg", &a2));
            if cx.flag("unsigned") {
                sc.jwt().sig = None;
            }
            entries(cx, &sc)
        }),
        Part::full("algorithm-neighbourhoods", &["refused: Unreadable", "refused: Alg", "accepted"], move |cx| {
            let mut sc = Scn::default();
            sc.jwt().alg = cx.all("alg", &alg_near).clone();
            sc.proof.as_mut().unwrap().0 = cx.all("proof type", &p2).clone();
            if cx.flag("unsigned") {
                sc.jwt().sig = None;
            }
            entries(cx, &sc)
        }),
        Part::full("no-proof", &["refused: NoProof", "refused: 2 faults"], |cx| {
            let mut sc = Scn::default();
            with_flow(cx, &mut sc);
            sc.proof = None;
            sc.format = cx.all("format", &[ldp(&["T"]), jwt_vc(&["T"])]).clone();
            if cx.flag("no nonce options") {
                sc.nonce = None;
            }
            if cx.flag("no options") {
                sc.opts = false;
            }
            if cx.flag("no document") {
                sc.doc = None;
            }
            if cx.flag("no offer") {
                sc.offer = None;
            }
            entries(cx, &sc)
        }),
        // an omitted proof_type means "jwt"
        Part::full("omitted-proof-type", &["accepted", "refused: Alg", "refused: Typ"], |cx| {
            let mut sc = Scn::default();
            sc.jwt().alg = s(cx.all("alg", &["EdDSA", "none", "HS512", "ES256K"]));
            sc.jwt().typ = cx.all("typ", &[s("openid4vci-proof+jwt"), s("jwt")]).clone();
            let rq = sc.request();
            let mut v = serde_json::to_value(&rq).expect("request as JSON");
            v["proof"].as_object_mut().unwrap().remove("proof_type");
            let back = cx.call("deserialise", || {
                serde_json::from_value::<openid4vci::types::credential_request::CredentialRequest>(v)
            })?;
            let back = back.map_err(|e| Problem::new("omitted-proof-type", e.to_string()))?;
            let pt = back.proof.as_ref().map(|p| p.proof_type.clone()).unwrap_or_default();
            if !pt.eq_ignore_ascii_case("jwt") {
                return Err(Problem::new("omitted-proof-type", format!("read as {pt}")));
            }
            sc.proof.as_mut().unwrap().0 = pt;
            entries(cx, &sc)
        }),
        echoes(
            "type-echoes",
            &["accepted", "refused: ProofType", "refused: Typ", "refused: Unreadable"],
            4,
            |sc, place, t| match place {
                0 => sc.proof.as_mut().unwrap().0 = t,
                1 => sc.jwt().typ = t,
                2 => sc.jwt().alg = t,
                _ => {
                    sc.jwt().typ = t.clone();
                    sc.proof.as_mut().unwrap().0 = t;
                }
            },
            |cx, sc| entries(cx, sc),
        ),
        Part::full("type-contents", &["refused: ProofType", "refused: Typ", "refused: Unreadable"], {
            let all = crate::util::contents();
            move |cx| {
                let t = cx.all("content", &all).clone();
                let mut sc = Scn::default();
                let place = cx.all_n("place: proof type, typ, alg", 3);
                let base = ["jwt", "openid4vci-proof+jwt", "EdDSA"][place];
                let t = match cx.all_n("shape", 7) {
                    0 => t,
                    1 => format!("{base}{t}"),
                    2 => format!("{t}{base}"),
                    3 => format!("{base};{t}"),
                    4 => format!("{base},{t}"),
                    5 => format!("{base}/{t}"),
                    _ => format!("{t}/{base}"),
                };
                match place {
                    0 => sc.proof.as_mut().unwrap().0 = t,
                    1 => sc.jwt().typ = t,
                    _ => sc.jwt().alg = t,
                }
                entries(cx, &sc)
            }
        }),
        kinds("type-kinds", &[(true, "typ"), (true, "alg")]),
        whatever_else(
            "types-whatever-else",
            &["accepted", "refused: ProofType", "refused: Typ", "refused: Alg", "refused: Unreadable", "refused: NoProof"],
            tier.pick(2, 3),
            |cx, sc| {
                let t = [
                    ("jwt", "openid4vci-proof+jwt", "ES256K"), ("JWT", "OPENID4VCI-proof+jwt", "RS256"), ("cwt", "openid4vci-proof+jwt", "EdDSA"),
                    ("jwt", "JWT", "EdDSA"), ("jwt", "openid4vci-proof+jwt", "none"), ("jwt", "openid4vci-proof+jwt", "HS256"),
                    ("jwt", "openid4vci-proof+jwt", "HS384"), ("jwt", "openid4vci-proof+jwt", "HS512"),
                ];
                let (p, ty, a) = *cx.all("proof type, typ, alg", &t);
                sc.proof.as_mut().unwrap().0 = s(p);
                sc.jwt().typ = s(ty);
                sc.jwt().alg = s(a);
            },
            |cx, sc| entries(cx, sc),
        ),
        // long strings
        Part::full("long-types", &["accepted", "refused: ProofType", "refused: Typ", "refused: Unreadable"], |cx| {
            let mut sc = Scn::default();
            let l = long(*cx.all("length", &LADDER));
            match cx.all_n("where", 7) {
                0 => sc.jwt().typ = format!("openid4vci-proof+jwt{l}"),
                1 => sc.jwt().typ = format!("{l}openid4vci-proof+jwt"),
                2 => sc.proof.as_mut().unwrap().0 = format!("jwt{l}"),
                3 => sc.proof.as_mut().unwrap().0 = format!("{l}jwt"),
                4 => sc.jwt().alg = format!("EdDSA{l}"),
                5 => sc.jwt().alg = l,
                _ => {}
            }
            entries(cx, &sc)
        }),
    ]
}

// ---------------------------------------------------------------- C11

/// Kids over a small grammar, and everything near a good one.
pub fn kids(tier: Tier) -> Vec<String> {
    let mut v = all_sentences(
        &["did:", "example", ":", "a", "/", "?", "#", "k", " ", "%41", "é"],
        tier.pick(4, 5),
    );
    // with a proper prefix, deeper
    for t in all_sentences(&["a", "b:c", "/", "?", "#", ";v=1", "."], tier.pick(4, 6)) {
        v.push(format!("did:ex:{t}"));
    }
    v.extend(near_misses(KID, tier.pick(&['a', '/', '?', '#', ':', ' '], &['a', 'D', '/', '?', '#', ':', ' ', '.', '%', 'é', '\0'])));
    v.push(s(KID));
    v.extend(crate::util::METHODS.map(s));
    for t in ["DID:example:holder#key-1", "Did:example:holder#key-1", "did;example", "https://did:example", "urn:did:example:holder#key-1", "key-1", "#key-1", "did"] {
        v.push(s(t));
    }
    v.push(format!("did:example:{}#k", "x".repeat(5000)));
    let mut seen = std::collections::HashSet::new();
    v.retain(|k| seen.insert(k.clone()));
    v
}

/// Pre-evaluation, then evaluation with a document that has exactly that kid.
fn pre_and_eval(cx: &mut Ctx, sc: &mut Scn) -> Res {
    let rq = sc.request();
    let pre = cx.call("pre_evaluate_credential_request", || CredentialIssuer::pre_evaluate_credential_request(&rq))?;
    cx.note(|| format!("pre-evaluation: {pre:?}"));
    let k = sc.proof.as_ref().map(|p| p.1.key.clone());
    let bad = |why: &str| {
        Err(Problem::new(format!("pre/{why}"), format!("pre-evaluation answered {pre:?} for {k:?}")))
    };
    match &k {
        None | Some(KeyHdr::Absent) => match &pre {
            // no key reference: no DID to resolve (refusing already here is fine too)
            Ok(r) if r.did.is_some() => return bad("did-from-nowhere"),
            Ok(_) => {}
            Err(e) => {
                if k.is_none() {
                    return bad("refused-without-proof");
                }
                if !sc.reports(e, &Fault::NoKey) {
                    return bad("wrong-error");
                }
            }
        },
        Some(KeyHdr::Kid(kid)) if is_did_url(kid) => match &pre {
            Ok(r) if r.did.as_deref() == Some(did_of(kid)) => {}
            _ => return bad("did"),
        },
        Some(KeyHdr::Kid(_)) => match &pre {
            Err(e) if sc.reports(e, &Fault::NotDid) => {}
            _ => return bad("not-a-did-url"),
        },
        Some(KeyHdr::Jwk(_)) => match &pre {
            Err(e) if sc.reports(e, &Fault::Jwk) => {}
            _ => return bad("jwk"),
        },
        Some(KeyHdr::X5c(_)) => match &pre {
            Err(e) if sc.reports(e, &Fault::X5c) => {}
            _ => return bad("x5c"),
        },
    }
    sc.check(cx, &BIND)
}

pub fn formats() -> Vec<CredentialFormatProfile> {
    vec![
        ldp(&["VerifiableCredential", "UniversityDegree"]),
        ldp(&[]),
        jwt_vc(&["VerifiableCredential"]),
        CredentialFormatProfile::JwtVcJsonLd {
            types: vec![s("A"), s("B")],
            credential_subject: Some(std::collections::HashMap::new()),
            order: Some(vec![s("B"), s("A"), s("A")]),
        },
        CredentialFormatProfile::MsoMdoc { doctype: s("org.iso.18013.5.1.mDL"), claims: None, order: None },
        CredentialFormatProfile::MsoMdoc { doctype: s(""), claims: None, order: Some(vec![]) },
    ]
}

pub fn c11(tier: Tier) -> Vec<Part> {
    let ks = kids(tier);
    let k2: Vec<String> = ks.iter().take(400).cloned().collect();
    vec![
        Part::full("key-ids", &["accepted", "refused: NotDid"], move |cx| {
            let kid = cx.all("kid", &ks).clone();
            let mut sc = Scn::default();
            sc.jwt().key = KeyHdr::Kid(kid.clone());
            if cx.flag("document by DID, relative id") && is_did_url(&kid) {
                let did = did_of(&kid);
                let rel = kid[did.len()..].to_owned();
                if !rel.starts_with("//") {
                    sc.doc = Some(Doc { id: s(did), vms: vec![Vm { list: 0, id: rel, mat: Mat::Okp("Ed25519", key(2)) }], refs: vec![] });
                }
            } else {
                sc.doc = Some(Doc { id: s(did_of(&kid)), vms: vec![Vm { list: 0, id: kid, mat: Mat::Okp("Ed25519", key(1)) }], refs: vec![] });
            }
            pre_and_eval(cx, &mut sc)
        }),
        Part::full("other-key-references", &["refused: Jwk", "refused: X5c", "refused: NoKey", "refused: NoProof"], |cx| {
            let jwk = r#"{"kty":"OKP","crv":"Ed25519","x":"lJZrfAjkBXdfjebMHEUI9usidAPhAlssitLXR3OYxbI"}"#;
            let keys = [
                KeyHdr::Absent, KeyHdr::Jwk(s(jwk)), KeyHdr::Jwk(s("{}")), KeyHdr::Jwk(s("")), KeyHdr::Jwk(s(KID)),
                KeyHdr::Jwk(s(r#"{"kty":"EC","crv":"P-256","x":"AA","y":"AA","alg":"EdDSA"}"#)), KeyHdr::X5c(s("MIIB")),
                KeyHdr::X5c(s("")), KeyHdr::X5c(s(KID)), KeyHdr::X5c(s(jwk)),
            ];
            let mut sc = Scn::default();
            with_flow(cx, &mut sc);
            if cx.flag("no proof") {
                sc.proof = None;
            } else {
                sc.jwt().key = cx.all("key", &keys).clone();
                sc.jwt().sub = cx.all("sub", &[None, Some(s(DID)), Some(s("did:example:other"))]).clone();
            }
            if cx.flag("no document") {
                sc.doc = None;
            }
            pre_and_eval(cx, &mut sc)
        }),
        Part::full("subject-and-credential", &["accepted"], |cx| {
            let mut sc = Scn::default();
            with_flow(cx, &mut sc);
            sc.format = cx.all("requested credential", &formats()).clone();
            let kid = s(cx.all("kid", &[KID, "did:key:z6Mk#z6Mk", "did:web:a.test:u:1?versionId=2#k", "did:a:b/p#k", "did:example:holder"]));
            let iss = Some(s(cx.all("iss", &["client-1", "did:example:other"])));
            sc.jwt().iss = iss.clone();
            if sc.client_id.is_some() {
                sc.client_id = iss;
            }
            sc.jwt().sub = cx.all("sub", &[None, Some(s("did:example:other")), Some(s(""))]).clone();
            sc.jwt().key = KeyHdr::Kid(kid.clone());
            // the document may be somebody else's, with an absolute method id
            let did = cx.all("document id", &[s(did_of(&kid)), s("did:example:other")]).clone();
            sc.doc = Some(Doc {
                id: did,
                vms: vec![
                    Vm { list: 0, id: s("did:example:other#key-1"), mat: Mat::Okp("Ed25519", key(7)) },
                    Vm { list: *cx.all("list", &[0usize, 1, 2]), id: kid, mat: Mat::Okp("Ed25519", key(1)) },
                ],
                refs: vec![],
            });
            pre_and_eval(cx, &mut sc)
        }),
        Part::full("key-ids-with-typ-and-proof-faults", &["refused: NotDid"], move |cx| {
            // kid decides independently of the algorithm and of the sub claim
            let kid = cx.all("kid", &k2).clone();
            let mut sc = Scn::default();
            sc.jwt().alg = s(cx.all("alg", &["ES256K", "RS256"]));
            sc.jwt().sub = cx.all("sub", &[None, Some(s(DID))]).clone();
            sc.doc = Some(Doc { id: s(did_of(&kid)), vms: vec![Vm { list: 0, id: kid.clone(), mat: Mat::Okp("Ed25519", key(1)) }], refs: vec![] });
            sc.jwt().key = KeyHdr::Kid(kid);
            pre_and_eval(cx, &mut sc)
        }),
        Part::full("long-key-ids", &["accepted", "refused: NotDid"], |cx| {
            let l = long(*cx.all("length", &LADDER)).replace('-', "m").replace('_', "n");
            let kid = match cx.all_n("where", 7) {
                0 => format!("did:ex:{l}#k"),
                1 => format!("did:ex:a#{l}"),
                2 => format!("did:ex:a/{l}#k"),
                3 => format!("did:ex:a?{l}#k"),
                4 => format!("did:{l}:a#k"),
                5 => format!("{l}did:ex:a#k"),
                _ => format!("did:ex:{l}"),
            };
            let mut sc = Scn::default();
            sc.jwt().key = KeyHdr::Kid(kid.clone());
            sc.doc = Some(Doc { id: s(did_of(&kid)), vms: vec![Vm { list: 0, id: kid, mat: Mat::Okp("Ed25519", key(1)) }], refs: vec![] });
            pre_and_eval(cx, &mut sc)
        }),
        Part::full("contents", &["accepted", "refused: NotDid"], {
            let all = crate::util::contents();
            let prefixes = ["did:ex:", "did:ex:a", "did:ex:a:", "did:ex:a/", "did:ex:a?", "did:ex:a#", "did:", "", "did:web:a.test%3A8443:", "did:key:", "did:example:holder#"];
            move |cx| {
                let t = cx.all("content", &all).clone();
                let kid = format!("{}{t}{}", cx.all("before", &prefixes), cx.all("after", &["", "#k", "/p?q#k", ";v=1#k", ":b#k"]));
                let mut sc = Scn::default();
                sc.jwt().key = KeyHdr::Kid(kid.clone());
                sc.doc = Some(Doc { id: s(did_of(&kid)), vms: vec![Vm { list: 0, id: kid, mat: Mat::Okp("Ed25519", key(1)) }], refs: vec![] });
                pre_and_eval(cx, &mut sc)
            }
        }),
        Part::full("format-variations", &["accepted"], {
            let all: Vec<CredentialFormatProfile> = super::wire::format_docs().iter().map(super::wire::format_of).collect();
            move |cx| {
                let mut sc = Scn::default();
                with_flow(cx, &mut sc);
                sc.format = cx.all("requested format", &all).clone();
                pre_and_eval(cx, &mut sc)
            }
        }),
        Part::full("subject-contents", &["accepted"], {
            let all = crate::util::stretched();
            move |cx| {
                let t = cx.all("content", &all).clone();
                let mut sc = Scn::default();
                sc.jwt().sub = Some(t.clone());
                if cx.flag("issuer alike") {
                    sc.client_id = Some(t.clone());
                    sc.jwt().iss = Some(t.clone());
                }
                sc.format = match cx.all_n("requested credential", 5) {
                    0 => ldp(&["VerifiableCredential"]),
                    1 => ldp(&[&t]),
                    2 => jwt_vc(&["T", &t, &t]),
                    3 => CredentialFormatProfile::MsoMdoc { doctype: t.clone(), claims: None, order: Some(vec![t.clone(), s("a"), t]) },
                    _ => CredentialFormatProfile::JwtVcJsonLd { types: vec![s("b"), t.clone(), s("a")], credential_subject: None, order: Some(vec![t]) },
                };
                pre_and_eval(cx, &mut sc)
            }
        }),
        echoes(
            "binding-echoes",
            &["accepted", "refused: NotDid"],
            5,
            |sc, place, t| {
                let kid = match place {
                    0 => t,
                    1 => format!("did:example:{t}#key-1"),
                    2 => format!("did:example:holder#{t}"),
                    3 => {
                        sc.jwt().sub = Some(t);
                        return;
                    }
                    _ => {
                        sc.format = ldp(&[&t]);
                        return;
                    }
                };
                let d = sc.doc.as_mut().unwrap();
                d.id = s(did_of(&kid));
                d.vms[0].id = kid.clone();
                d.vms[1].id = s("did:example:other#auth-key");
                sc.jwt().key = KeyHdr::Kid(kid);
            },
            pre_and_eval,
        ),
        whatever_else(
            "binding-whatever-else",
            &["accepted", "refused: NotDid", "refused: Jwk", "refused: X5c", "refused: NoKey"],
            tier.pick(2, 3),
            |cx, sc| {
                let k = cx
                    .all(
                        "key",
                        &[
                            KeyHdr::Kid(s("did:example:holder?versionId=1#key-1")), KeyHdr::Kid(s(KID)), KeyHdr::Kid(s("did:example:other/p#key-1")),
                            KeyHdr::Kid(s("holder#key-1")), KeyHdr::Absent, KeyHdr::Jwk(s(KID)), KeyHdr::X5c(s(KID)),
                        ],
                    )
                    .clone();
                if let KeyHdr::Kid(id) = &k {
                    let id = id.clone();
                    if let Some(d) = sc.doc.as_mut().filter(|d| d.named(&id).is_empty()) {
                        d.vms.push(Vm { list: 2, id, mat: Mat::Okp("Ed25519", key(4)) });
                    }
                }
                sc.jwt().key = k;
                let formats = formats();
                sc.format = formats[cx.all_n("credential", 2) * 3].clone();
            },
            pre_and_eval_else,
        ),
    ]
}

/// Pre-evaluation is about proofs that are readable and permitted.
fn pre_and_eval_else(cx: &mut Ctx, sc: &mut Scn) -> Res {
    if sc.proof_faults().is_empty() {
        pre_and_eval(cx, sc)
    } else {
        sc.check(cx, &BIND)
    }
}

// ---------------------------------------------------------------- C12

pub fn texts() -> Vec<String> {
    vec![
        s(""), s("x"), s("."), s(".."), s("a.b"), s("a.b.c.d"), s("}.{"), s("\"}.{\""), s("\",\"nonce\":\"evil"), s("\\"),
        s("\\\"."), s("é.\u{1f511}.\u{2028}"), s("\n.\r\t\0"), s("%2E.%00"), s("null"), "long.".repeat(100),
    ]
}

pub fn signatures() -> Vec<String> {
    let mut v: Vec<String> = [
        "c2lnbmF0dXJl", "x", "=", "-_", "e30", "ewogIH0", "null", "\"", "{}", "é\u{1f511}", " ", "\n", "%2E", "==", "\\u002e", "\0",
    ]
    .map(s)
    .to_vec();
    v.push("A".repeat(86));
    v.push("B".repeat(700));
    v
}

/// A proof without signature: the known defect's inputs are those whose JSON has a dot.
fn unsigned(cx: &mut Ctx, sc: &Scn) -> Res {
    let r = sc.evaluate(cx)?;
    cx.note(|| format!("answer: {r:?}"));
    let j = &sc.proof.as_ref().unwrap().1;
    let faults = sc.faults();
    match &r {
        Ok(a) if faults == [Fault::NoSignature] && j.has_dot() => {
            // the fabricated signature must at least not displace the message
            if let Some(p) = &a.proof_of_possession {
                crate::scn::check_message(j, &p.message)?;
            }
            Err(Problem::new("unsigned-proof-with-dot", format!("accepted an unsigned proof, signature {:?}",
                a.proof_of_possession.as_ref().map(|p| String::from_utf8_lossy(&p.signature).into_owned()))))
        }
        _ => sc.judge(cx, &r, &POP),
    }
}

/// A text as one of the proof's members, such that it stays acceptable.
fn place(cx: &mut Ctx, sc: &mut Scn, l: String) {
    match cx.all_n("where", 8) {
        0 => {
            sc.issuer = l.clone();
            sc.jwt().aud = l;
        }
        1 => {
            sc.nonce.as_mut().unwrap().expected = l.clone();
            sc.jwt().nonce = l;
        }
        2 => {
            sc.client_id = Some(l.clone());
            sc.jwt().iss = Some(l);
        }
        3 => sc.jwt().sub = Some(l),
        4 => {
            let kid = format!("did:example:holder#{l}");
            sc.jwt().key = KeyHdr::Kid(kid.clone());
            sc.doc.as_mut().unwrap().vms[0].id = kid;
        }
        5 => sc.jwt().sig = Some(l.replace('.', "_")),
        6 => {
            sc.jwt().sig = Some(l.replace('.', "_"));
            sc.jwt().sub = Some(l);
        }
        _ => {
            // all of them
            sc.issuer = l.clone();
            sc.jwt().aud = l.clone();
            sc.nonce.as_mut().unwrap().expected = l.clone();
            sc.jwt().nonce = l.clone();
            sc.client_id = Some(l.clone());
            sc.jwt().iss = Some(l.clone());
            sc.jwt().sub = Some(l);
        }
    }
}

pub fn c12(tier: Tier) -> Vec<Part> {
    let bound = tier.pick(2, 3);
    let fields = |cx: &mut Ctx, sc: &mut Scn| {
        let t = texts();
        let aud = cx.dev("aud", &[vec![sc.issuer.clone()], t.clone()].concat()).clone();
        sc.issuer = aud.clone();
        sc.jwt().aud = aud;
        let nonce = cx.dev("nonce", &[vec![s("tZignsnFbp")], t.clone()].concat()).clone();
        sc.nonce.as_mut().unwrap().expected = nonce.clone();
        sc.jwt().nonce = nonce;
        let iss: Vec<Option<String>> =
            [vec![Some(s("client-1")), None], t.iter().cloned().map(Some).collect()].concat();
        let iss = cx.dev("iss", &iss).clone();
        sc.client_id = iss.clone();
        sc.jwt().iss = iss;
        let sub: Vec<Option<String>> = [vec![None], t.iter().cloned().map(Some).collect()].concat();
        sc.jwt().sub = cx.dev("sub", &sub).clone();
        let kid: Vec<String> = [vec![s("")], t].concat();
        let kid = format!("did:example:holder#{}", cx.dev("kid fragment", &kid));
        sc.jwt().key = KeyHdr::Kid(kid.clone());
        sc.doc.as_mut().unwrap().vms[0].id = kid;
        sc.jwt().alg = s(cx.dev("alg", &["EdDSA", "ES256", "RS512", "ES256K", "ECDH-ES", "PS256"]));
        sc.jwt().typ = s(cx.dev("typ", &["openid4vci-proof+jwt", "OPENID4VCI-PROOF+JWT", "openid4vci-Proof+JWT"]));
        let times = [T0 - 5 * SEC, T0, 0, T0 + 120 * MS, T0 - 1, -SEC - 1, 123_456_789, CLOCK_MAX, -62_135_596_800 * SEC];
        sc.jwt().iat = *cx.dev("iat", &times);
        sc.jwt().nbf = *cx.dev("nbf", &[None, Some(T0), Some(T0 - 1), Some(T0 - 500 * MS), Some(0), Some(-62_135_596_800 * SEC)]);
        sc.jwt().exp = *cx.dev("exp", &[None, Some(T0 + 1), Some(T0 + SEC), Some(T0 + 3 * MS), Some(CLOCK_MAX)]);
    };
    vec![
        Part::bounded("signed-proofs", bound, &["accepted"], move |cx| {
            let mut sc = Scn::default();
            fields(cx, &mut sc);
            sc.jwt().sig = Some(cx.dev("signature", &signatures()).clone());
            sc.check(cx, &POP)
        }),
        Part::bounded("unsigned-proofs", bound, &["refused: NoSignature", "unsigned-proof-with-dot"], move |cx| {
            let mut sc = Scn::default();
            if cx.flag("without dots") {
                sc.issuer = s("https://issuer");
                sc.jwt().aud = s("https://issuer");
            }
            fields(cx, &mut sc);
            sc.jwt().sig = None;
            unsigned(cx, &sc)
        }),
        Part::full("long-values", &["accepted"], |cx| {
            let l = long(*cx.all("length", &LADDER));
            let l = if cx.flag("dots") { format!("{}.{}", &l[..l.len() / 2], &l[l.len() / 2..]) } else { l };
            let mut sc = Scn::default();
            place(cx, &mut sc, l);
            sc.check(cx, &POP)
        }),
        Part::full("contents", &["accepted"], {
            let all = crate::util::contents();
            move |cx| {
                let t = cx.all("content", &all).clone();
                let mut sc = Scn::default();
                place(cx, &mut sc, t);
                if cx.flag("milliseconds") {
                    sc.jwt().iat = T0 + 5 * MS;
                }
                sc.check(cx, &POP)
            }
        }),
        echoes(
            "bundle-echoes",
            &["accepted"],
            3,
            |sc, place, t| match place {
                0 => sc.jwt().sub = Some(t),
                1 => sc.jwt().sig = Some(t.replace('.', "_")),
                _ => {
                    sc.issuer = t.clone();
                    sc.jwt().aud = t.clone();
                    sc.nonce.as_mut().unwrap().expected = t.clone();
                    sc.jwt().nonce = t.clone();
                    sc.client_id = Some(t.clone());
                    sc.jwt().iss = Some(t.clone());
                    sc.jwt().sub = Some(t);
                }
            },
            |cx, sc| sc.check(cx, &POP),
        ),
        whatever_else(
            "bundle-whatever-else",
            &["accepted"],
            tier.pick(2, 3),
            |cx, sc| {
                let t = [("c2ln", None, T0), ("c2ln", Some(s("a.b")), T0 + 5 * MS), ("x", Some(s("}.{")), T0 + 1), ("==", Some(s("")), T0 - SEC)];
                let (sg, sub, iat) = cx.all("signature, sub, iat", &t).clone();
                sc.jwt().sig = Some(s(sg));
                sc.jwt().sub = sub;
                sc.jwt().iat = iat;
            },
            |cx, sc| sc.check(cx, &POP),
        ),
        Part::full("signature-segments", &["accepted"], |cx| {
            let sig = cx.all("signature", &signatures()).clone();
            let aud = cx.all("aud", &["https://issuer", "https://issuer.test", "a.b.c", "x"]).to_string();
            let mut sc = Scn::default();
            sc.issuer = aud.clone();
            sc.jwt().aud = aud;
            sc.jwt().sig = Some(sig);
            sc.jwt().sub = cx.all("sub", &[None, Some(s("a.b")), Some(s("x"))]).clone();
            sc.jwt().iat = *cx.all("iat", &[T0, T0 + 5 * MS]);
            sc.check(cx, &POP)
        }),
        Part::full("stand-alone", &["agreed"], |cx| {
            // the two extraction operations on a parsed proof
            let t = texts();
            let mut sc = Scn::default();
            let j = sc.jwt();
            j.aud = cx.all("aud", &t).clone();
            j.nonce = cx.all("nonce", &t).clone();
            j.sub = if cx.flag("sub") { Some(s("a.b")) } else { None };
            j.sig = Some(cx.all("signature", &signatures()).clone());
            let text = j.compact();
            let j: &Jwt = j;
            let p = cx.call("parse", || ProofJwt::from_str(&text))?;
            let p = p.map_err(|e| Problem::new("stand-alone/unreadable", format!("{e:?}: {text}")))?;
            let m = cx.call("to_signable_message", || p.to_signable_message())?;
            let m = m.map_err(|e| Problem::new("stand-alone/message", format!("{e:?}")))?;
            crate::scn::check_message(j, &m)?;
            let sg = cx.call("extract_signature", || p.extract_signature())?;
            if sg.as_deref().ok() != j.sig.as_ref().map(String::as_bytes) {
                return Err(Problem::new("stand-alone/signature", format!("{:?} for {:?}", sg.map(|x| String::from_utf8_lossy(&x).into_owned()), j.sig)));
            }
            Ok("agreed".into())
        }),
    ]
}

// ---------------------------------------------------------------- C24

/// One of these values, the one that is there being the default.
fn vs<T: Clone + PartialEq>(cx: &mut Ctx, name: &'static str, it: &mut T, alts: &[T]) {
    let others: Vec<&T> = alts.iter().filter(|a| *a != it).collect();
    if let Some(i) = cx.dev_n(name, 1 + others.len()).checked_sub(1) {
        *it = others[i].clone();
    }
}

fn vss(cx: &mut Ctx, name: &'static str, it: &mut String, alts: &[&str]) {
    let others: Vec<&&str> = alts.iter().filter(|a| **a != it.as_str()).collect();
    if let Some(i) = cx.dev_n(name, 1 + others.len()).checked_sub(1) {
        *it = s(others[i]);
    }
}

/// Valid scenes to start from.
const SCENES: usize = 11;

fn scene(n: usize) -> Scn {
    let mut sc = if n == 8 || n == 9 { Scn::busy() } else { Scn::default() };
    if n == 10 {
        // without any dot
        sc.issuer = s("https://localhost");
        sc.jwt().aud = s("https://localhost");
    }
    let (flow, client, iss) = match n {
        0 => ((false, true), true, true),
        1 => ((true, false), true, true),
        2 => ((true, false), false, false),
        3 => ((true, true), false, false),
        4 => ((false, true), true, false),
        5 => ((false, true), false, false),
        6 => ((true, true), true, true),
        7 => ((false, false), true, true),
        8 => ((true, true), true, true),
        9 => ((false, true), false, false),
        _ => ((true, false), true, true),
    };
    sc.offer = Some(flow);
    if !client {
        sc.client_id = None;
    }
    if !iss {
        sc.jwt().iss = None;
    }
    sc
}

pub fn everything(cx: &mut Ctx) -> Scn {
    let mut sc = scene(cx.dev_n("scene", SCENES));
    vary(cx, &mut sc);
    surround(cx, &mut sc);
    sc
}

/// One property's own small table inside every other thing that can be varied.
pub fn whatever_else(
    name: &'static str,
    expect: &'static [&'static str],
    bound: u32,
    own: impl Fn(&mut Ctx, &mut Scn) + Send + Sync + 'static,
    judge: impl Fn(&mut Ctx, &mut Scn) -> Res + Send + Sync + 'static,
) -> Part {
    Part::bounded(name, bound, expect, move |cx| {
        let mut sc = everything(cx);
        if sc.proof.as_ref().map_or(true, |p| p.1.raw.is_some()) {
            return judge(cx, &mut sc);
        }
        own(cx, &mut sc);
        judge(cx, &mut sc)
    })
}

/// One property's own values taken from, or replaced by, any other value of the
/// same scene: somebody may compare with the wrong thing.
pub fn echoes(
    name: &'static str,
    expect: &'static [&'static str],
    places: usize,
    put: impl Fn(&mut Scn, usize, String) + Send + Sync + 'static,
    judge: impl Fn(&mut Ctx, &mut Scn) -> Res + Send + Sync + 'static,
) -> Part {
    let texts = Scn::busy().texts();
    Part::full(name, expect, move |cx| {
        let mut sc = Scn::busy();
        with_flow(cx, &mut sc);
        let t = cx.all("text", &texts).clone();
        let place = cx.all_n("place", places);
        put(&mut sc, place, t);
        judge(cx, &mut sc)
    })
}

/// What does not matter to the evaluation.
pub fn surround(cx: &mut Ctx, sc: &mut Scn) {
    let a = &mut sc.around;
    vs(cx, "issuer in the offer", &mut a.offer_issuer, &[None, Some(s("https://other.test")), Some(s(""))]);
    vs(cx, "offered credentials", &mut a.offered, &[
                None,
                Some(vec![]),
                Some(vec![json!("UniversityDegree"), json!("DriverLicense"), json!("UniversityDegree")]),
                Some(vec![json!("not supported")]),
                Some(vec![json!({"format": "mso_mdoc", "doctype": "d"})]),
                Some(vec![json!({"format": "ldp_vc", "@context": [], "types": ["VerifiableCredential", "UniversityDegree"]})]),
                Some((0..300).map(|i| json!(format!("c{i}"))).collect()),
            ]);
    vs(cx, "code in the offer", &mut a.code, &[None, Some(s("")), Some(s("tZignsnFbp")), Some("c".repeat(5000))]);
    vs(cx, "PIN flag in the offer", &mut a.pin, &[None, Some(true), Some(false)]);
    vs(cx, "issuer_state", &mut a.issuer_state, &[None, Some(s("")), Some(s("client-1"))]);
    vs(cx, "issuer metadata", &mut a.md, &[
                vec![],
                vec![("authorization_server", json!("https://as.test"))],
                vec![("batch_credential_endpoint", json!("https://issuer.test/batch"))],
                vec![("credential_endpoint", json!(""))],
                vec![("credential_endpoint", json!("https://issuer.test"))],
                vec![("display", json!([{"name": "I"}])), ("x", json!({"y": [1, null]})), ("client_id", json!("client-2"))],
            ]);
    vs(cx, "supported credentials", &mut a.supported, &[
                vec![],
                vec![("cryptographic_binding_methods_supported", json!(["jwk"]))],
                vec![("cryptographic_binding_methods_supported", json!([])), ("cryptographic_suites_supported", json!([]))],
                vec![("cryptographic_suites_supported", json!(["ES256K", "none"]))],
                vec![("display", json!([{"name": "C", "logo": {"url": "u"}}]))],
                vec![("credentialSubject", json!({"n": {"mandatory": true}})), ("order", json!(["n"]))],
            ]);
    vs(cx, "more in the document", &mut a.doc, &[
                vec![],
                vec![("controller", json!("did:example:other"))],
                vec![("alsoKnownAs", json!(["did:example:other"]))],
                vec![("service", json!([{"id": KID, "type": "T", "serviceEndpoint": "https://s.test"}]))],
                vec![("deactivated", json!(true)), ("proof", json!({"type": "P"}))],
                vec![("@context", json!(["https://www.w3.org/ns/did/v1", "https://x.test"]))],
            ]);
    vs(cx, "more in the methods", &mut a.vm, &[
                vec![],
                vec![("controller", json!("did:example:holder"))],
                vec![("blockchainAccountId", json!(null)), ("name", json!("x"))],
            ]);
    if let Some((_, j)) = sc.proof.as_mut() {
        vs(cx, "more header members", &mut j.form.head, &[
                    vec![],
                    vec![("cty", json!("JWT"))],
                    vec![("crit", json!(["b64"])), ("b64", json!(false))],
                    vec![("x5t", json!("abc")), ("trust_chain", json!(["a"]))],
                    vec![("aud", json!("https://other.test")), ("nonce", json!("other")), ("iss", json!("client-2"))],
                    vec![("jku", json!("https://k.test")), ("zip", json!("DEF"))],
                ]);
        vs(cx, "more body members", &mut j.form.body, &[
                    vec![],
                    vec![("jti", json!("1")), ("azp", json!("client-2"))],
                    vec![("alg", json!("none")), ("typ", json!("jwt")), ("kid", json!("did:example:other#key-1"))],
                    vec![("c_nonce", json!("other")), ("client_id", json!("client-2"))],
                    vec![("vc", json!({"a": [1.5, null, {"b": "."}]}))],
                ]);
        vs(cx, "JSON style", &mut j.form.style, &[0, 1, 2, 3]);
        vs(cx, "zone", &mut j.form.zone, &[0, 1, 2]);
        vs(cx, "signature", &mut j.sig, &[
                    Some(s("c2ln")), Some(s("x")), Some(s("AA==")), Some("A".repeat(86)), Some("Z".repeat(4097)), Some(s("e30")),
                    None,
                ]);
    }
    // the same scene at another time
    let now = *cx.dev("epoch", &[0, 500 * MS + 3, -50 * 31_536_000 * SEC, 60 * 31_536_000 * SEC, 7_000 * 31_536_000 * SEC]);
    if now != 0 {
        sc.now += now;
        if let Some(n) = sc.nonce.as_mut() {
            n.created += now;
        }
        if let Some((_, j)) = sc.proof.as_mut() {
            j.iat += now;
            j.nbf = j.nbf.map(|t| t + now);
            j.exp = j.exp.map(|t| t + now);
        }
    }
}

/// What matters, and how it can go wrong.
pub fn vary(cx: &mut Ctx, sc: &mut Scn) {
    vs(cx, "metadata ids", &mut sc.md_ids, &[
                vec![Some(s("UniversityDegree")), Some(s("DriverLicense"))],
                vec![],
                vec![None, None],
                vec![Some(s("X")), Some(s("X"))],
                vec![Some(s("UniversityDegree")), None, Some(s("UniversityDegree"))],
                vec![Some(s("a")), Some(s("A"))],
            ]);
    vs(cx, "offer (auth, pre)", &mut sc.offer, &[Some((false, true)), None, Some((false, false)), Some((true, false)), Some((true, true))]);
    vs(cx, "authorization server metadata", &mut sc.asm, &[false, true]);
    vs(cx, "client id", &mut sc.client_id, &[Some(s("client-1")), None, Some(s("client-2")), Some(s(""))]);
    let nonce = [
        Some(("tZignsnFbp", 0, 300u32)),
        None,
        Some(("other", 0, 300)),
        Some(("", 0, 300)),
        Some(("tZignsnFbp", -300 * SEC - 1, 300)),
        Some(("tZignsnFbp", -300 * SEC, 300)),
        Some(("other", -301 * SEC, 300)),
        Some(("tZignsnFbp", 5 * SEC, 0)),
        Some(("tZignsnFbp", -1, 0)),
        Some(("tZignsnFbp", 0, u32::MAX)),
        ]
    .map(|n| n.map(|(e, d, l)| NonceOpt { expected: s(e), created: T0 + d, lifetime: l }));
    vs(cx, "nonce (expected, created, lifetime)", &mut sc.nonce, &nonce);
    sc.opts = !*cx.dev("no options", &[false, true]);
    vs(cx, "format", &mut sc.format, &[ldp(&["VerifiableCredential", "UniversityDegree"]), jwt_vc(&["T"])]);
    let has = !*cx.dev("no proof", &[false, true]);
    vss(cx, "proof type", &mut sc.proof.as_mut().unwrap().0, &["jwt", "JWT", "cwt", ""]);
    let j = sc.jwt();
    vs(cx, "unreadable proof", &mut j.raw, &[None, Some(s("")), Some(s("a.b.c")), Some(s("e30.e30.e30")), Some(s("é")), Some(s(".")), Some(s("not-a-jwt"))]);
    vss(cx, "typ", &mut j.typ, &["openid4vci-proof+jwt", "OpenID4VCI-Proof+jwt", "jwt", ""]);
    vss(cx, "alg", &mut j.alg, &["EdDSA", "ES256", "none", "HS256", "HS384", "HS512", "eddsa"]);
    vs(cx, "key", &mut j.key, &[
                KeyHdr::Kid(s(KID)), KeyHdr::Absent, KeyHdr::Jwk(s("{}")), KeyHdr::X5c(s("MII")),
                KeyHdr::Kid(s("did:example:other#key-1")), KeyHdr::Kid(s("did:example:holder#key-2")),
                KeyHdr::Kid(s("key-1")), KeyHdr::Kid(s("")),
            ]);
    vs(cx, "iss", &mut j.iss, &[Some(s("client-1")), None, Some(s("client-2")), Some(s(""))]);
    vss(cx, "aud", &mut j.aud, &["https://issuer.test", "https://issuer.test/", "https://other.test", ""]);
    vss(cx, "proof nonce", &mut j.nonce, &["tZignsnFbp", "other", ""]);
    vs(cx, "nbf", &mut j.nbf, &[None, Some(T0 + 1), Some(T0), Some(T0 + 3600 * SEC)]);
    vs(cx, "exp", &mut j.exp, &[None, Some(T0), Some(T0 + 1), Some(T0 - 3600 * SEC)]);
    vs(cx, "iat", &mut j.iat, &[T0 - 5 * SEC, T0 + 3600 * SEC, 0]);
    vs(cx, "sub", &mut j.sub, &[None, Some(s("did:example:other"))]);
    let vm = |list: usize, id: &str, mat: Mat| Vm { list, id: s(id), mat };
    let good = || Mat::Okp("Ed25519", key(1));
    let d = |id: &str, vms: Vec<Vm>| Some(Doc { id: s(id), vms, refs: vec![] });
    vs(cx, "document", &mut sc.doc, &[
                d(DID, vec![vm(0, KID, good())]),
                None,
                d(DID, vec![]),
                d(DID, vec![vm(0, "#key-1", good())]),
                d("did:example:other", vec![vm(0, "did:example:other#key-1", Mat::Okp("Ed25519", key(5)))]),
                d("did:example:other", vec![vm(0, "#key-1", Mat::Okp("Ed25519", key(5)))]),
                d(DID, vec![vm(0, "did:example:holder#key-2", Mat::Okp("Ed25519", key(6))), vm(1, KID, good())]),
                d(DID, vec![vm(0, KID, Mat::Ec("P-256", None, key(3)))]),
                d(DID, vec![vm(0, KID, Mat::Nothing)]),
            ]);
    if !has {
        sc.proof = None;
    }
}

pub fn c24(tier: Tier) -> Vec<Part> {
    let _ = LISTS;
    vec![Part::bounded(
        "fault-combinations",
        tier.pick(3, 4),
        &[
            "accepted", "refused: DupIds", "refused: NoOffer", "refused: AuthServer", "refused: NonceExpired", "refused: NoProof",
            "refused: ProofType", "refused: Unreadable", "refused: Typ", "refused: Alg", "refused: Nonce", "refused: Iss",
            "refused: Aud", "refused: NotYet", "refused: Expired", "refused: NoKey", "refused: Jwk", "refused: X5c",
            "refused: NotDid", "refused: NoDoc", "refused: NoVm", "refused: BadKey", "refused: 2 faults", "refused: 3 faults",
        ],
        |cx| {
            let sc = everything(cx);
            sc.check(cx, &DECIDE)
        },
    )]
}

/// C24 is about the decision and the error, not about the contents of an accepted answer.
const DECIDE: Focus = Focus {
    faults: &[
        "DupIds", "NoOffer", "AuthServer", "NonceExpired", "NoProof", "ProofType", "Unreadable", "Typ", "Alg", "Nonce", "Iss",
        "Aud", "NotYet", "Expired", "NoKey", "Jwk", "X5c", "NotDid", "NoDoc", "NoVm", "BadKey", "NoSignature",
    ],
    accepted: &["\u{1}none"],
    all: false,
};

#[allow(dead_code)]
fn unused(e: J) -> J {
    e
}
