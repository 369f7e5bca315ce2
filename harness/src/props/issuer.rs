//! C10 (key selection), C13 .. C16: offers, resolution and success responses.

use crate::clock;
use crate::explore::{Ctx, Problem, Res};
use crate::report::Part;
use super::wire::{format_docs, format_of, same_but_nulls, spec_format};
use crate::scn::{
    jwt_vc, key, ldp, metadata, supported, Doc, Fault, Focus, KeyHdr, Mat, Scn, Vm, DID, GOOD_ALGS, KID, LISTS, T0,
};
use crate::util::{long, near_misses, percent_decode, split_url, stretched, unb64url, COUNTS, LADDER};
use crate::Tier;
use openid4vci::credential_issuer::error::CredentialIssuerError as E;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CredentialIssuer, CredentialOffer, CredentialOfferGrants, CredentialOrAcceptanceToken,
    CredentialOrId, CredentialOrIds, PreAuthorizedCodeFlow,
};
use openid4vci::types::credential::{
    CredentialFormatProfile, CredentialSubject, CredentialSubjectDisplay, LinkedDataContext,
};
use openid4vci::types::credential_issuer_metadata::{CredentialIssuerMetadata, CredentialSupported};
use openid4vci::validate::Validatable;
use serde_json::{json, Value};
use std::collections::HashMap;

fn s(x: &str) -> String {
    x.to_owned()
}

// ---------------------------------------------------------------- C10

pub const KEYS: Focus = Focus { faults: &["NoDoc", "NoVm", "BadKey"], accepted: &["key", "alg"], all: false };

/// Several methods under the same name, not all usable: which one is "the" method is
/// not said, so both answers are fine, but a returned key is one of theirs.
fn check_key(cx: &mut Ctx, sc: &Scn) -> Res {
    let Some((_, j)) = &sc.proof else { return sc.check(cx, &KEYS) };
    if let (KeyHdr::Kid(k), Some(d)) = (&j.key, &sc.doc) {
        let named = d.named(k);
        let usable = named.iter().filter(|m| m.mat.usable().is_some()).count();
        if usable != 0 && usable != named.len() {
            let r = sc.evaluate(cx)?;
            return match &r {
                Ok(_) => sc.judge(cx, &r, &KEYS),
                Err(_) => Ok("ambiguous name refused".into()),
            };
        }
        if named.len() > 1 && usable > 0 {
            return sc.check(cx, &KEYS).map(|c| if c == "accepted" { "accepted, several methods of that name".into() } else { c });
        }
    }
    sc.check(cx, &KEYS)
}

fn good(n: u8) -> Mat {
    Mat::Okp("Ed25519", key(n))
}

/// All kinds of key material, readable or not.
fn mats(n: u8) -> Vec<Mat> {
    let k = key(n);
    vec![
        good(n),
        Mat::Base58(k.clone()),
        Mat::Hex(k.clone()),
        Mat::Multibase2020(k.clone()),
        Mat::Ec("P-256", None, k.clone()),
        Mat::Ec("secp256k1", None, k.clone()),
        Mat::Ec("P-384", Some("ES384"), k.clone()),
        Mat::Rsa,
        Mat::Oct,
        Mat::Nothing,
        Mat::Two(k.clone()),
        Mat::Multibase2020NoPrefix(k.clone()),
        Mat::UnknownType(k),
        Mat::BadBase58,
    ]
}

const KIDS: [&str; 5] =
    [KID, "did:example:holder", "did:example:holder/p/1?v=2#key-1", "did:example:holder?v=2#key-1", "did:example:holder#"];

fn ids(tier: Tier) -> Vec<String> {
    let mut v: Vec<String> = [
        KID, "#key-1", "did:example:holder#key-2", "#key-2", "did:example:other#key-1", "key-1", "did:example:holder#key-10",
        "did:example:holder#key-", "did:example:HOLDER#key-1", "", "did:example:holder", "did:example:holder?v=2#key-1",
    ]
    .map(s)
    .to_vec();
    if tier == Tier::Thorough {
        v.extend(
            [
                "#KEY-1", "#key-1 ", "#", "/p/1?v=2#key-1", "?v=2#key-1", "did:example:holder/p/1?v=2#key-1",
                "did:example:holder/#key-1", "did:example:holder##key-1", "did:example:holder#key-1#", "did:example#key-1",
            ]
            .map(s),
        );
    }
    v
}

pub fn c10(tier: Tier) -> Vec<Part> {
    let (i1, i2) = (ids(tier), ids(Tier::Quick));
    let lists: Vec<usize> = tier.pick(vec![0, 1, 6], (0..7).collect());
    let sigma: &[char] = tier.pick(&['a', '1', '#', '/'], &['a', 'Z', '0', '1', '#', '/', '?', ':', ' ', '%', '.', 'é', '\0']);
    let near_kid: Vec<Vec<String>> = [KID, "#key-1", DID, "did:example:holder/p/1?v=2#key-1"]
        .iter()
        .map(|b| {
            let mut v = vec![s(b)];
            v.extend(near_misses(b, sigma));
            v
        })
        .collect();
    vec![
        Part::full("two-methods", &["accepted", "refused: NoVm", "refused: BadKey", "accepted, several methods of that name"], move |cx| {
            let mut sc = Scn::default();
            sc.jwt().key = KeyHdr::Kid(s(cx.all("kid", &KIDS)));
            let mut vms = vec![];
            for n in 0..2u8 {
                let id = cx.all("method id", if n == 0 { &i1 } else { &i2 }).clone();
                let list = *cx.all("list", &lists);
                let mat = cx.all("material", &[good(n + 1), Mat::Nothing]).clone();
                vms.push(Vm { list, id, mat });
            }
            sc.doc = Some(Doc { id: s(cx.all("document", &[DID, "did:example:other"])), vms, refs: vec![] });
            check_key(cx, &sc)
        }),
        Part::full("three-methods-in-every-order", &["accepted", "refused: NoVm", "refused: BadKey"], move |cx| {
            let mut sc = Scn::default();
            sc.jwt().key = KeyHdr::Kid(s(cx.all("kid", &[KID, "did:example:holder#key-2"])));
            let n = 1 + cx.all_n("methods", 3);
            let mut vms = vec![];
            for m in 0..n {
                let id = s(cx.all("method id", &["#key-1", KID, "#key-2", "did:example:other#key-1", "#key-3"]));
                let list = *cx.all("list", tier.pick(&[0usize, 1] as &[usize], &[0, 1, 2, 6]));
                let mat = cx.all("material", &[good(m as u8 + 1), Mat::Ec("P-256", None, key(m as u8 + 1))]).clone();
                vms.push(Vm { list, id, mat });
            }
            sc.doc = Some(Doc { id: s(DID), vms, refs: vec![] });
            check_key(cx, &sc)
        }),
        Part::full("key-material", &["accepted", "refused: BadKey"], |cx| {
            let mut sc = Scn::default();
            let list = cx.all_n("list", LISTS.len());
            let id = s(cx.all("method id", &[KID, "#key-1"]));
            let mat = cx.all("material", &mats(1)).clone();
            let mut vms = vec![Vm { list, id, mat }];
            let other = cx.all_n("another method: none, before, after", 3);
            if other > 0 {
                let list = *cx.all("its list", &[0usize, 1, 6]);
                let o = Vm { list, id: s("#key-2"), mat: cx.all("its material", &mats(9)).clone() };
                vms.insert(other % 2, o);
            }
            sc.doc = Some(Doc { id: s(DID), vms, refs: vec![] });
            check_key(cx, &sc)
        }),
        Part::full("algorithms", &["accepted", "refused: BadKey"], |cx| {
            let mut sc = Scn::default();
            sc.jwt().alg = s(cx.all("alg", &GOOD_ALGS));
            let mat = cx.all("material", &mats(1)).clone();
            sc.doc = Some(Doc { id: s(DID), vms: vec![Vm { list: 0, id: s(KID), mat }], refs: vec![] });
            check_key(cx, &sc)
        }),
        Part::full("what-keys-say", &["accepted", "refused: BadKey"], |cx| {
            // what else a key says about itself changes nothing
            let mut sc = Scn::default();
            sc.jwt().alg = s(cx.all("alg", &GOOD_ALGS));
            let n = cx.all_n("material", 3);
            let mat = [good(1), Mat::Ec("P-256", Some("EdDSA"), key(1)), Mat::Ec("P-256", None, key(1))][n].clone();
            let names = [
                "EdDSA", "ES256", "ES256K", "ES384", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "none",
                "ES256K-R",
            ];
            let more = match cx.all_n("member", 4 + names.len()) {
                0 => vec![("use", json!("sig"))],
                1 => vec![("use", json!("enc")), ("key_ops", json!(["sign"]))],
                2 => vec![("kid", json!("did:example:other#key-1"))],
                3 => vec![("key_ops", json!(["verify"])), ("x5t", json!("AQEB"))],
                // the algorithm decides whether an EC key is usable
                k if n == 0 => vec![("alg", json!(names[k - 4]))],
                _ => vec![],
            };
            sc.around.jwk = more;
            let mut vms = vec![Vm { list: 0, id: s(KID), mat }];
            if cx.flag("another") {
                vms.push(Vm { list: 0, id: s("did:example:holder#other"), mat: good(2) });
            }
            sc.doc = Some(Doc { id: s(DID), vms, refs: vec![] });
            check_key(cx, &sc)
        }),
        Part::full("id-neighbourhoods", &["accepted", "refused: NoVm"], move |cx| {
            let b = cx.all_n("base", near_kid.len());
            let a = cx.all("near", &near_kid[b]).clone();
            let mut sc = Scn::default();
            let with_good = cx.flag("another usable method");
            let base = if b == 1 { s(KID) } else { near_kid[b][0].clone() };
            let (kid, id) = if b != 1 && cx.flag("swap roles") { (a, base) } else { (base, a) };
            sc.jwt().key = KeyHdr::Kid(kid);
            let mut vms = vec![Vm { list: 0, id, mat: good(1) }];
            if with_good {
                vms.insert(0, Vm { list: 0, id: s("did:example:holder#other-key"), mat: good(2) });
            }
            sc.doc = Some(Doc { id: s(DID), vms, refs: vec![] });
            check_key(cx, &sc)
        }),
        Part::full("long-ids", &["accepted", "refused: NoVm"], |cx| {
            let l = long(*cx.all("length", &LADDER)).replace('-', "m").replace('_', "n");
            let (before, after) = *cx.all("place", &[("did:example:", "#key-1"), ("did:example:holder#", ""), ("did:example:holder/", "#k"), ("did:example:holder?v=", "#k")]);
            let mut all = vec![l.clone()];
            all.extend(crate::util::long_misses(&l));
            let full = |x: &str| format!("{before}{x}{after}");
            let (kid, id) = if cx.flag("swap roles") { (full(&l), full(cx.all("other", &all))) } else { (full(cx.all("other", &all)), full(&l)) };
            let mut sc = Scn::default();
            sc.jwt().key = KeyHdr::Kid(kid.clone());
            let id = match (cx.flag("relative"), id.split_once('#')) {
                (true, Some((d, f))) if !d.contains(['/', '?']) => {
                    sc.doc.as_mut().expect("document").id = s(d);
                    format!("#{f}")
                }
                _ => {
                    sc.doc.as_mut().expect("document").id = s(crate::scn::did_of(&kid));
                    id
                }
            };
            let mut vms = vec![Vm { list: 0, id, mat: good(1) }];
            if cx.flag("another usable method") {
                vms.insert(0, Vm { list: 0, id: s("did:example:holder#other-key"), mat: good(2) });
            }
            sc.doc.as_mut().expect("document").vms = vms;
            check_key(cx, &sc)
        }),
        Part::full("contents", &["accepted", "refused: NoVm"], {
            let all = crate::util::contents();
            let pairs = crate::util::Pairs::new();
            move |cx| {
                let mut sc = Scn::default();
                let did = s(*cx.all("did", tier.pick(&["did:web:a.test%3A8443"] as &[&str], &[DID, "did:web:a.test%3A8443", "did:Ex:%C3%A9"])));
                if cx.flag("a path or query") {
                    let t = cx.all("content", &all).clone();
                    let kid = format!("{did}{}{t}#k", cx.all("before", &["/", "?", "/a?"]));
                    sc.jwt().key = KeyHdr::Kid(kid.clone());
                    sc.doc = Some(Doc { id: s(crate::scn::did_of(&kid)), vms: vec![Vm { list: 0, id: kid, mat: good(1) }], refs: vec![] });
                    return check_key(cx, &sc);
                }
                let (a, b) = pairs.pick(cx);
                sc.jwt().key = KeyHdr::Kid(format!("{did}#{a}"));
                let id = if cx.flag("absolute") { format!("{did}#{b}") } else { format!("#{b}") };
                sc.doc = Some(Doc { id: did, vms: vec![Vm { list: 0, id, mat: good(1) }], refs: vec![] });
                check_key(cx, &sc)
            }
        }),
        Part::full("many-methods", &["accepted", "refused: NoVm", "refused: BadKey"], |cx| {
            let n = 1 + *cx.all("methods", &COUNTS);
            let at = *cx.all("place", &[0, 1, n / 2, n.saturating_sub(2), n - 1]);
            let list = *cx.all("list", &[0usize, 1, 6]);
            let spread = cx.flag("spread over the lists");
            let mat = cx.all("material", &[good(1), Mat::Nothing, Mat::Ec("P-256", None, key(1))]).clone();
            let abs = cx.flag("absolute");
            let mut sc = Scn::default();
            let vms = (0..n)
                .map(|i| Vm {
                    list: if spread { (list + i) % LISTS.len() } else { list },
                    id: format!("{}#m{i}", if abs { DID } else { "" }),
                    mat: if i == at { mat.clone() } else { Mat::Okp("Ed25519", (0..32).map(|b| b + (i % 199) as u8).collect()) },
                })
                .collect();
            let kid = if cx.flag("not there") { n } else { at };
            sc.jwt().key = KeyHdr::Kid(format!("{DID}#m{kid}"));
            sc.doc = Some(Doc { id: s(DID), vms, refs: vec![] });
            check_key(cx, &sc)
        }),
        super::cred::echoes(
            "key-echoes",
            &["accepted", "refused: NoVm"],
            3,
            |sc, place, t| {
                let kid = if t.starts_with("did:") { t.clone() } else { format!("{DID}#{t}") };
                let d = sc.doc.as_mut().unwrap();
                match place {
                    // the kid names it, the document does not have it, or has it elsewhere
                    0 => sc.jwt().key = KeyHdr::Kid(kid),
                    1 => d.vms[0].id = t,
                    _ => {
                        d.id = s(crate::scn::did_of(&kid));
                        d.vms[1].id = kid.clone();
                        sc.jwt().key = KeyHdr::Kid(kid);
                    }
                }
            },
            |cx, sc| check_key(cx, sc),
        ),
        Part::full("key-bytes", &["accepted"], {
            let shapes = crate::util::byte_shapes();
            move |cx| {
                let k = cx.all("bytes", &shapes).clone();
                let crv = *cx.all("curve", &crate::util::CURVES);
                let mat = if cx.flag("EC") { Mat::Ec(crv, Some("EdDSA"), k) } else { Mat::Okp(crv, k) };
                let mut sc = Scn::default();
                let mut vms = vec![Vm { list: 0, id: s(KID), mat }];
                if cx.flag("another usable method") {
                    vms.insert(0, Vm { list: 0, id: s("did:example:holder#other-key"), mat: good(2) });
                }
                sc.doc = Some(Doc { id: s(DID), vms, refs: vec![] });
                check_key(cx, &sc)
            }
        }),
        Part::full("key-bytes-in-other-forms", &["accepted"], {
            let shapes: Vec<Vec<u8>> = crate::util::byte_shapes().into_iter().filter(|b| b.len() == 32).collect();
            move |cx| {
                let k = cx.all("bytes", &shapes).clone();
                let mat = match cx.all_n("form", 3) {
                    0 => Mat::Base58(k),
                    1 => Mat::Hex(k),
                    _ => Mat::Multibase2020(k),
                };
                let mut sc = Scn::default();
                sc.doc = Some(Doc { id: s(DID), vms: vec![Vm { list: *cx.all("list", &[0usize, 1, 6]), id: s(KID), mat }], refs: vec![] });
                check_key(cx, &sc)
            }
        }),
        super::cred::whatever_else(
            "keys-whatever-else",
            &["accepted", "refused: NoVm", "refused: BadKey", "refused: NoDoc"],
            tier.pick(2, 3),
            |cx, sc| {
                if sc.doc.is_none() {
                    return;
                }
                let id = s(cx.all("method id", &[KID, "#key-1", "did:example:holder#key-2", "did:example:other#key-1"]));
                let mat = cx.all("material", &[good(1), Mat::Nothing]).clone();
                let mut vms = vec![Vm { list: 0, id, mat }];
                if cx.flag("another usable method") {
                    vms.insert(0, Vm { list: 0, id: s("did:example:holder#other-key"), mat: good(2) });
                }
                sc.doc.as_mut().expect("document").vms = vms;
            },
            |cx, sc| check_key(cx, sc),
        ),
        Part::full("did-methods", &["accepted", "refused: NoVm", "refused: NoDoc", "refused: BadKey"], |cx| {
            // whatever the DID itself says, the document has the key
            let mut sc = Scn::default();
            sc.jwt().alg = s(cx.all("algorithm", &["EdDSA", "ES256", "ES256K"]));
            let kid = s(cx.all("kid", &crate::util::METHODS));
            sc.jwt().key = KeyHdr::Kid(kid.clone());
            let did = s(crate::scn::did_of(&kid));
            let vm = |id: String, mat: Mat| vec![Vm { list: 0, id, mat }];
            let fragment = kid.find('#').map_or(s("#key-1"), |p| s(&kid[p..]));
            let doc = |id: String, vms: Vec<Vm>| Some(Doc { id, vms, refs: vec![] });
            sc.doc = match cx.all_n("document: none, empty, with the key, of others", 8) {
                0 => None,
                1 => doc(did, vec![]),
                2 => doc(did, vm(kid, good(1))),
                3 => doc(did, vm(fragment, good(2))),
                4 => doc(did.clone(), vm(format!("{did}#another"), good(3))),
                5 => doc(s(DID), vm(s(KID), good(4))),
                6 => doc(did, vm(kid, Mat::Nothing)),
                _ => doc(s(""), vec![]),
            };
            check_key(cx, &sc)
        }),
        Part::full("references-and-documents", &["accepted", "refused: NoVm", "refused: NoDoc"], |cx| {
            let mut sc = Scn::default();
            if cx.flag("no document") {
                sc.doc = None;
                sc.jwt().key = KeyHdr::Kid(s(cx.all("kid", &KIDS)));
                return check_key(cx, &sc);
            }
            // a key named by reference only is not in the document
            let mut refs = vec![];
            for _ in 0..2 {
                let r = cx.all("reference", &[None, Some(KID), Some("did:example:holder#key-2"), Some("did:example:other#key-1")]);
                if let Some(r) = r {
                    refs.push((*cx.all("in list", &[0usize, 1, 2]), s(r)));
                }
            }
            let mut vms = vec![];
            if cx.flag("embedded") {
                let id = s(cx.all("method id", &[KID, "#key-1", "#key-2", "did:example:other#key-1"]));
                vms.push(Vm { list: *cx.all("list", &[0usize, 1, 2]), id, mat: good(1) });
            }
            sc.doc = Some(Doc { id: s(cx.all("document", &[DID, "did:example:other"])), vms, refs });
            check_key(cx, &sc)
        }),
    ]
}

// ---------------------------------------------------------------- C13

/// An entry of an offer: id or inline credential.
#[derive(Clone, Debug, PartialEq)]
enum Entry {
    Id(String),
    Inline(CredentialFormatProfile),
}

impl Entry {
    fn build(&self) -> CredentialOrId {
        match self {
            Entry::Id(i) => CredentialOrId::CredentialId(i.clone()),
            Entry::Inline(c) => CredentialOrId::Credential(c.clone()),
        }
    }
}

/// Metadata whose n-th entry is recognisable by its types.
fn md(ids: &[Option<String>]) -> CredentialIssuerMetadata {
    metadata(
        "https://issuer.test",
        ids.iter().enumerate().map(|(n, id)| supported(id.as_deref(), entry_format(n))).collect(),
    )
}

/// With further members, by their names on the wire.
fn adorned(c: &CredentialSupported, more: &[(&str, Value)]) -> CredentialSupported {
    let mut v = serde_json::to_value(c).expect("supported credential");
    for (k, x) in more {
        v[*k] = x.clone();
    }
    serde_json::from_value(v).expect("supported credential")
}

fn entry_format(n: usize) -> CredentialFormatProfile {
    let t = format!("Type{n}");
    match n % 4 {
        0 => ldp(&["VerifiableCredential", &t]),
        1 => jwt_vc(&["VerifiableCredential", &t]),
        2 => CredentialFormatProfile::MsoMdoc { doctype: t, claims: None, order: None },
        _ => CredentialFormatProfile::JwtVcJsonLd { types: vec![t], credential_subject: None, order: None },
    }
}

fn id_lists(sigma: &[Option<&str>], max: usize) -> Vec<Vec<Option<String>>> {
    let mut out: Vec<Vec<Option<String>>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for x in sigma {
                let mut l = l.clone();
                l.push(x.map(s));
                next.push(l);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn pre() -> PreAuthorizedCodeFlow {
    PreAuthorizedCodeFlow { code: s("code-1"), user_pin_required: Some(true) }
}

fn judge_offer(
    cx: &mut Ctx,
    md: &CredentialIssuerMetadata,
    ids: &[Option<String>],
    entries: &[Entry],
    auth: &Option<AuthorizedCodeFlow>,
    pre: &Option<PreAuthorizedCodeFlow>,
    r: &Result<(CredentialOffer, String), E>,
) -> Res {
    cx.note(|| format!("metadata ids {ids:?}, entries {entries:?}, answer {r:?}"));
    let dup = !Scn::ids_distinct(ids);
    let missing = entries.iter().any(|e| matches!(e, Entry::Id(i) if !ids.contains(&Some(i.clone()))));
    let mut why = vec![];
    if auth.is_some() {
        why.push("authorization-code flow");
    }
    if dup {
        why.push("duplicate ids");
    }
    if missing {
        why.push("unknown id");
    }
    match r {
        Ok(_) if !why.is_empty() => Err(Problem::new(
            format!("created-despite/{}", why.join("+")),
            format!("offer created despite {why:?}: metadata ids {ids:?}, entries {entries:?}, {auth:?}"),
        )),
        Err(e) if why.is_empty() => {
            Err(Problem::new("refused-valid", format!("{e:?}: metadata ids {ids:?}, entries {entries:?}")))
        }
        Err(_) => Ok(if why.len() == 1 { format!("refused: {}", why[0]) } else { s("refused: several causes") }),
        Ok((o, _)) => {
            let want = CredentialOffer {
                credential_issuer: md.credential_issuer.clone(),
                credentials: CredentialOrIds::new(entries.iter().map(Entry::build).collect()),
                grants: CredentialOfferGrants {
                    authorized_code_flow: None,
                    pre_authorized_code_flow: pre.clone(),
                },
            };
            if *o != want {
                return Err(Problem::new("offer-content", format!("wanted {want:?}, got {o:?}")));
            }
            Ok(s("created"))
        }
    }
}

fn subject(claim: &str) -> HashMap<String, CredentialSubject> {
    let display = CredentialSubjectDisplay { name: Some(s("Name")), locale: Some(s("en")) };
    HashMap::from([(
        s(claim),
        CredentialSubject { mandatory: Some(true), value_type: Some(s("string")), display: Some(vec![display]) },
    )])
}

pub fn formats() -> Vec<CredentialFormatProfile> {
    let mut ctx = HashMap::new();
    ctx.insert(s("a.b"), json!({"@id": "x", "n": [1, null, true]}));
    vec![
        ldp(&["VerifiableCredential"]),
        jwt_vc(&["VerifiableCredential", "T"]),
        CredentialFormatProfile::JwtVcJsonLd {
            types: vec![s("T")],
            credential_subject: Some(subject("given_name")),
            order: Some(vec![s("b"), s("a")]),
        },
        CredentialFormatProfile::MsoMdoc { doctype: s("org.iso.18013.5.1.mDL"), claims: None, order: None },
        CredentialFormatProfile::LdpVc {
            context: vec![LinkedDataContext::String(s("https://www.w3.org/2018/credentials/v1")), LinkedDataContext::Map(ctx)],
            types: vec![s("A"), s("B"), s("A")],
            credential_subject: Some(subject("ñame")),
            order: Some(vec![]),
        },
        CredentialFormatProfile::MsoMdoc { doctype: s(""), claims: Some(subject("ns")), order: Some(vec![s("x")]) },
        CredentialFormatProfile::JwtVcJson { types: vec![], credential_subject: Some(HashMap::new()), order: None },
    ]
}

/// Everything the metadata of `Scn::busy` says, formats included.
fn busy_texts() -> Vec<String> {
    let mut v = vec![];
    let mut sc = Scn::busy();
    sc.md_ids = vec![Some(s("UniversityDegree")), None, Some(s("DriverLicense"))];
    crate::util::texts_in(&json!([sc.metadata(), md(&[None, None, None, None])]), &mut v);
    v.extend(["0", "1", "2", "3", "#0", "Type0", "Type3", "VerifiableCredential,Type1", "jwt_vc_json_Type1"].map(s));
    crate::util::derived(&v)
}

/// An entry that asks for, or a supported credential that is called, anything that is
/// said elsewhere in the metadata.
fn busy_entry(cx: &mut Ctx, t: String) -> (CredentialIssuerMetadata, Vec<Option<String>>, Entry) {
    let (ids, asked) = match cx.all_n("who has the text", 4) {
        0 => (vec![None, Some(s("UniversityDegree")), None, Some(s("DriverLicense"))], t),
        1 => (vec![None; 4], t),
        2 => (vec![None, Some(t.clone()), Some(s("\u{1}other"))], t),
        _ => (vec![Some(t), None, Some(s("\u{1}other"))], s("\u{1}other")),
    };
    let busy = Scn::busy().around;
    let mut m = md(&ids);
    let mut v = json!(m);
    for (k, x) in &busy.md {
        v[*k] = x.clone();
    }
    m = serde_json::from_value(v).expect("metadata");
    let more: Vec<(&str, Value)> = busy.supported.into_iter().filter(|x| x.0 != "credentialSubject" && x.0 != "order").collect();
    for c in &mut m.credentials_supported {
        *c = adorned(c, &more);
    }
    (m, ids, Entry::Id(asked))
}

pub fn c13(tier: Tier) -> Vec<Part> {
    let sigma: &[Option<&str>] =
        tier.pick(&[None, Some("a"), Some("b"), Some("A"), Some("")], &[None, Some("a"), Some("b"), Some("A"), Some(""), Some("a "), Some("ab")]);
    let lists = id_lists(sigma, tier.pick(3, 4));
    let entries: Vec<Entry> = vec![
        Entry::Id(s("a")), Entry::Id(s("b")), Entry::Id(s("A")), Entry::Id(s("")), Entry::Id(s("zz")),
        Entry::Inline(ldp(&["Unsupported"])), Entry::Inline(entry_format(0)),
    ];
    let max = tier.pick(2, 3);
    let fs = formats();
    vec![
        Part::full(
            "metadata-by-entries",
            &["created", "refused: duplicate ids", "refused: unknown id", "refused: several causes", "refused: authorization-code flow"],
            move |cx| {
                let ids = cx.all("metadata ids", &lists).clone();
                let n = cx.all_n("entries", max + 1);
                let es: Vec<Entry> = (0..n).map(|_| cx.all("entry", &entries).clone()).collect();
                let flow = |state: Option<&str>| Some(AuthorizedCodeFlow { issuer_state: state.map(s) });
                let auth = cx.all("authorization-code flow", &[None, flow(None), flow(Some("state-1"))]).clone();
                let pre = if cx.flag("no pre-authorized flow") { None } else { Some(pre()) };
                let m = md(&ids);
                let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
                let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &None, &auth, &pre))?;
                judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
            },
        ),
        Part::full("four-supported-credentials", &["created", "refused: duplicate ids", "refused: unknown id"], {
            let lists = id_lists(&[None, Some("a"), Some("b"), Some("c"), Some("d")], 4);
            move |cx| {
                let ids = cx.all("metadata ids", &lists).clone();
                let n = cx.all_n("entries", 3);
                let es: Vec<Entry> = (0..n).map(|_| Entry::Id(s(cx.all("entry", &["a", "d", "c"])))).collect();
                let m = md(&ids);
                let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
                let (auth, pre) = (None, Some(pre()));
                let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &None, &auth, &pre))?;
                judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
            }
        }),
        Part::full("long-metadata", &["created", "refused: duplicate ids"], |cx| {
            // a duplicate at any two positions of a long list, also far apart
            let n = 12;
            let mut ids: Vec<Option<String>> = (0..n).map(|i| Some(format!("id-{i}"))).collect();
            let a = cx.all_n("first", n);
            let b = cx.all_n("second", n);
            ids[b] = match cx.all_n("relation", 4) {
                0 => Some(format!("id-{a}")),
                1 => Some(format!("ID-{a}")),
                2 => Some(format!("id-{a}x")),
                _ => None,
            };
            let es = if ids[a].is_some() { vec![Entry::Id(ids[a].clone().unwrap())] } else { vec![] };
            let m = md(&ids);
            let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
            let (auth, pre) = (None, Some(pre()));
            let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &None, &auth, &pre))?;
            judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
        }),
        Part::full("long-ids", &["created", "refused: unknown id"], |cx| {
            let l = long(*cx.all("length", &LADDER));
            let mut all = vec![l.clone()];
            all.extend(crate::util::long_misses(&l));
            let o = cx.all("other", &all).clone();
            let (id, asked) = if cx.flag("swap roles") { (o.clone(), l.clone()) } else { (l.clone(), o.clone()) };
            let mut ids = vec![Some(s("a")), Some(id.clone()), None];
            if cx.flag("the other is supported too") && o != l {
                ids.push(Some(if id == l { o } else { l }));
            }
            let m = md(&ids);
            let es = vec![Entry::Id(s("a")), Entry::Id(asked)];
            let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
            let (auth, pre) = (None, Some(pre()));
            let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &None, &auth, &pre))?;
            judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
        }),
        Part::full("id-contents", &["created", "refused: unknown id", "refused: duplicate ids"], {
            let pairs = crate::util::Pairs::new();
            move |cx| {
                let (a, b) = pairs.pick(cx);
                let (ids, es) = if cx.flag("both supported") {
                    (vec![Some(a), None, Some(b.clone())], vec![Entry::Id(b)])
                } else {
                    (vec![None, Some(a)], vec![Entry::Inline(entry_format(0)), Entry::Id(b)])
                };
                let m = md(&ids);
                let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
                let (auth, pre) = (None, Some(pre()));
                let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &None, &auth, &pre))?;
                judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
            }
        }),
        Part::full("many-credentials-and-entries", &["created", "refused: duplicate ids", "refused: unknown id"], |cx| {
            let n = *cx.all("supported", &COUNTS);
            let k = *cx.all("entries", &COUNTS);
            let mut ids: Vec<Option<String>> = (0..n).map(|i| Some(format!("id-{i}"))).collect();
            let mut es: Vec<Entry> = (0..k).map(|i| if n == 0 || i % 3 == 2 { Entry::Inline(entry_format(i)) } else { Entry::Id(format!("id-{}", i % n)) }).collect();
            match cx.all_n("disturbance", 6) {
                1 if n > 1 => ids[n - 1] = ids[0].clone(),
                2 if n > 2 => ids[n - 1] = ids[n - 2].clone(),
                3 if k > 0 => es[k - 1] = Entry::Id(format!("id-{n}")),
                4 if k > 0 => es[k / 2] = Entry::Id(s("id-")),
                5 if k > 0 && n > 0 => es[k - 1] = Entry::Id(format!("id-{}", n - 1)),
                _ => {}
            }
            let m = md(&ids);
            let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
            let (auth, pre) = (None, Some(pre()));
            let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &None, &auth, &pre))?;
            judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
        }),
        Part::full("surroundings", &["created", "refused: duplicate ids", "refused: unknown id"], |cx| {
            // what else the metadata says does not matter
            let ids = match cx.all_n("ids", 3) {
                0 => vec![Some(s("a")), None, Some(s("b"))],
                1 => vec![Some(s("a")), None, Some(s("a"))],
                _ => vec![Some(s("b")), None, None],
            };
            let mut m = md(&ids);
            m.credential_issuer = s(cx.all("issuer", &["https://issuer.test", "", "a"]));
            m.credential_endpoint = s(cx.all("endpoint", &["https://issuer.test/credential", "", "a"]));
            m.authorization_server = cx.all("authorization server", &[None, Some(s("")), Some(s("https://issuer.test"))]).clone();
            m.batch_credential_endpoint = cx.all("batch endpoint", &[None, Some(s("https://issuer.test/batch"))]).clone();
            m.additional_fields = cx.all("additional", &[None, Some(HashMap::from([(s("id"), json!("a")), (s("display"), json!([]))]))]).clone();
            let same = cx.flag("same format everywhere");
            let more = cx
                .all("more in the supported credentials", &[
                    vec![],
                    vec![("cryptographic_binding_methods_supported", json!([])), ("cryptographic_suites_supported", json!([])), ("display", json!([]))],
                    vec![("cryptographic_binding_methods_supported", json!(["did", "jwk"])), ("display", json!([{"name": "a"}]))],
                    vec![("cryptographic_suites_supported", json!(["a"]))],
                ])
                .clone();
            for c in &mut m.credentials_supported {
                if same {
                    c.format = jwt_vc(&["VerifiableCredential"]);
                }
                *c = adorned(c, &more);
            }
            let es = cx.all("entries", &[
                vec![Entry::Id(s("a"))],
                vec![],
                vec![Entry::Inline(jwt_vc(&["VerifiableCredential"])), Entry::Id(s("b")), Entry::Inline(jwt_vc(&["VerifiableCredential"])), Entry::Id(s("b"))],
            ]).clone();
            let pre = cx.all("grant", &[
                None,
                Some(pre()),
                Some(PreAuthorizedCodeFlow { code: s("a"), user_pin_required: Some(false) }),
                Some(PreAuthorizedCodeFlow { code: long(5000), user_pin_required: None }),
            ]).clone();
            let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
            let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &Some(s("w://")), &None, &pre))?;
            judge_offer(cx, &m, &ids, &es, &None, &pre, &r)
        }),
        Part::full("contents", &["created"], move |cx| {
            let ids = vec![Some(s("a")), Some(s("b")), None];
            let mut m = md(&ids);
            m.credential_issuer = s(cx.all("issuer", &["https://issuer.test", "", "https://Issuer.test/é?x=1#f", "\"\\\n\u{1f511}"]));
            if cx.flag("other metadata") {
                m.authorization_server = Some(s("https://as.test"));
                m.batch_credential_endpoint = Some(s("https://issuer.test/batch"));
                m.additional_fields = Some(HashMap::from([(s("x"), json!({"y": 1}))]));
            }
            let es: Vec<Entry> = (0..3)
                .map(|_| match cx.all_n("entry", 2 + fs.len()) {
                    0 => Entry::Id(s("a")),
                    1 => Entry::Id(s("b")),
                    n => Entry::Inline(fs[n - 2].clone()),
                })
                .collect();
            let pre = cx
                .all("pre-authorized flow", &[
                    None,
                    Some(PreAuthorizedCodeFlow { code: s("code"), user_pin_required: None }),
                    Some(PreAuthorizedCodeFlow { code: s(""), user_pin_required: Some(false) }),
                    Some(PreAuthorizedCodeFlow { code: s("ç.\"%\n"), user_pin_required: Some(true) }),
                ])
                .clone();
            let auth = None;
            let endpoint = cx.all("endpoint", &[None, Some(s("https://wallet.test/offer"))]).clone();
            let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
            let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &endpoint, &auth, &pre))?;
            judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
        }),
        Part::full("texts-everywhere", &["created"], {
            let all = stretched();
            move |cx| {
                let t = cx.all("text", &all).clone();
                let (m, es, p) = place(cx, &t);
                let ids: Vec<Option<String>> = m.credentials_supported.iter().map(|c| c.id.clone()).collect();
                let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
                let e = cx.all("endpoint", &[None, Some(s("https://wallet.test/offer")), Some(t)]).clone();
                let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &e, &None, &p))?;
                judge_offer(cx, &m, &ids, &es, &None, &p, &r)
            }
        }),
        Part::full("variations", &["created"], {
            let all: Vec<CredentialFormatProfile> = format_docs().iter().map(format_of).collect();
            move |cx| {
                let c = cx.all("entry", &all).clone();
                let ids = vec![Some(s("a")), None];
                let mut m = md(&ids);
                if cx.flag("supported as well") {
                    m.credentials_supported[1].format = c.clone();
                }
                let es = vec![Entry::Inline(c)];
                let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
                let (auth, pre) = (None, Some(pre()));
                let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &None, &auth, &pre))?;
                judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
            }
        }),
        Part::full("authorization-code-flows", &["refused: authorization-code flow", "refused: several causes"], {
            let all = stretched();
            move |cx| {
                let ids = vec![Some(s("a")), None, Some(s("b"))];
                let mut m = md(&ids);
                if cx.flag("authorization server") {
                    m.authorization_server = Some(s("https://as.test"));
                }
                let auth = Some(AuthorizedCodeFlow { issuer_state: Some(cx.all("issuer state", &all).clone()) });
                let pre = if cx.flag("no pre-authorized flow") { None } else { Some(pre()) };
                let es = cx.all("entries", &[vec![], vec![Entry::Id(s("a"))], vec![Entry::Inline(entry_format(1))], vec![Entry::Id(s("zz"))]]).clone();
                let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
                let endpoint = cx.all("endpoint", &[None, Some(s("https://wallet.test/offer"))]).clone();
                let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &endpoint, &auth, &pre))?;
                judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
            }
        }),
        Part::full("other-texts-of-the-metadata", &["created", "refused: unknown id"], {
            let texts = busy_texts();
            move |cx| {
                let t = cx.all("text", &texts).clone();
                let (m, ids, e) = busy_entry(cx, t);
                let es = vec![e];
                let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
                let (auth, pre) = (None, Some(pre()));
                let r = cx.call("create_offer", || CredentialIssuer::create_offer(&m, list, &None, &auth, &pre))?;
                judge_offer(cx, &m, &ids, &es, &auth, &pre, &r)
            }
        }),
        Part::full("entry-notations", &["created", "refused: unknown id"], |cx| {
            // the ways an application can spell the list all mean the same
            let ids = vec![Some(s("a")), None, Some(s("b"))];
            let m = md(&ids);
            let n = cx.all_n("entries", 4);
            let es: Vec<String> = (0..n).map(|_| s(cx.all("entry", &["a", "b", "zz"]))).collect();
            let entries: Vec<Entry> = es.iter().cloned().map(Entry::Id).collect();
            let (auth, pre) = (None, Some(pre()));
            let refs: Vec<&str> = es.iter().map(String::as_str).collect();
            let built: Vec<CredentialOrId> = entries.iter().map(Entry::build).collect();
            let slice: Vec<&CredentialOrId> = built.iter().collect();
            let r = match cx.all_n("notation", 5) {
                0 => cx.call("create_offer", || CredentialIssuer::create_offer(&m, es, &None, &auth, &pre))?,
                1 => cx.call("create_offer", || CredentialIssuer::create_offer(&m, refs, &None, &auth, &pre))?,
                2 => cx.call("create_offer", || CredentialIssuer::create_offer(&m, slice.as_slice(), &None, &auth, &pre))?,
                3 => cx.call("create_offer", || CredentialIssuer::create_offer(&m, built.clone(), &None, &auth, &pre))?,
                _ => {
                    // as read from the wire
                    let v = json!(refs);
                    let l: CredentialOrIds = serde_json::from_value(v).map_err(|e| Problem::new("notation", e.to_string()))?;
                    cx.call("create_offer", || CredentialIssuer::create_offer(&m, l, &None, &auth, &pre))?
                }
            };
            judge_offer(cx, &m, &ids, &entries, &auth, &pre, &r)
        }),
    ]
}

// ---------------------------------------------------------------- C14

fn check_link(cx: &mut Ctx, endpoint: &Option<String>, offer: &CredentialOffer, wanted: &Value, link: &str) -> Res {
    cx.note(|| format!("offer {offer:?}, link {link}"));
    let bad = |what: &str| {
        Err(Problem::new(format!("link/{what}"), format!("{what}: endpoint {endpoint:?}, offer {offer:?}, link {link}")))
    };
    let prefix = endpoint.as_deref().unwrap_or("openid-credential-offer://");
    let Some(rest) = link.strip_prefix(prefix) else {
        return bad("prefix");
    };
    if !rest.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.~%=&?".contains(&b)) {
        return bad("unsafe characters");
    }
    let value = if let Some(e) = endpoint {
        let (base, pairs, frag) = split_url(link);
        let (ebase, epairs, _) = split_url(e);
        if frag.is_some() || base != ebase {
            return bad("base of the link");
        }
        // the endpoint's own parameters and, anywhere among them, the offer
        let at: Vec<usize> = (0..pairs.len())
            .filter(|i| {
                let mut others = pairs.clone();
                let (k, _) = others.remove(*i);
                k == "credential_offer" && others == epairs
            })
            .collect();
        let values: Vec<&String> = at.iter().map(|i| &pairs[*i].1).collect();
        match values.iter().find(|v| check_encoded(offer, wanted, v).is_ok()).or(values.first()) {
            Some(v) => v.to_string(),
            None => return bad("not the endpoint's own parameters and one credential_offer"),
        }
    } else {
        let rest = rest.strip_prefix('?').unwrap_or(rest);
        match rest.strip_prefix("credential_offer=") {
            Some(v) if !v.contains(['&', '=', '?']) => s(v),
            _ => return bad("not exactly one credential_offer"),
        }
    };
    check_encoded(offer, wanted, &value).map_err(|w| Problem::new(format!("link/{w}"), format!("{w}: offer {offer:?}, link {link}")))?;
    Ok(s("decodes to the offer"))
}

fn check_encoded(offer: &CredentialOffer, wanted: &Value, value: &str) -> Result<(), &'static str> {
    let Some(text) = percent_decode(value) else { return Err("percent encoding") };
    let Ok(v) = serde_json::from_str::<Value>(&text) else { return Err("not JSON") };
    if !same_but_nulls(&v, wanted) {
        return Err("other JSON than the offer's");
    }
    match serde_json::from_str::<CredentialOffer>(&text) {
        Ok(o) if o == *offer => Ok(()),
        Ok(_) => Err("reads back as another offer"),
        Err(_) => Err("not readable as an offer"),
    }
}

/// The specification's form of an offer, written without the library.
fn spec_offer(issuer: &str, es: &[Entry], auth: &Option<AuthorizedCodeFlow>, pre: &Option<PreAuthorizedCodeFlow>) -> Value {
    let entries: Vec<Value> = es
        .iter()
        .map(|e| match e {
            Entry::Id(i) => json!(i),
            Entry::Inline(c) => spec_format(c),
        })
        .collect();
    let mut grants = serde_json::Map::new();
    if let Some(a) = auth {
        let state: serde_json::Map<String, Value> = a.issuer_state.iter().map(|x| (s("issuer_state"), json!(x))).collect();
        grants.insert(s("authorization_code"), Value::Object(state));
    }
    if let Some(p) = pre {
        let mut m = serde_json::Map::new();
        m.insert(s("pre-authorized_code"), json!(p.code));
        if let Some(x) = p.user_pin_required {
            m.insert(s("user_pin_required"), json!(x));
        }
        grants.insert(s(super::token::PRE), Value::Object(m));
    }
    json!({"credential_issuer": issuer, "credentials": entries, "grants": grants})
}

/// A string in every place of an offer.
fn place(cx: &mut Ctx, text: &str) -> (CredentialIssuerMetadata, Vec<Entry>, Option<PreAuthorizedCodeFlow>) {
    let mut m = md(&[Some(s("first:id")), Some(s("b"))]);
    let mut es = vec![Entry::Id(s("first:id"))];
    let mut p = pre();
    match cx.all_n("place: issuer, id, code, type, context, claim, doctype", 7) {
        0 => m.credential_issuer = s(text),
        1 => {
            m.credentials_supported[1].id = Some(s(text));
            es.push(Entry::Id(s(text)));
        }
        2 => p.code = s(text),
        3 => es.push(Entry::Inline(jwt_vc(&["VerifiableCredential", text]))),
        4 => es.push(Entry::Inline(CredentialFormatProfile::LdpVc {
            context: vec![LinkedDataContext::String(s(text)), LinkedDataContext::Map(HashMap::from([(s(text), json!({ text: text }))]))],
            types: vec![],
            credential_subject: None,
            order: None,
        })),
        5 => es.push(Entry::Inline(CredentialFormatProfile::JwtVcJson {
            types: vec![],
            credential_subject: Some(subject(text)),
            order: Some(vec![s(text)]),
        })),
        _ => es.push(Entry::Inline(CredentialFormatProfile::MsoMdoc { doctype: s(text), claims: None, order: None })),
    }
    (m, es, Some(p))
}

fn link(
    cx: &mut Ctx,
    m: &CredentialIssuerMetadata,
    es: &[Entry],
    endpoint: &Option<String>,
    pre: &Option<PreAuthorizedCodeFlow>,
) -> Res {
    let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
    let r = cx.call("create_offer", || CredentialIssuer::create_offer(m, list, endpoint, &None, pre))?;
    match r {
        Ok((o, l)) => {
            // what the offer must say is another property's business; if it says it, its
            // form is known
            let mine = CredentialOffer::new(&m.credential_issuer, CredentialOrIds::new(es.iter().map(Entry::build).collect()), &None, pre);
            let wanted = if o == mine { spec_offer(&m.credential_issuer, es, &None, pre) } else { serde_json::to_value(&o).expect("offer") };
            check_link(cx, endpoint, &o, &wanted, &l)
        }
        Err(e) => {
            // a valid offer; if even the plainest one is refused, that is not about links
            let plain = md(&[Some(s("a"))]);
            let list = CredentialOrIds::new(vec![Entry::Id(s("a")).build()]);
            let r = cx.call("create_offer", || CredentialIssuer::create_offer(&plain, list, &None, &None, &Some(self::pre())))?;
            if r.is_err() {
                return Ok(s(crate::scn::OUTSIDE));
            }
            Err(Problem::new("link/refused", format!("{e:?}: {es:?}, endpoint {endpoint:?}")))
        }
    }
}

const ENDPOINTS: [Option<&str>; 14] = [
    None,
    Some("https://wallet.test/offer"),
    Some("https://wallet.test"),
    Some("https://wallet.test/"),
    Some("https://wallet.test/offer?x=1"),
    Some("https://wallet.test/offer?x=1&y=a%26b%3Dc"),
    Some("https://wallet.test?x"),
    Some("https://wallet.test/a%3Fb?u=https%3A%2F%2Fx.test%2F%3Fq"),
    Some("https://wallet.test/offer?u=https://x.test/?q=1"),
    Some("wallet://"),
    Some("https://user@wallet.test:8443/%20/é"),
    Some("https://wallet.test/offer?x=1&"),
    Some("https://wallet.test/offer?"),
    Some("https://wallet.test/openid-credential-offer?credential=1&offer=2"),
];

const MORE_ENDPOINTS: [&str; 54] = [
    "https://wallet.test/?credential_offer=x", "https://wallet.test/offer?credential_offer=", "https://wallet.test/offer?credential_offer", "https://wallet.test/offer?a=1&credential_offer=x",
    "https://wallet.test/offer?credential_offer=x&a=1", "https://wallet.test/offer?a=1&credential_offer=x&b=2", "https://wallet.test/offer?credential_offer=x&credential_offer=y",
    "https://wallet.test/offer?Credential_Offer=x", "https://wallet.test/offer?a=credential_offer%3Dx&credential_offers=1", "w://?credential_offer=%7B%7D",
    "", "x", "/", "/offer", "?", "?x", "?x=1", "x?y", "openid-credential-offer://", "openid-credential-offer:", "openid-credential-offer", "haip://",
    "openid-credential-offer://?x=1", "eudi-openid4ci://authorize/", "HTTPS://Wallet.TEST/Offer", "https://wallet.test:443", "https://wallet.test:443/", "http://wallet.test:80/a",
    "https://wallet.test//offer", "https://wallet.test/./offer", "https://wallet.test/a/../offer", "https://wallet.test/offer/", "https://wallet.test/offer//",
    "https://wallet.test/%7Eoffer", "https://wallet.test/~offer", "https://wallet.test/%c3%a9", "https://wallet.test/offer?x=1&x=1", "https://wallet.test/offer?b=1&a=2",
    "https://wallet.test/offer?x=", "https://wallet.test/offer?=x", "https://wallet.test/offer?x&y", "https://wallet.test/offer?x=1;y=2", "https://wallet.test/offer?x=a=b",
    "https://wallet.test/offer?q=ünï", "https://wallet.test/offer?q=%c3%bc", "https://wallet.test/offer?s=100%25", "https://wallet.test/offer?a+b=c+d", "https://wallet.test/offer?x[]=1",
    "https://wallet.test/offer?credential_offer_uri=https%3A%2F%2Fx.test", "https://wallet.test/offer?x=credential_offer", "https://bücher.test/offer", "https://[::1]:8443/offer",
    "https://localhost:3000", "http://127.0.0.1/offer?x=1",
];

pub fn c14(tier: Tier) -> Vec<Part> {
    let texts: Vec<String> = [
        "", "a", "&", "=", "?", "#", "%", "+", " ", "/", ":", "\"", "\\", "%20", "%", "%%", "a&credential_offer=b", "é", "\u{1f511}", "\0",
        "\n", "\u{7f}", "\u{feff}", "e\u{301}", "\u{202e}", "~", "*", "'", "()", "!", "$", ",", ";", "@", "[]", "{}", "<>", "|", "^", "`",
        "\\u0041", "\u{10ffff}", "</script>",
    ]
    .map(s)
    .to_vec();
    let long14 = stretched();
    let texts2: Vec<String> = texts.iter().cloned().chain(stretched()).collect();
    let short: Vec<String> = tier.pick(
        vec![],
        {
            let sg: Vec<char> = "a&=?#%+ /\"\\é\n".chars().collect();
            crate::util::all_strings(&sg, 3)
        },
    );
    let mut v = vec![
        Part::full("every-character", &["decodes to the offer"], |cx| {
            // 256 characters per offer, all of Unicode
            let block = cx.all_n("block of 256 characters", 0x11_0000 / 256) as u32;
            let text: String = (block * 256..block * 256 + 256).filter_map(char::from_u32).collect();
            let (m, es, p) = place(cx, &text);
            link(cx, &m, &es, &None, &p)
        }),
        Part::full("endpoints", &["decodes to the offer"], move |cx| {
            let e = cx.all("endpoint", &ENDPOINTS).map(s);
            let t = cx.all("text", &texts).clone();
            let (m, es, p) = place(cx, &t);
            link(cx, &m, &es, &e, &p)
        }),
        Part::full("long-texts", &["decodes to the offer"], move |cx| {
            let t = cx.all("text", &long14).clone();
            let e = cx.all("endpoint", &[None, Some(s("https://wallet.test/offer?x=1"))]).clone();
            let (m, es, p) = place(cx, &t);
            link(cx, &m, &es, &e, &p)
        }),
        Part::full("more-endpoints", &["decodes to the offer"], |cx| {
            let e = cx.all("endpoint", &MORE_ENDPOINTS).to_string();
            let t = s(cx.all("text", &["a", "é &=?#", "\u{1f511}"]));
            let (m, es, p) = place(cx, &t);
            link(cx, &m, &es, &Some(e), &p)
        }),
        Part::full("long-offers-and-endpoints", &["decodes to the offer"], |cx| {
            let n = *cx.all("entries", &COUNTS);
            let fs = formats();
            let inline = cx.flag("inline");
            let es: Vec<Entry> = (0..n).map(|i| if inline { Entry::Inline(fs[i % fs.len()].clone()) } else { Entry::Id(format!("é {}", i % 3)) }).collect();
            let m = md(&[Some(s("é 0")), Some(s("é 1")), Some(s("é 2"))]);
            let k = *cx.all("endpoint parameters", &COUNTS);
            let q: Vec<String> = (0..k).map(|i| format!("k{i}=v%20{i}")).collect();
            let path = *cx.all("path", &[0usize, 100, 2000, 5000]);
            let e = if k == 0 && path == 0 {
                None
            } else {
                Some(format!("https://wallet.test/{}{}{}", long(path), if k > 0 { "?" } else { "" }, q.join("&")))
            };
            link(cx, &m, &es, &e, &Some(pre()))
        }),
        Part::full("single-ascii-characters", &["decodes to the offer"], |cx| {
            let c = cx.all_n("character", 256) as u8 as char;
            let e = cx.all("endpoint", &[None, Some(s("https://wallet.test/offer?x=1"))]).clone();
            let t = match cx.all_n("shape", 3) {
                0 => format!("{c}"),
                1 => format!("{c}{c}"),
                _ => format!("a{c}41"),
            };
            let (m, es, p) = place(cx, &t);
            link(cx, &m, &es, &e, &p)
        }),
        Part::full("variations", &["decodes to the offer"], {
            let all: Vec<CredentialFormatProfile> = format_docs().iter().map(format_of).collect();
            move |cx| {
                let es = vec![Entry::Inline(cx.all("entry", &all).clone())];
                let e = cx.all("endpoint", &[None, Some(s("https://wallet.test/offer?x=1"))]).clone();
                link(cx, &md(&[]), &es, &e, &Some(pre()))
            }
        }),
        Part::full("offer-shapes", &["decodes to the offer"], |cx| {
            let fs = formats();
            let m = md(&[Some(s("a")), Some(s("b")), None]);
            let n = cx.all_n("entries", 4);
            let es: Vec<Entry> = (0..n)
                .map(|_| match cx.all_n("entry", 2 + fs.len()) {
                    0 => Entry::Id(s("a")),
                    1 => Entry::Id(s("b")),
                    k => Entry::Inline(fs[k - 2].clone()),
                })
                .collect();
            let p = cx.all("grant", &[None, Some(pre()), Some(PreAuthorizedCodeFlow { code: s("c"), user_pin_required: None })]).clone();
            let e = cx.all("endpoint", &[None, Some(s("https://w.test")), Some(s("https://w.test/?a=b"))]).clone();
            link(cx, &m, &es, &e, &p)
        }),
        Part::full("encoding-of-any-offer", &["decodes to the offer"], move |cx| {
            // url_encode on offers that were read, not created: authorization-code grants too
            let t = cx.all("text", &texts2).clone();
            let auth = cx
                .all("authorization-code grant", &[None, Some(AuthorizedCodeFlow { issuer_state: None }), Some(AuthorizedCodeFlow { issuer_state: Some(t.clone()) })])
                .clone();
            let pre = if cx.flag("pre-authorized grant") { Some(PreAuthorizedCodeFlow { code: t.clone(), user_pin_required: Some(false) }) } else { None };
            let o = CredentialOffer::new(&t, CredentialOrIds::new(vec![CredentialOrId::CredentialId(t.clone())]), &auth, &pre);
            let u = cx.call("url_encode", || o.url_encode())?;
            let u = u.map_err(|e| Problem::new("encode/error", format!("{e:?}: {o:?}")))?;
            if !u.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.~%".contains(&b)) {
                return Err(Problem::new("encode/unsafe characters", format!("{o:?} -> {u}")));
            }
            let wanted = spec_offer(&t, &[Entry::Id(t.clone())], &auth, &pre);
            check_encoded(&o, &wanted, &u).map_err(|w| Problem::new(format!("encode/{w}"), format!("{w}: {o:?} -> {u}")))?;
            Ok(s("decodes to the offer"))
        }),
    ];
    if tier == Tier::Thorough {
        v.push(Part::full("all-short-strings", &["decodes to the offer"], move |cx| {
            let t = cx.all("text", &short).clone();
            let e = cx.all("endpoint", &[None, Some(s("https://w.test/?a=b"))]).clone();
            let (m, es, p) = place(cx, &t);
            link(cx, &m, &es, &e, &p)
        }));
    }
    v
}

// ---------------------------------------------------------------- C15

fn judge_one(ids: &[Option<String>], e: &Entry, r: &Result<CredentialFormatProfile, E>) -> Res {
    let bad = |w: &str| Err(Problem::new(format!("resolve/{w}"), format!("{w}: ids {ids:?}, {e:?} -> {r:?}")));
    match e {
        Entry::Inline(c) => match r {
            Ok(f) if f == c => Ok(s("inline")),
            _ => bad("inline"),
        },
        Entry::Id(i) => match (ids.iter().position(|x| x.as_ref() == Some(i)), r) {
            (Some(n), Ok(f)) if *f == entry_format(n) => Ok(s("resolved")),
            (Some(_), _) => bad("known id"),
            (None, Err(E::CredentialIdNotInIssuerMetadata { id })) if id == i => Ok(s("unknown")),
            (None, _) => bad("unknown id"),
        },
    }
}

fn judge_list(ids: &[Option<String>], es: &[Entry], r: &Result<Vec<CredentialFormatProfile>, E>) -> Res {
    let first = es.iter().find(|e| matches!(e, Entry::Id(i) if !ids.contains(&Some(i.clone()))));
    match (first, r) {
        (Some(e), Err(err)) => judge_one(ids, e, &Err(err.clone())).map(|_| s("first unresolvable reported")),
        (None, Ok(v)) if v.len() == es.len() => {
            for (e, f) in es.iter().zip(v) {
                judge_one(ids, e, &Ok(f.clone()))?;
            }
            Ok(s("all resolved"))
        }
        _ => Err(Problem::new("resolve-list", format!("ids {ids:?}, {es:?} -> {r:?}"))),
    }
}

/// The same credential with less said about it.
fn plain(f: &CredentialFormatProfile) -> [CredentialFormatProfile; 3] {
    let mut v = serde_json::to_value(f).expect("format");
    let mut out = vec![];
    for k in [&["order"] as &[&str], &["credentialSubject", "claims"], &[]] {
        let o = v.as_object_mut().expect("object");
        k.iter().for_each(|k| drop(o.remove(*k)));
        if k.is_empty() {
            o.insert(s("order"), json!(["surely another order"]));
        }
        out.push(format_of(&v));
    }
    out.try_into().expect("three")
}

fn valid(cx: &mut Ctx, m: &CredentialIssuerMetadata, ids: &[Option<String>]) -> Res {
    let r = cx.call("validate", || m.validate())?;
    let want = Scn::ids_distinct(ids);
    if r.is_ok() != want {
        return Err(Problem::new("validate", format!("ids {ids:?}: {r:?}")));
    }
    Ok(s(if want { "metadata valid" } else { "metadata refused" }))
}

pub fn c15(tier: Tier) -> Vec<Part> {
    let sigma: &[Option<&str>] = &[None, Some("a"), Some("b"), Some("A"), Some(""), Some("a ")];
    let all = id_lists(sigma, 4);
    let distinct: Vec<_> = all.iter().filter(|l| Scn::ids_distinct(l)).cloned().collect();
    let distinct2: Vec<_> = distinct.iter().filter(|l| l.len() <= 3).cloned().collect();
    let entries: Vec<Entry> = vec![
        Entry::Id(s("a")), Entry::Id(s("b")), Entry::Id(s("A")), Entry::Id(s("")), Entry::Id(s("a ")), Entry::Id(s("zz")),
        Entry::Inline(ldp(&["Unsupported"])), Entry::Inline(entry_format(1)),
    ];
    let e2 = entries.clone();
    let max = tier.pick(2, 3);
    let bases: Vec<String> = ["", "a", "UniversityDegree_JWT", "https://issuer.test/credentials/1", "Ünï-ß\u{1f511}"].map(s).to_vec();
    let sg: &[char] = tier.pick(&['a', '0', ' '], &['a', 'Z', '0', ' ', '/', '_', 'é', '\0']);
    let near: Vec<Vec<String>> = bases
        .iter()
        .map(|b| {
            let mut v = vec![b.clone()];
            v.extend(near_misses(b, sg));
            v
        })
        .collect();
    vec![
        Part::full("single-entries", &["resolved", "unknown", "inline"], move |cx| {
            let ids = cx.all("metadata ids", &distinct).clone();
            let e = cx.all("entry", &entries).clone();
            let m = md(&ids);
            let c = e.build();
            let r = cx.call("resolve", || c.resolve(&m))?;
            judge_one(&ids, &e, &r)
        }),
        Part::full("lists", &["all resolved", "first unresolvable reported"], move |cx| {
            let ids = cx.all("metadata ids", &distinct2).clone();
            let n = cx.all_n("entries", max + 1);
            let es: Vec<Entry> = (0..n).map(|_| cx.all("entry", &e2).clone()).collect();
            let m = md(&ids);
            let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
            let r = cx.call("resolve_all", || list.resolve_all(&m))?;
            judge_list(&ids, &es, &r)
        }),
        Part::full("id-neighbourhoods", &["resolved", "unknown"], move |cx| {
            let b = cx.all_n("base", bases.len());
            let other = cx.all("near", &near[b]).clone();
            let (id, asked) = if cx.flag("swap roles") { (other, bases[b].clone()) } else { (bases[b].clone(), other) };
            let ids = vec![None, Some(id), None];
            let m = md(&ids);
            let e = Entry::Id(asked);
            let c = e.build();
            let r = cx.call("resolve", || c.resolve(&m))?;
            judge_one(&ids, &e, &r)
        }),
        Part::full("long-ids", &["resolved", "unknown"], |cx| {
            let l = long(*cx.all("length", &LADDER));
            let mut all = vec![l.clone()];
            all.extend(crate::util::long_misses(&l));
            let o = cx.all("other", &all).clone();
            let (id, asked) = if cx.flag("swap roles") { (o.clone(), l.clone()) } else { (l.clone(), o.clone()) };
            let mut ids = vec![None, Some(id.clone())];
            if cx.flag("the other is supported too") && o != l {
                ids.insert(cx.all_n("before or after", 3), Some(if id == l { o } else { l }));
            }
            let m = md(&ids);
            valid(cx, &m, &ids)?;
            let e = Entry::Id(asked);
            let c = e.build();
            let r = cx.call("resolve", || c.resolve(&m))?;
            judge_one(&ids, &e, &r)
        }),
        Part::full("id-contents", &["resolved", "unknown", "metadata refused"], {
            let pairs = crate::util::Pairs::new();
            move |cx| {
                let (a, b) = pairs.pick(cx);
                if cx.flag("both supported") {
                    let ids = vec![Some(a), None, Some(b)];
                    return valid(cx, &md(&ids), &ids);
                }
                let ids = vec![None, Some(a)];
                let e = Entry::Id(b);
                let (m, c) = (md(&ids), e.build());
                let r = cx.call("resolve", || c.resolve(&m))?;
                judge_one(&ids, &e, &r)
            }
        }),
        Part::full("many-credentials-and-entries", &["all resolved", "first unresolvable reported"], |cx| {
            let n = *cx.all("supported", &COUNTS);
            let k = *cx.all("entries", &COUNTS);
            let ids: Vec<Option<String>> = (0..n).map(|i| Some(format!("id-{i}"))).collect();
            let mut es: Vec<Entry> = (0..k)
                .map(|i| if n == 0 || i % 3 == 2 { Entry::Inline(entry_format(i)) } else { Entry::Id(format!("id-{}", (n - 1) - i % n)) })
                .collect();
            match cx.all_n("unknown", 4) {
                1 if k > 0 => es[k - 1] = Entry::Id(format!("id-{n}")),
                2 if k > 0 => es[0] = Entry::Id(s("")),
                3 if k > 1 => (es[k - 1], es[k / 2]) = (Entry::Id(s("y")), Entry::Id(s("x"))),
                _ => {}
            }
            let m = md(&ids);
            let list = CredentialOrIds::new(es.iter().map(Entry::build).collect());
            let r = cx.call("resolve_all", || list.resolve_all(&m))?;
            judge_list(&ids, &es, &r)
        }),
        Part::full("surroundings", &["resolved", "unknown", "inline"], |cx| {
            // what else the entries and the metadata say does not matter
            let ids = vec![None, Some(s("a")), Some(s("b")), None];
            let mut m = md(&ids);
            m.credential_issuer = s(cx.all("issuer", &["https://issuer.test", "", "a"]));
            m.authorization_server = cx.all("authorization server", &[None, Some(s("a"))]).clone();
            let which = cx.all_n("changed entry", 4);
            let c = &mut m.credentials_supported[which];
            let f = cx.all_n("format", 1 + formats().len());
            if f > 0 {
                c.format = formats()[f - 1].clone();
            }
            let mut more = vec![];
            for (k, a) in [
                ("cryptographic_binding_methods_supported", json!(["jwk"])),
                ("cryptographic_suites_supported", json!(["none"])),
                ("display", json!([{"name": "a"}])),
            ] {
                match cx.all_n(k, 3) {
                    0 => {}
                    1 => more.push((k, json!([]))),
                    _ => more.push((k, a)),
                }
            }
            *c = adorned(c, &more);
            let wanted: Vec<CredentialFormatProfile> = m.credentials_supported.iter().map(|c| c.format.clone()).collect();
            let e = cx.all("entry", &[Entry::Id(s("a")), Entry::Id(s("b")), Entry::Id(s("")), Entry::Inline(jwt_vc(&["a"])), Entry::Inline(formats()[3].clone())]).clone();
            let c = e.build();
            let r = cx.call("resolve", || c.resolve(&m))?;
            // in the entries' own terms
            let r = r.map(|f| match ids.iter().position(|i| matches!(&e, Entry::Id(x) if i.as_ref() == Some(x))) {
                Some(n) if f == wanted[n] => entry_format(n),
                Some(_) => jwt_vc(&["not the entry's format"]),
                None => f,
            });
            judge_one(&ids, &e, &r)
        }),
        Part::full("variations", &["resolved", "inline"], {
            let all: Vec<CredentialFormatProfile> = format_docs().iter().map(format_of).collect();
            move |cx| {
                // the format is handed over whole, whichever it is
                let f = cx.all("format", &all).clone();
                let mut m = md(&[None, Some(s("a")), Some(s("b"))]);
                let (e, ok, f) = match cx.all_n("how: by id, inline, inline next to a supported one like it, the other way round", 4) {
                    0 => {
                        m.credentials_supported[1].format = f.clone();
                        (Entry::Id(s("a")), "resolved", f)
                    }
                    1 => (Entry::Inline(f.clone()), "inline", f),
                    2 => {
                        for (c, g) in m.credentials_supported.iter_mut().zip(plain(&f)) {
                            c.format = g;
                        }
                        (Entry::Inline(f.clone()), "inline", f)
                    }
                    _ => {
                        m.credentials_supported[0].format = f.clone();
                        m.credentials_supported[2].format = f.clone();
                        let g = plain(&f)[cx.all_n("which", 3)].clone();
                        (Entry::Inline(g.clone()), "inline", g)
                    }
                };
                let c = e.build();
                match cx.call("resolve", || c.resolve(&m))? {
                    Ok(g) if g == f => Ok(s(ok)),
                    r => Err(Problem::new(format!("resolve/{ok}"), format!("{f:?} -> {r:?}"))),
                }
            }
        }),
        Part::full("other-texts-of-the-metadata", &["resolved", "unknown"], {
            let texts = busy_texts();
            move |cx| {
                let t = cx.all("text", &texts).clone();
                let (m, ids, e) = busy_entry(cx, t);
                if Scn::ids_distinct(&ids) {
                    valid(cx, &m, &ids)?;
                }
                let c = e.build();
                let r = cx.call("resolve", || c.resolve(&m))?;
                judge_one(&ids, &e, &r)
            }
        }),
        Part::full("validation", &["metadata valid", "metadata refused"], move |cx| {
            let ids = cx.all("metadata ids", &all).clone();
            valid(cx, &md(&ids), &ids)
        }),
        Part::full("validation-of-very-long-metadata", &["metadata valid", "metadata refused"], |cx| {
            let n = *cx.all("supported", &[15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025]);
            let places = [0, 1, n / 2, n - 2, n - 1];
            let (a, b) = (*cx.all("first", &places), *cx.all("second", &places));
            let mut ids: Vec<Option<String>> = (0..n).map(|i| Some(format!("id-{i}"))).collect();
            ids[b] = ids[a].clone();
            if cx.flag("others without id") {
                for (i, id) in ids.iter_mut().enumerate() {
                    if i != a && i != b {
                        *id = None;
                    }
                }
            }
            valid(cx, &md(&ids), &ids)
        }),
        Part::full("validation-of-long-metadata", &["metadata valid", "metadata refused"], move |cx| {
            let n = tier.pick(10, 20);
            let mut ids: Vec<Option<String>> = (0..n).map(|i| if i % 3 == 2 { None } else { Some(format!("id-{i}")) }).collect();
            let a = cx.all_n("first", n);
            let b = cx.all_n("second", n);
            ids[b] = match cx.all_n("relation", 5) {
                0 => ids[a].clone(),
                1 => Some(format!("ID-{a}")),
                2 => Some(format!("id-{a} ")),
                3 => Some(String::new()),
                _ => None,
            };
            let mut m = md(&ids);
            if cx.flag("same display everywhere") {
                for c in &mut m.credentials_supported {
                    c.display = Some(vec![Default::default()]);
                }
            }
            valid(cx, &m, &ids)
        }),
    ]
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug)]
enum Issue {
    Nothing,
    Token(String),
    Credential(CredentialFormatProfile),
}

fn respond(cx: &mut Ctx, sc: &Scn, issue: &Issue, nonce: &Option<(String, Option<u32>)>) -> Res {
    let rq = sc.request();
    let c = match issue {
        Issue::Nothing => None,
        Issue::Token(t) => Some(CredentialOrAcceptanceToken::AcceptanceToken(t.clone())),
        Issue::Credential(c) => Some(CredentialOrAcceptanceToken::Credential(c.clone())),
    };
    let n = nonce.as_ref().map(|(n, l)| CNonce { c_nonce: n.clone(), c_nonce_expires_in: *l });
    clock::set(sc.now);
    let r = cx.call("create_credential_success_response", || CredentialIssuer::create_credential_success_response(&rq, c, n));
    clock::release();
    let r = r?;
    cx.note(|| format!("answer: {r:?}"));
    let bad = |w: &str| Err(Problem::new(format!("response/{w}"), format!("{w}: {issue:?}, nonce {nonce:?}: {r:?}")));
    let faults = sc.proof_faults();
    let (resp, at) = match &r {
        Err(_) if !faults.is_empty() => return Ok(s("refused")),
        Ok(_) if !faults.is_empty() => {
            return bad(&format!("created-despite-{}", faults.iter().map(Fault::name).collect::<Vec<_>>().join("+")))
        }
        Err(_) => return bad("refused-valid"),
        Ok(x) => x,
    };
    if clock::nanos(*at) != sc.now {
        return bad("time");
    }
    let text = serde_json::to_string(resp).map_err(|e| Problem::new("response/not writable", e.to_string()))?;
    let v: Value = serde_json::from_str(&text).map_err(|e| Problem::new("response/not JSON", e.to_string()))?;
    let Value::Object(mut o) = v else { return bad("not an object") };
    o.retain(|_, v| !v.is_null());
    cx.note(|| format!("on the wire: {text}"));
    let name = spec_format(&sc.format)["format"].clone();
    if o.remove("format") != Some(name) {
        return bad("format name");
    }
    let (token, cred) = (o.remove("acceptance_token"), o.remove("credential"));
    let class = match issue {
        Issue::Nothing if token.is_none() && cred.is_none() => "neither",
        Issue::Token(t) if token == Some(json!(t)) && cred.is_none() => "acceptance token",
        Issue::Credential(c) if token.is_none() => {
            let want = spec_format(c);
            match (c, cred) {
                (CredentialFormatProfile::LdpVc { .. }, Some(v @ Value::Object(_))) if same_but_nulls(&v, &want) => "credential object",
                (CredentialFormatProfile::LdpVc { .. }, _) => return bad("ldp_vc credential on the wire"),
                (_, Some(Value::String(e))) => {
                    let got = unb64url(&e).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
                    if !got.is_some_and(|g| same_but_nulls(&g, &want)) {
                        return bad("encoded credential");
                    }
                    "encoded credential"
                }
                _ => return bad("encoded credential on the wire"),
            }
        }
        _ => return bad("credential or token"),
    };
    let want = nonce.as_ref();
    if o.remove("c_nonce") != want.map(|n| json!(n.0)) || o.remove("c_nonce_expires_in") != want.and_then(|n| n.1).map(|l| json!(l)) {
        return bad("nonce");
    }
    if !o.is_empty() {
        return bad("surplus parameters");
    }
    Ok(s(class))
}

pub fn c16(tier: Tier) -> Vec<Part> {
    let texts: Vec<String> = ["", "8xLOxBtZp8", "a.b", "\"\\\n", "é\u{1f511}", "{}", "null"].map(s).to_vec();
    let mut issues = vec![Issue::Nothing];
    issues.extend(texts.iter().cloned().map(Issue::Token));
    issues.extend(formats().into_iter().map(Issue::Credential));
    // base64url: every remainder, and characters that need '-' and '_'
    let pads: Vec<String> = (0..6).map(|n| "~?>".repeat(n) + &"x".repeat(n % 3)).chain([s("ÿþ\u{7ff}\u{ffff}"), "z".repeat(4096)]).collect();
    issues.extend(pads.iter().map(|p| Issue::Credential(jwt_vc(&[p]))));
    issues.extend(pads.iter().map(|p| Issue::Credential(CredentialFormatProfile::MsoMdoc { doctype: p.clone(), claims: None, order: None })));
    let lives: Vec<Option<u32>> = std::iter::once(None).chain(crate::util::interesting_u32().into_iter().map(Some)).collect();
    let l2: Vec<Option<u32>> = tier.pick(vec![None, Some(0), Some(86_400), Some(u32::MAX)], lives.clone());
    let i2 = issues.clone();
    let long16 = stretched();
    let times: [clock::Nanos; 5] = [T0, 0, 1, T0 + 999_999_999, 253_402_300_799 * clock::SEC + 999_999_999];
    vec![
        Part::full(
            "contents",
            &["neither", "acceptance token", "credential object", "encoded credential"],
            move |cx| {
                let mut sc = Scn::default();
                sc.format = cx.all("requested format", &formats()).clone();
                if cx.flag("no proof") {
                    sc.proof = None;
                }
                let issue = cx.all("issued", &issues).clone();
                let nonce = if cx.flag("nonce") {
                    Some((cx.all("c_nonce", &texts).clone(), *cx.all("lifetime", &l2)))
                } else {
                    None
                };
                respond(cx, &sc, &issue, &nonce)
            },
        ),
        Part::full("long-texts", &["acceptance token", "credential object", "encoded credential", "neither"], move |cx| {
            let t = cx.all("text", &long16).clone();
            let sc = Scn::default();
            let (issue, nonce) = match cx.all_n("place", 5) {
                0 => (Issue::Token(t), None),
                1 => (Issue::Nothing, Some((t, Some(5)))),
                2 => (Issue::Credential(ldp(&["T", &t])), Some((s("n"), None))),
                3 => (Issue::Credential(jwt_vc(&["T", &t])), None),
                _ => (Issue::Credential(CredentialFormatProfile::MsoMdoc { doctype: t.clone(), claims: Some(subject(&t)), order: Some(vec![t]) }), None),
            };
            respond(cx, &sc, &issue, &nonce)
        }),
        Part::full("variations", &["credential object", "encoded credential"], {
            let all: Vec<CredentialFormatProfile> = format_docs().iter().map(format_of).collect();
            move |cx| {
                let c = cx.all("credential", &all).clone();
                let mut sc = Scn::default();
                if cx.flag("requested as well") {
                    sc.format = c.clone();
                }
                respond(cx, &sc, &Issue::Credential(c), &None)
            }
        }),
        Part::full("texts-of-the-request", &["credential object", "encoded credential", "acceptance token", "neither"], {
            // what is issued repeats something of the request, or itself
            let texts = Scn::busy().texts();
            move |cx| {
                let mut sc = Scn::busy();
                super::cred::with_flow(cx, &mut sc);
                let t = cx.all("text", &texts).clone();
                let n = |t: &str| Some((s(t), Some(5)));
                let (issue, nonce) = match cx.all_n("place", 8) {
                    0 => (Issue::Token(t), None),
                    1 => (Issue::Nothing, n(&t)),
                    2 => (Issue::Token(s("token")), n(&t)),
                    3 => (Issue::Token(t.clone()), n(&t)),
                    4 => (Issue::Credential(sc.format.clone()), n(&t)),
                    5 => (Issue::Credential(ldp(&[&t])), n(&t)),
                    6 => (Issue::Credential(jwt_vc(&["T", &t])), n("n")),
                    _ => (Issue::Credential(CredentialFormatProfile::MsoMdoc { doctype: t.clone(), claims: Some(subject(&t)), order: Some(vec![t]) }), None),
                };
                respond(cx, &sc, &issue, &nonce)
            }
        }),
        Part::full("large-credentials", &["credential object", "encoded credential"], |cx| {
            let n = *cx.all("number", &COUNTS);
            let names: Vec<String> = (0..n).map(|i| format!("claim-{i}")).collect();
            let claims: HashMap<String, CredentialSubject> = names.iter().map(|k| (k.clone(), subject(k)[k].clone())).collect();
            let types = if cx.flag("many types") { names.clone() } else { vec![s("T")] };
            let (cs, order) = (Some(claims.clone()), Some(names));
            let c = match cx.all_n("format", 4) {
                0 => CredentialFormatProfile::LdpVc {
                    context: vec![LinkedDataContext::String(s("c")); n],
                    types,
                    credential_subject: cs,
                    order,
                },
                1 => CredentialFormatProfile::JwtVcJson { types, credential_subject: cs, order },
                2 => CredentialFormatProfile::JwtVcJsonLd { types, credential_subject: cs, order },
                _ => CredentialFormatProfile::MsoMdoc { doctype: s("d"), claims: cs, order },
            };
            let mut sc = Scn::default();
            if cx.flag("requested as well") {
                sc.format = c.clone();
            }
            respond(cx, &sc, &Issue::Credential(c), &None)
        }),
        super::cred::whatever_else(
            "responses-whatever-else",
            &["refused", "credential object", "encoded credential", "acceptance token", "neither"],
            2,
            |_, _| {},
            move |cx, sc| {
                let issue = cx.all("issued", &[
                    Issue::Nothing, Issue::Token(s("t")), Issue::Credential(ldp(&["T"])), Issue::Credential(jwt_vc(&["T"])),
                ]).clone();
                let n = if cx.flag("nonce") { Some((s("n"), Some(0))) } else { None };
                respond(cx, sc, &issue, &n)
            },
        ),
        Part::full("lifetimes-and-times", &["neither", "credential object"], move |cx| {
            let mut sc = Scn::default();
            sc.now = *cx.all("now", &times);
            let issue = cx.all("issued", &[Issue::Credential(ldp(&["T"])), Issue::Token(s("t")), Issue::Nothing]).clone();
            let l = *cx.all("lifetime", &lives);
            respond(cx, &sc, &issue, &Some((s("n"), l)))
        }),
        Part::bounded("proofs", tier.pick(2, 3), &["refused", "credential object"], move |cx| {
            // what decides is the proof, not the claims in it
            let mut sc = Scn::default();
            sc.proof.as_mut().unwrap().0 = s(cx.dev("proof type", &["jwt", "JWT", "jWt", "cwt", "", "jwt ", "ldp_vp"]));
            let j = sc.jwt();
            j.raw = cx.dev("unreadable", &[None, Some(s("")), Some(s("a.b.c")), Some(s("e30.e30")), Some(s("."))]).clone();
            j.typ = s(cx.dev("typ", &["openid4vci-proof+jwt", "OPENID4VCI-PROOF+JWT", "JWT", "openid4vci-proof", ""]));
            j.alg = s(cx.dev("alg", &["EdDSA", "ES256", "RS256", "none", "HS256", "HS384", "HS512"]));
            j.iss = cx.dev("iss", &[Some(s("client-1")), None]).clone();
            j.nonce = s(cx.dev("nonce", &["tZignsnFbp", ""]));
            j.exp = *cx.dev("exp", &[None, Some(T0 - 1)]);
            j.sig = cx.dev("sig", &[Some(s("sig")), None]).clone();
            let has = !*cx.dev("no proof", &[false, true]);
            if !has {
                sc.proof = None;
            }
            let issue = cx.dev("issued", &[Issue::Credential(ldp(&["T"])), i2[1].clone(), i2[0].clone()]).clone();
            respond(cx, &sc, &issue, &None)
        }),
    ]
}
