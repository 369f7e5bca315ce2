//! C01, C02, C03: the token endpoint.

use crate::explore::{Ctx, Problem, Res};
use crate::report::Part;
use crate::scn::ldp;
use crate::util::{all_strings, interesting_u64, near_misses, uniq};
use crate::Tier;
use openid4vci::access_token::error::AccessTokenError as E;
use openid4vci::access_token::{
    AccessToken, AccessTokenRequest, EvaluateAccessTokenRequestOptions, GrantType,
};
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CredentialOffer, CredentialOfferGrants, CredentialOrIds, PreAuthorizedCodeFlow,
};
use openid4vci::validate::Validatable;
use serde_json::{json, Value};

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
const MAX_PIN: u64 = 99_999_999;

/// The request's grant: code and PIN, or `None` for the authorization-code grant.
#[derive(Clone, Debug, Default)]
pub struct Tok {
    pub grant: Option<(String, Option<u64>)>,
    /// (authorization-code grant's issuer_state, pre-authorized grant)
    pub offer: Option<(Option<Option<String>>, Option<(String, Option<bool>)>)>,
    pub opts: Option<Option<u64>>,
    /// what does not matter: issuer and credentials in the offer
    pub around: Option<(String, Vec<Value>)>,
}

#[derive(Debug, PartialEq)]
enum Cause {
    LongPin,
    AuthFlow,
    NoOffer,
    NoGrants,
    NotOffered,
    NoExpectedPin,
    PinMismatch,
    Values { pin: bool, code: bool },
}

pub fn request(grant: &Option<(String, Option<u64>)>) -> AccessTokenRequest {
    let v = match grant {
        None => json!({"grant_type": {"grant_type": "authorization_code"}}),
        Some((code, pin)) => {
            let mut g = json!({"grant_type": PRE, "pre_authorized_code": code});
            if let Some(p) = pin {
                g["user_pin"] = json!(p);
            }
            json!({ "grant_type": g })
        }
    };
    serde_json::from_value(v).expect("a token request")
}

pub fn options(pin: Option<u64>) -> EvaluateAccessTokenRequestOptions {
    serde_json::from_value(json!({ "expected_user_pin": pin })).expect("options")
}

impl Tok {
    fn causes(&self) -> Vec<Cause> {
        let mut c = vec![];
        if let Some((_, Some(pin))) = &self.grant {
            if *pin > MAX_PIN {
                c.push(Cause::LongPin);
            }
        }
        if self.grant.is_none() {
            c.push(Cause::AuthFlow);
        }
        match &self.offer {
            None => c.push(Cause::NoOffer),
            Some((None, None)) => c.push(Cause::NoGrants),
            Some((auth, pre)) => match (&self.grant, auth, pre) {
                (Some((code, pin)), _, Some((offered, required))) => {
                    let required = required.unwrap_or(false);
                    match (pin, self.opts.flatten()) {
                        (Some(_), None) => c.push(Cause::NoExpectedPin),
                        (Some(p), Some(e)) if *p != e => c.push(Cause::PinMismatch),
                        _ => {}
                    }
                    if pin.is_some() != required || code != offered {
                        c.push(Cause::Values { pin: required, code: code == offered });
                    }
                }
                (Some(_), Some(_), None) | (None, None, Some(_)) => c.push(Cause::NotOffered),
                _ => {}
            },
        }
        c
    }

    fn reported(&self, e: &E) -> Option<Cause> {
        Some(match e {
            E::ValidationError(_) => Cause::LongPin,
            E::AuthorizedFlowNotSupported => Cause::AuthFlow,
            E::CredentialOfferMustBeSupplied => Cause::NoOffer,
            E::NoFlowSupportedInCredentialOffer => Cause::NoGrants,
            E::InvalidGrantType { requested_grant_type, accepted_grant_type } => {
                let (asked, other) = if self.grant.is_some() {
                    ("pre_authorized_code_flow", "authorized_code_flow")
                } else {
                    ("authorized_code_flow", "pre_authorized_code_flow")
                };
                if requested_grant_type != asked || *accepted_grant_type != [other] {
                    return None;
                }
                Cause::NotOffered
            }
            E::OptionsAreRequiredForEvaluation { .. } => Cause::NoExpectedPin,
            E::UserPinMismatch => Cause::PinMismatch,
            E::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied, does_code_match } => {
                Cause::Values { pin: *should_pin_be_supplied, code: *does_code_match }
            }
            E::InvalidAuthorizedAndPreAuthorizedCodeFlow { .. } => return None,
        })
    }

    fn truthful(&self, e: &E, causes: &[Cause]) -> bool {
        let both = matches!(&self.offer, Some((Some(_), Some(_))));
        match e {
            E::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error, pre_authorized_error } => {
                both && self.grant.is_some()
                    && self.reported(authorized_error) == Some(Cause::NotOffered)
                    && self.reported(pre_authorized_error).map_or(false, |c| causes.contains(&c))
            }
            e => {
                let Some(c) = self.reported(e) else { return false };
                // with both grants on offer, the grants' own causes come as a pair
                let paired = matches!(
                    c,
                    Cause::NoExpectedPin | Cause::PinMismatch | Cause::Values { .. } | Cause::NotOffered
                );
                causes.contains(&c) && !(both && paired)
            }
        }
    }

    pub fn offer(&self) -> Option<CredentialOffer> {
        let (issuer, list) = match &self.around {
            None => (s("https://issuer.test"), CredentialOrIds::new(vec!["id".into(), ldp(&["T"]).into()])),
            Some((i, l)) => (i.clone(), serde_json::from_value(json!(l)).expect("credentials")),
        };
        self.offer.as_ref().map(|(auth, pre)| CredentialOffer {
            credential_issuer: issuer,
            credentials: list,
            grants: CredentialOfferGrants {
                authorized_code_flow: auth
                    .as_ref()
                    .map(|s| AuthorizedCodeFlow { issuer_state: s.clone() }),
                pre_authorized_code_flow: pre.as_ref().map(|(c, r)| PreAuthorizedCodeFlow {
                    code: c.clone(),
                    user_pin_required: *r,
                }),
            },
        })
    }

    fn run(&self, cx: &mut Ctx) -> Result<Result<(), E>, Problem> {
        let (rq, of, op) = (request(&self.grant), self.offer(), self.opts.map(options));
        let r = cx.call("evaluate_access_token_request", || {
            AccessToken::evaluate_access_token_request(&rq, of, op)
        })?;
        cx.note(|| format!("answer: {r:?}"));
        Ok(r)
    }

    /// C01: granted or refused.
    fn decision(&self, cx: &mut Ctx) -> Res {
        let causes = self.causes();
        match (self.run(cx)?, causes.is_empty()) {
            (Ok(()), true) => Ok("granted".into()),
            (Err(_), false) => Ok(format!("refused ({} causes)", causes.len())),
            (Ok(()), false) => Err(Problem::new(
                format!("granted-despite/{}", name(&causes)),
                format!("granted although {causes:?}: {self:?}"),
            )),
            (Err(e), true) => {
                Err(Problem::new("refused-valid", format!("refused with {e:?}, but nothing is wrong: {self:?}")))
            }
        }
    }

    /// C03: what the refusal says.
    fn cause(&self, cx: &mut Ctx) -> Res {
        let causes = self.causes();
        match self.run(cx)? {
            Ok(()) => Ok("granted".into()),
            Err(e) if causes.is_empty() => {
                Err(Problem::new("cause/none-applies", format!("{e:?} reported, nothing is wrong: {self:?}")))
            }
            Err(e) if !self.truthful(&e, &causes) => Err(Problem::new(
                format!("cause/{}", name(&causes)),
                format!("{e:?} reported, true causes {causes:?}: {self:?}"),
            )),
            Err(_) if causes.len() == 1 => Ok(format!("refused: {}", name(&causes))),
            Err(_) => Ok(format!("refused: {} causes", causes.len())),
        }
    }
}

fn name(c: &[Cause]) -> String {
    c.iter()
        .map(|c| match c {
            Cause::Values { .. } => "Values".to_owned(),
            c => format!("{c:?}"),
        })
        .collect::<Vec<_>>()
        .join("+")
}

fn s(x: &str) -> String {
    x.to_owned()
}

type How = fn(&Tok, &mut Ctx) -> Res;

/// Every combination of grant, offer shape, PIN flag, PINs, options, code relation.
fn table(how: How, tier: Tier) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    let pins: Vec<Option<u64>> = tier.pick(
        vec![None, Some(0), Some(1), Some(1234), Some(MAX_PIN), Some(MAX_PIN + 1), Some(u64::MAX)],
        vec![
            None, Some(0), Some(1), Some(2), Some(12), Some(1234), Some(12345), Some(21), Some(1 << 32),
            Some((1 << 32) + 1234), Some(10_000_000), Some(MAX_PIN), Some(MAX_PIN + 1), Some(u64::MAX),
        ],
    );
    let codes = tier.pick(
        vec![s("code"), s(""), s("Code"), s("code ")],
        vec![s("code"), s(""), s("Code"), s("code "), s("cod"), s("codé"), s("1234")],
    );
    let states = [None, Some(None), Some(Some(s(""))), Some(Some(s("state")))];
    move |cx| {
        let offer = if cx.flag("offer") {
            let auth = cx.all("authorization-code grant", &states).clone();
            let pre = if cx.flag("pre-authorized grant") {
                Some((
                    cx.all("offered code", &codes).clone(),
                    *cx.all("user_pin_required", &[None, Some(false), Some(true)]),
                ))
            } else {
                None
            };
            Some((auth, pre))
        } else {
            None
        };
        let grant = if cx.flag("authorization-code requested") {
            None
        } else {
            Some((cx.all("submitted code", &codes).clone(), *cx.all("submitted pin", &pins)))
        };
        let opts = if cx.flag("options") { Some(*cx.all("expected pin", &pins)) } else { None };
        how(&Tok { grant, offer, opts, around: None }, cx)
    }
}

fn bases() -> Vec<String> {
    vec![
        s(""),
        s("a"),
        s("0"),
        s("1234"),
        s("oaKazRN8I0IbtZ0C7JuMn5"),
        s("Çödé-ß/é+=&%20"),
        s("eyJhbGciOi.JSUzI1NiIs-_In"),
        s("\u{1f511}key\u{1f511}"),
        "0123456789abcdef".repeat(5),
        "codeCODE".repeat(40),
    ]
}

/// A base and everything near it, in both roles.
fn codes(how: How, tier: Tier) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    let sigma: &[char] = tier.pick(&['a', '0', ' ', '-'], &['a', 'Z', '0', '9', ' ', '-', '_', 'é', '%', '+', '\0']);
    let b = bases();
    let near: Vec<Vec<String>> = b
        .iter()
        .map(|x| {
            let mut v = vec![x.clone()];
            v.extend(near_misses(x, sigma));
            v
        })
        .collect();
    move |cx| {
        let i = cx.all_n("base", b.len());
        let other = cx.all("other", &near[i]).clone();
        let base = b[i].clone();
        let (offered, sent) = if cx.flag("swap roles") { (other, base) } else { (base, other) };
        let (req, pin) = if cx.flag("with pin") { (Some(true), Some(4711)) } else { (None, None) };
        let auth = if cx.flag("both grants") { Some(Some(s("st"))) } else { None };
        let t = Tok {
            grant: Some((sent, pin)),
            offer: Some((auth, Some((offered, req)))),
            opts: pin.map(Some),
            around: None,
        };
        how(&t, cx)
    }
}

/// All pairs of short codes.
fn short_codes(how: How, tier: Tier) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    let all = match tier {
        Tier::Quick => all_strings(&['a', 'A', ' ', '0'], 3),
        Tier::Thorough => all_strings(&['a', 'A', ' ', '0', 'é'], 4),
    };
    move |cx| {
        let a = cx.all("offered code", &all).clone();
        // one execution per offered code and length of the other
        let n = cx.all_n("submitted block", 8);
        let mut granted = 0;
        for (i, b) in all.iter().enumerate() {
            if i % 8 != n {
                continue;
            }
            let t = Tok {
                grant: Some((b.clone(), None)),
                offer: Some((None, Some((a.clone(), Some(false))))),
                opts: None,
                around: None,
            };
            if how(&t, cx)? == "granted" {
                granted += 1;
            }
        }
        Ok(if granted > 0 { "granted once in block".into() } else { "block refused".into() })
    }
}

fn digit_neighbours(p: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![p];
    let d = p.to_string();
    for x in near_misses(&d, &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9']) {
        if let Ok(n) = x.parse::<u64>() {
            v.push(n);
        }
    }
    for k in 0..64 {
        v.push(p ^ (1 << k));
    }
    v.extend([p.wrapping_add(1), p.wrapping_sub(1), p.wrapping_mul(10), p / 10, !p, u64::from(p as u32), u64::from(p as u16), u64::from(p as u8)]);
    v.sort_unstable();
    v.dedup();
    v
}

/// PINs that differ little (one digit, one bit, one place), all flags.
fn pins(how: How) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    let base: Vec<u64> =
        vec![0, 1, 7, 10, 99, 1234, 4711, 100_000, 493_536, 9_999_999, 10_000_000, 12_345_678, MAX_PIN];
    let near: Vec<Vec<u64>> = base.iter().map(|p| digit_neighbours(*p)).collect();
    move |cx| {
        let i = cx.all_n("base pin", base.len());
        let o = *cx.all("other pin", &near[i]);
        let (sent, exp) = if cx.flag("swap roles") { (o, base[i]) } else { (base[i], o) };
        let req = *cx.all("user_pin_required", &[Some(true), None, Some(false)]);
        let right = !cx.flag("wrong code");
        let auth = if cx.flag("both grants") { Some(None) } else { None };
        let t = Tok {
            grant: Some((s(if right { "code" } else { "cod" }), Some(sent))),
            offer: Some((auth, Some((s("code"), req)))),
            opts: Some(Some(exp)),
            around: None,
        };
        how(&t, cx)
    }
}

/// All pairs of PINs below a limit.
fn pin_square(how: How, limit: u64) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    move |cx| {
        let a = cx.all_n("expected pin", limit as usize) as u64;
        for b in 0..limit {
            let t = Tok {
                grant: Some((s("c"), Some(b))),
                offer: Some((None, Some((s("c"), Some(true))))),
                opts: Some(Some(a)),
                around: None,
            };
            how(&t, cx)?;
        }
        Ok("row agreed".into())
    }
}

/// Codes of every content, against one another and what is near them.
fn code_contents(how: How) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    let pairs = crate::util::Pairs::new();
    move |cx| {
        let (offered, sent) = pairs.pick(cx);
        let t = Tok { grant: Some((sent, None)), offer: Some((None, Some((offered, None)))), opts: None, around: None };
        how(&t, cx)
    }
}

/// Codes that are something else the offer says, or the PIN, or a part of these.
fn code_echoes(how: How) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    let list = vec![
        json!("id-1"),
        json!({"format": "ldp_vc", "@context": ["https://context.test/v1"], "types": ["VerifiableCredential", "TypeName"], "credentialSubject": {"claim": {"display": [{"name": "Label"}]}}}),
        json!({"format": "mso_mdoc", "doctype": "org.doctype.mDL"}),
    ];
    let mut texts = vec![];
    crate::util::texts_in(
        &json!([list, "https://issuer.test/tenant", "issuer-state.1", "offer-code.1", 4711, "004711", "pre-authorized_code",
            "urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code", "user_pin_required", "true", "false"]),
        &mut texts,
    );
    let texts = crate::util::derived(&texts);
    move |cx| {
        let t = cx.all("text", &texts).clone();
        let (offered, sent, state) = match cx.all_n("place", 5) {
            0 => (s("offer-code.1"), t, s("issuer-state.1")),
            1 => (t, s("offer-code.1"), s("issuer-state.1")),
            2 => (t.clone(), t, s("issuer-state.1")),
            3 => (s("offer-code.1"), t.clone(), t),
            _ => (s("offer-code.1"), s("offer-code.1"), t),
        };
        let auth = if cx.flag("both grants") { Some(Some(state)) } else { None };
        let (pin, req, exp) = *cx.all("pin, required, expected", &[
            (None, None, None),
            (Some(4711), Some(true), Some(Some(4711))),
            (None, Some(true), Some(Some(4711))),
            (Some(4712), Some(true), Some(Some(4711))),
        ]);
        let t = Tok {
            grant: Some((sent, pin)),
            offer: Some((auth, Some((offered, req)))),
            opts: exp,
            around: Some((s("https://issuer.test/tenant"), list.clone())),
        };
        how(&t, cx)
    }
}

/// Long codes that differ in one place.
fn long_codes(how: How) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    move |cx| {
        let base = crate::util::long(*cx.all("length", &crate::util::LADDER));
        let mut others = vec![base.clone()];
        others.extend(crate::util::long_misses(&base));
        let other = cx.all("other", &others).clone();
        let (offered, sent) = if cx.flag("swap roles") { (other, base) } else { (base, other) };
        let pin = if cx.flag("with pin") { Some(4711) } else { None };
        let auth = if cx.flag("both grants") { Some(Some(offered.clone())) } else { None };
        let t = Tok {
            grant: Some((sent, pin)),
            offer: Some((auth, Some((offered, Some(pin.is_some()))))),
            opts: pin.map(Some),
            around: None,
        };
        how(&t, cx)
    }
}

/// What the offer says besides its grants does not matter; codes, states and
/// credentials that look like each other least of all.
fn surroundings(how: How, tier: Tier) -> impl Fn(&mut Ctx) -> Res + Send + Sync {
    let codes = tier.pick(
        vec![s("code"), s(""), s("id-1"), s("https://issuer.test")],
        vec![s("code"), s(""), s("id-1"), s("https://issuer.test"), s("4711"), s("state"), s("null"), s("code,code")],
    );
    let c2 = codes.clone();
    move |cx| {
        let issuer = s(cx.all("issuer", &["https://issuer.test", "", "code", "https://other.test/é?x=1"]));
        let list = cx
            .all("credentials", &[
                vec![],
                vec![json!("id-1")],
                vec![json!("code"), json!("code"), json!("")],
                vec![json!({"format": "mso_mdoc", "doctype": "code"})],
                (0..40).map(|i| json!(format!("id-{i}"))).collect(),
            ])
            .clone();
        let offered = cx.all("offered code", &codes).clone();
        let sent = cx.all("submitted code", &c2).clone();
        let auth = match cx.all_n("authorization-code grant", 4) {
            0 => None,
            1 => Some(None),
            2 => Some(Some(sent.clone())),
            _ => Some(Some(offered.clone())),
        };
        let (pin, req, exp) = *cx
            .all("pin, required, expected", &[
                (None, None, None),
                (Some(4711), Some(true), Some(Some(4711))),
                (Some(4711), Some(true), Some(Some(4712))),
                (None, Some(true), Some(Some(4711))),
                (Some(4711), None, Some(Some(4711))),
                (None, Some(false), Some(Some(4711))),
                (None, Some(true), None),
            ]);
        let pre = if cx.flag("no pre-authorized grant") { None } else { Some((offered, req)) };
        let t = Tok { grant: Some((sent, pin)), offer: Some((auth, pre)), opts: exp, around: Some((issuer, list)) };
        how(&t, cx)
    }
}

pub fn c01(tier: Tier) -> Vec<Part> {
    let h: How = Tok::decision;
    vec![
        Part::full("decision-table", &["granted", "refused (1 causes)", "refused (2 causes)"], table(h, tier)),
        Part::full("code-neighbourhoods", &["granted", "refused (1 causes)"], codes(h, tier)),
        Part::full("long-codes", &["granted", "refused (1 causes)"], long_codes(h)),
        Part::full("code-contents", &["granted", "refused (1 causes)"], code_contents(h)),
        Part::full("code-echoes", &["granted", "refused (1 causes)", "refused (2 causes)"], code_echoes(h)),
        Part::full("surroundings", &["granted", "refused (1 causes)", "refused (2 causes)"], surroundings(h, tier)),
        Part::full("all-short-code-pairs", &["granted once in block", "block refused"], short_codes(h, tier)),
        Part::full("pin-neighbourhoods", &["granted", "refused (1 causes)"], pins(h)),
        Part::full("all-small-pin-pairs", &["row agreed"], pin_square(h, tier.pick(160, 2000))),
    ]
}

pub fn c03(tier: Tier) -> Vec<Part> {
    let h: How = Tok::cause;
    vec![
        Part::full(
            "cause-table",
            &[
                "granted", "refused: LongPin", "refused: AuthFlow", "refused: NoOffer", "refused: NoGrants",
                "refused: NotOffered", "refused: PinMismatch", "refused: NoExpectedPin", "refused: Values",
                "refused: 2 causes",
            ],
            table(h, tier),
        ),
        Part::full("code-neighbourhoods", &["granted", "refused: Values"], codes(h, tier)),
        Part::full("long-codes", &["granted", "refused: Values"], long_codes(h)),
        Part::full("code-contents", &["granted", "refused: Values"], code_contents(h)),
        Part::full("code-echoes", &["granted", "refused: Values", "refused: PinMismatch"], code_echoes(h)),
        Part::full("surroundings", &["granted", "refused: Values", "refused: NotOffered", "refused: PinMismatch"], surroundings(h, tier)),
        Part::full("pin-neighbourhoods", &["granted", "refused: PinMismatch"], pins(h)),
    ]
}

// ---------------------------------------------------------------- C02

fn long(p: u64) -> bool {
    p.to_string().len() > 8
}

fn direct(cx: &mut Ctx, p: u64) -> Result<(), Problem> {
    let g = GrantType::PreAuthorizedCodeFlow { pre_authorized_code: String::new(), user_pin: Some(p) };
    let r = cx.call("validate", || g.validate())?;
    if r.is_err() != long(p) {
        return Err(Problem::new("pin-length/validate", format!("pin {p}: {r:?}")));
    }
    Ok(())
}

fn evaluated(cx: &mut Ctx, t: &Tok) -> Res {
    let Some((_, Some(p))) = &t.grant else { return Ok("no pin".into()) };
    let r = t.run(cx)?;
    let refused = matches!(r, Err(E::ValidationError(_)));
    if long(*p) {
        if !refused {
            return Err(Problem::new("pin-length/not-refused", format!("pin {p} answered with {r:?}: {t:?}")));
        }
        return Ok("over-long pin refused".into());
    }
    if refused {
        return Err(Problem::new("pin-length/refused", format!("pin {p} answered with {r:?}: {t:?}")));
    }
    Ok(if r.is_ok() { "pin granted".into() } else { "refused for another cause".into() })
}

pub fn c02(tier: Tier) -> Vec<Part> {
    let boundary: Vec<u64> = {
        let mut v = interesting_u64();
        for p in [MAX_PIN, 999_999_999, 9_999_999] {
            for d in 0..=20 {
                v.extend([p - d, p + d]);
            }
        }
        for d in 1..=9u64 {
            for k in 0..20u32 {
                if let Some(x) = 10u64.checked_pow(k).and_then(|x| x.checked_mul(d)) {
                    v.extend([x, x + 7]);
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    let b2 = boundary.clone();
    // consecutive PINs in blocks: from 0, around 10^8 and 10^9, near the end of u64
    let block = 4096u64;
    let (low, around) = tier.pick((40u64, 20u64), (24_600, 400));
    let starts: Vec<u64> = (0..low)
        .map(|i| i * block)
        .chain((0..around).map(move |i| 100_000_000 - (around / 2) * block + i * block))
        .chain((0..around / 2).map(move |i| 1_000_000_000 - (around / 4) * block + i * block))
        .chain((0..around / 2).map(move |i| (1u64 << 32) - (around / 4) * block + i * block))
        .chain((1..=around / 4).map(move |i| u64::MAX - i * block))
        .collect();
    vec![
        Part::full("boundary-pins-in-every-context", &["over-long pin refused", "pin granted"], move |cx| {
            let p = *cx.all("pin", &boundary);
            let pre = *cx.all("pre-authorized grant", &[Some(Some(true)), Some(Some(false)), Some(None), None]);
            let auth = if cx.flag("authorization-code grant") { Some(None) } else { None };
            let with_offer = !cx.flag("no offer");
            let exp = *cx.all("options", &[Some(Some(p)), Some(Some(1)), Some(None), None]);
            let right = !cx.flag("wrong code");
            let t = Tok {
                grant: Some((s(if right { "c" } else { "d" }), Some(p))),
                offer: with_offer.then(|| (auth, pre.map(|r| (s("c"), r)))),
                opts: exp,
                around: None,
            };
            evaluated(cx, &t)
        }),
        Part::full("boundary-pins-validated", &["agreed"], move |cx| {
            let p = *cx.all("pin", &b2);
            direct(cx, p)?;
            let rq = request(&Some((s("c"), Some(p))));
            let r = cx.call("validate", || rq.validate())?;
            if r.is_err() != long(p) {
                return Err(Problem::new("pin-length/request", format!("pin {p}: {r:?}")));
            }
            for g in [None, Some((s("c"), None))] {
                let rq = request(&g);
                let r = cx.call("validate", || rq.validate())?;
                if r.is_err() {
                    return Err(Problem::new("pin-length/without-pin", format!("{g:?}: {r:?}")));
                }
            }
            Ok("agreed".into())
        }),
        Part::full("consecutive-pins", &["block agreed"], move |cx| {
            let from = *cx.all("block", &starts);
            for p in from..from.saturating_add(block) {
                direct(cx, p)?;
            }
            // and through the evaluation at both ends
            for p in [from, from + block - 1] {
                let t = Tok {
                    grant: Some((s("c"), Some(p))),
                    offer: Some((None, Some((s("c"), Some(true))))),
                    opts: Some(Some(p)),
                    around: None,
                };
                evaluated(cx, &t)?;
            }
            Ok("block agreed".into())
        }),
    ]
}

#[allow(dead_code)]
fn unused() {
    let _ = uniq(vec![]);
}
