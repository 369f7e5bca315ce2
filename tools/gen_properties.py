#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
AT="crates/openid4vci/src/access_token/mod.rs"
ATE="crates/openid4vci/src/access_token/error.rs"
ATR="crates/openid4vci/src/access_token/error_response.rs"
CI="crates/openid4vci/src/credential_issuer/mod.rs"
CIE="crates/openid4vci/src/credential_issuer/error.rs"
CIC="crates/openid4vci/src/credential_issuer/error_code.rs"
JW="crates/openid4vci/src/jwt/mod.rs"
JE="crates/openid4vci/src/jwt/error.rs"
CR="crates/openid4vci/src/types/credential_request.rs"
CM="crates/openid4vci/src/types/credential_issuer_metadata.rs"
CF="crates/openid4vci/src/types/credential.rs"
TT="crates/openid4vci/src/types/token_type.rs"
MA="crates/openid4vci/src/macros.rs"
RO="crates/openid4vci/src/return_object.rs"
ER="crates/openid4vci/src/error.rs"
ERR="crates/openid4vci/src/error_response.rs"
VA="crates/openid4vci/src/validate.rs"
BA="crates/openid4vci/src/base.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe,"hook_needed":None,
                 **({"state":state} if state else {})}})

p("C01","A token request is granted exactly when it redeems the offer",
 "Evaluating an access token request succeeds if and only if the request uses the pre-authorized-code grant, a credential offer containing a pre-authorized-code grant is supplied, the submitted code is character-for-character the offer's code, and a PIN is submitted exactly when the offer says one is required (an absent flag means not required) has at most eight digits and equals the expected PIN supplied by the caller. Whether the offer additionally carries an authorization-code grant makes no difference. Every other combination is answered with an error.",
 ["inputs","configurations"],"all combinations of request grant, code, PIN, offer shape (absent / no grant / either / both), PIN flag and evaluation options",
 "The ten tests pick single points of a 6-dimensional product; near-miss codes, PIN values that collide after truncation, and mixed-grant offers are never crossed.",
 [AT,CI],[("evaluate_access_token_request",AT)],["return value of the token-request evaluation"])
p("C02","A user PIN longer than eight digits is never accepted",
 "A token request whose numeric user PIN has more than eight decimal digits is always refused with a validation error, whatever the offer and options say. A PIN of at most eight digits is never refused because of its length.",
 ["inputs"],"every 64-bit PIN value",
 "The tests try two PINs (6 and 11 digits); the boundary at eight digits is not tested.",
 [AT],[("grant validation of the PIN length",AT)],["return value of the token-request evaluation and of request validation"])
p("C03","A refused token request names a cause that really applies",
 "When a token request is refused, the reported error is one whose stated condition is true of the inputs: over-long PIN, authorization-code flow requested, missing offer, offer without grants, grant not offered, PIN supplied but no expected PIN known, PIN mismatch, or wrong code/PIN presence, with the reported PIN-required and code-match flags equal to the actual facts. For an offer with both grants the error carries both the authorization-code cause and the pre-authorized cause. When exactly one such condition holds, that one is reported.",
 ["inputs","configurations"],"all combinations of request, offer and options that are not acceptable",
 "Tests check one error per hand-picked input; the truth of the flags over all combinations is not checked.",
 [AT,ATE],[("evaluate_access_token_request error arms",AT)],["error returned by the token-request evaluation"])
p("C04","A proof is only accepted with exactly the nonce the issuer expects",
 "A credential request is never accepted unless the caller supplied an expected nonce and the proof's nonce equals it character for character; a mismatch is reported as a nonce mismatch carrying both values. No near match (case, padding, prefix, normalisation, truncation) and no combination of other correct fields is enough, and an equal nonce is never refused.",
 ["inputs"],"all pairs of expected and presented nonces, including no expected nonce",
 "One matching and one completely different nonce are tested.",
 [JW,CI],[("check_nonce",JW),("evaluate_credential_request",CI)],["return value of the credential-request evaluation"])
p("C05","A nonce is usable up to the end of its lifetime and never later",
 "A credential request is refused as nonce-expired if and only if the current time is strictly later than the nonce's creation time plus its lifetime in seconds; at the very last instant it is still accepted. This holds with sub-second precision, for every 32-bit lifetime and every representable creation time, and the error reports the true current and expiry timestamps.",
 ["inputs","histories"],"all creation times, lifetimes and evaluation instants",
 "Tests use the real clock, so only 'far from the boundary' cases (0 s and 100 h old) can be run.",
 [CI],[("c_nonce expiry check",CI)],["return value of the credential-request evaluation at a controlled clock"])
p("C06","A proof is only accepted when addressed to this issuer",
 "A credential request is accepted only if the audience of its proof is character-for-character the credential issuer identifier of the supplied issuer metadata. Any difference (trailing slash, case, path, port, prefix, whitespace) is refused as an audience mismatch carrying both values, and an equal audience is never refused.",
 ["inputs"],"all pairs of issuer identifier and proof audience",
 "One unrelated audience is tested; near misses are not.",
 [JW,CI],[("check_aud",JW)],["return value of the credential-request evaluation"])
p("C07","The proof's client id is checked exactly when the flow requires it",
 "If the caller supplies a client id, a credential request is accepted only if the proof's issuer claim is present and equals it exactly. If no client id is supplied, the claim is ignored when the offer carries only a pre-authorized-code grant, and must be absent when the offer carries an authorization-code grant or no grant at all. A violation is reported as an issuer mismatch.",
 ["inputs","configurations"],"all combinations of client id, issuer claim and grants in the offer",
 "Only client id = issuer claim, and no client id with a pre-authorized offer, are tested.",
 [CI,JW],[("should_validate_iss decision",CI),("check_iss",JW)],["return value of the credential-request evaluation"])
p("C08","A proof is only accepted inside its own validity window",
 "A proof is refused as not yet valid when the current time is before its not-before claim, and as no longer valid when the current time is at or after its expiration claim; otherwise, or when a claim is absent, time never causes refusal. This holds both for the stand-alone proof verification and for credential-request evaluation, to sub-second precision.",
 ["inputs","histories"],"all combinations of absent/present not-before and expiration claims and evaluation instants",
 "Tests place the claims 32 months away from the real clock and never evaluate a credential request with either claim.",
 [JW,CI],[("ProofJwt::verify",JW),("evaluate_credential_request",CI)],["return values of proof verification and credential-request evaluation at a controlled clock"])
p("C09","Only correctly typed, asymmetrically signed proofs are let through",
 "Pre-evaluation, evaluation and credential-success-response creation all refuse, with a validation error, a request whose proof type is not 'jwt' (any letter case), whose proof header type is not 'openid4vci-proof+jwt' (any letter case), or whose algorithm is 'none' or a MAC (HS256, HS384, HS512). All other listed algorithms and all letter-case variants pass these checks, and evaluation refuses a request without any proof.",
 ["inputs","configurations"],"all combinations of proof type, header type and algorithm at all three entry points",
 "Tests only ever use acceptable types; no test asks for a refusal because of type or algorithm.",
 [CR,JW,CI],[("CredentialRequestProof::validate",CR),("ProofJwtHeader::validate",JW)],["return values of the three entry points"])
p("C10","The key handed out for verification is the one the proof's kid names",
 "When a credential request is accepted, the returned public key is the key material of the verification method in the supplied DID document whose id is the proof's kid (absolute, or relative to the document's DID), and the returned algorithm is the proof header's. If the document is missing, contains no method with exactly that id, or that method has no usable key (only Ed25519-style key material is usable), the request is refused; another method's key is never substituted.",
 ["inputs","configurations"],"all kids and all DID documents with up to three verification methods in any relationship list and order",
 "Tests use documents with one verification method, where 'any key' and 'the right key' coincide.",
 [JW],[("ProofJwtHeader::extract_key_and_alg",JW)],["public key and algorithm in the evaluation result"])
p("C11","The DID to resolve, the bound subject and the proof's kid always agree",
 "Whenever pre-evaluation names a DID to resolve, it is the DID part of the proof's kid (everything before the first '/', '?' or '#') and begins with 'did:'; if the request is later accepted, the returned subject is that same DID and the returned credential is the one requested, unchanged. A kid that is not a DID URL and a proof keyed by jwk or x5c are refused at pre-evaluation and at evaluation, and a request without proof or without any key reference yields no DID and is never accepted.",
 ["inputs"],"all kids and key-reference kinds",
 "Two kids are tested; pre-evaluation and evaluation are never compared with each other.",
 [JW,CI],[("ProofJwt::extract_did",JW),("pre_evaluate_credential_request",CI)],["DID of pre-evaluation; subject and credential of evaluation"])
p("C12","The proof-of-possession bundle is faithful to the proof that was checked",
 "For an accepted credential request the returned message contains exactly the proof header and body that were evaluated (every type, algorithm, key id, issuer, audience, subject, issue time, nonce, not-before and expiration value), complete and without the signature, and the returned signature is exactly the proof's third segment, whatever characters any of these contain. A proof without a signature segment is refused.",
 ["inputs"],"all proofs: any claim contents, any signature text",
 "The only test of the bundle uses an unsigned proof and pins whatever came out.",
 [JW,CI],[("to_signable_message",JW),("extract_signature",JW)],["message and signature in the evaluation result"])
p("C13","An offer is created exactly for resolvable credentials of sane metadata",
 "Creating a credential offer succeeds if and only if no authorization-code flow is requested, all ids in the issuer metadata's supported credentials are distinct (entries without id do not count), and every credential id offered is the id of a supported credential. The created offer names the metadata's issuer, lists the offered credentials in the given order unchanged, and carries exactly the given pre-authorized grant and no authorization-code grant.",
 ["inputs","configurations"],"all metadata with up to four supported credentials and all offers with up to three entries",
 "Tests create offers with zero or one credential against empty or one-entry metadata.",
 [CI,CM],[("create_offer",CI),("issuer metadata validation",CM)],["return value of offer creation"])
p("C14","The credential offer link always decodes back to exactly the offer",
 "The link returned with a new offer is 'openid-credential-offer://' followed directly by 'credential_offer=<value>' when no endpoint is given; otherwise it starts with the given endpoint and, read as a URL, has exactly one more query parameter than the endpoint had, 'credential_offer', with the endpoint's own parameters intact. In both cases the value percent-decodes to the JSON of the returned offer. This holds for every character that can occur in any of the offer's strings, and everything after the endpoint consists of URL-safe characters only.",
 ["inputs"],"all offers and fragment-free endpoints; every Unicode character in any string of the offer",
 "One link with plain ASCII content and no endpoint is compared.",
 [CI],[("create_offer url construction",CI),("CredentialOffer::url_encode",CI)],["link returned by offer creation, parsed by an independent URL reader"])
p("C15","A credential id resolves to its own metadata entry or to an error",
 "Resolving a credential id against issuer metadata with distinct ids returns the format description of the supported credential with exactly that id, an inline credential resolves to itself, and an id that no entry carries is an error naming that id. Resolving a list yields one result per entry in order, or the error of the first unresolvable entry. Metadata validation fails exactly when two supported credentials carry the same id.",
 ["inputs"],"all metadata with up to four entries and all id lists with up to three entries",
 "Only a missing id against empty metadata is tested; no test resolves an id.",
 [CI,CM],[("CredentialOrId::resolve / resolve_all",CI),("CredentialIssuerMetadata::validate",CM)],["return values of resolution and validation"])
p("C16","A credential success response carries what was issued, in wallet form",
 "A credential success response is created exactly for requests whose proof, if any, is valid; its format is the requested format's name, it carries the credential or the acceptance token it was given (never both, never altered), and the given nonce and nonce lifetime, and it is returned with the current time. On the wire the credential is a JSON object for ldp_vc and an unpadded base64url string decoding to the credential's JSON for the other formats, under the parameter names of the specification.",
 ["inputs","configurations"],"all combinations of requested format, issued credential or token, nonce and lifetime",
 "One combination is tested in memory; the serialised response is never looked at.",
 [CI,CF],[("create_credential_success_response",CI),("credential encoding",CF)],["returned response, its JSON form and timestamp"])
p("C17","A token success response carries exactly the values it was given",
 "A token success response serialises every given value (token, type, lifetime, scope, nonce, nonce lifetime, pending flag, interval) under its specification name, unchanged, reads back equal, and is returned with the current time. Its validation fails exactly when a nonce lifetime is present without a nonce, and the token type is read case-insensitively and refused for anything but Bearer.",
 ["inputs"],"all combinations of present/absent parameters and boundary values",
 "One response with everything present is tested in memory.",
 [AT,TT],[("create_access_token_success_response",AT),("AccessTokenType conversion",TT)],["returned response, its JSON form, timestamp and validation"])
p("C18","Protocol error codes map one-to-one to their specification names",
 "Every token and credential error code converts to its own snake_case specification name, that name and no other string converts back to it, and the serialised error response carries that same name in 'error' together with exactly the given description, URI and additional details. Reading a serialised code back yields the same code.",
 ["inputs","configurations"],"all error codes, all strings near any code, all response parameter combinations",
 "Tests check the in-memory conversion of known names only; the wire form and rejection of unknown names are untested.",
 [ATR,CIC,ERR,AT,CI],[("error code conversions",ATR),("error code conversions",CIC),("ErrorResponse",ERR)],["conversions and JSON form of error responses"])
p("C19","Every error is reported to callers with its own stable code and content",
 "Every error kind yields error information with its fixed documented numeric code (no two kinds share one), its variant name, its human-readable description and its data fields as additional information. A result converts to a return object holding the value and no error on success, or that error information and no value on failure, and added warnings are kept in order without disturbing either.",
 ["inputs","histories"],"all error kinds with boundary contents and all warning sequences up to the bound",
 "Four of about forty error kinds are tested; return objects are not.",
 [MA,CIE,ATE,JE,VA,RO,ER],[("error_impl! macro",MA),("ReturnObject",RO)],["error information and return objects, in memory and as JSON"])
p("C20","No input makes the library panic or fail to answer",
 "Every public evaluation, parsing, creation and conversion operation returns a value or an error for every input: malformed or extreme proofs, key ids, DID documents, nonces, times, PINs, offers, metadata and error contents never cause a panic, overflow or hang.",
 ["inputs"],"all inputs reachable through the wire types, including malformed and extreme ones",
 "Tests use well-formed inputs almost exclusively.",
 [JW,CI,AT,CR,CM,CF,BA],[("error propagation in parsing and evaluation",JW)],["normal return of every call under panic capture with overflow checks on"])
p("C21","Outcomes depend only on the arguments and the clock, never on history",
 "Calling any operation with given arguments at a given time gives the same outcome no matter which operations were called before, how often, with which arguments, or on which thread. In particular, nothing learned from one session (nonce, code, PIN, key, metadata) influences another, and no argument passed by reference is modified.",
 ["histories","schedules"],"all sequences of operations up to the bound over an alphabet whose arguments collide pairwise",
 "Every test makes a single evaluation call.",
 [AT,CI,JW],[("stateless evaluation functions",CI)],["outcome of each call in a history compared with the same call in a fresh process"])
p("C22","End to end, a credential is only granted to the party the offer was made to",
 "When an issuer drives the library as documented (offer, token request, token response, pre-evaluation, evaluation, credential response) over the wire formats, then in every history of honest and adversarial messages and clock advances a credential request is accepted exactly when its session's pre-authorized code and PIN were redeemed, and its proof carries that session's latest unexpired nonce, this issuer's audience and a kid found in the resolved DID document. An honest wallet that follows the protocol in time always obtains its credential.",
 ["histories","inputs"],"all histories of wallet, attacker and clock events up to the bound with two concurrent sessions",
 "No test chains two library calls of the flow, let alone two sessions or an adversary.",
 [AT,CI,JW,CR,CM],[("README flow steps 2-5.2","README.md")],["accept/refuse outcome of each protocol step against a reference automaton"],
 [{"name":"issuer session store","meaning":"code, PIN, token, nonce and nonce creation time per session, kept by the embedding application","where":"check driver"}])
p("C23","Protocol messages and metadata survive the wire without loss",
 "Offers, credential requests, issuer metadata, supported credentials, token responses and credential responses written as JSON by the library use the specification's parameter names and read back equal; and metadata or a request written by another party with the specification's names keeps the value of every parameter that these message types and the credential format profiles provide for when it is read and written again, and issuer-metadata parameters they do not provide for are kept too.",
 ["inputs"],"all messages with each optional part present or absent and each string drawn from the alphabet",
 "Three tests parse a sample credential; no test writes a message and reads it back, so a misspelt name goes unnoticed.",
 [CI,CM,CF,CR,AT],[("serde mappings of the message types",CF),("issuer metadata mapping",CM)],["JSON form of messages and structures read from it"])
p("C24","No valid part of a credential request makes up for an invalid one",
 "Credential-request evaluation succeeds if and only if every requirement holds together: distinct metadata ids, offer supplied, no authorization server metadata, a well-formed, correctly typed proof with permitted algorithm, expected and unexpired nonce, right audience, right client id where required, inside its validity window, and a kid DID whose verification method with usable key is in the supplied DID document. With any set of failed requirements it returns an error that belongs to one of the failed requirements.",
 ["inputs","configurations","fault_sequences"],"all combinations of up to three simultaneous faults (quick: two) from every requirement",
 "Tests inject single faults and fewer than half of the kinds.",
 [CI,JW,CR,CM],[("evaluate_credential_request",CI)],["return value of the credential-request evaluation"])
p("C25","A proof is read exactly as its compact serialisation says",
 "A proof string is readable if and only if it has a header and a body segment and at most one further segment, header and body are unpadded base64url text of JSON objects with all required fields of the right kind, and the header has at most one of kid, jwk and x5c. The values read are exactly those in the JSON, the signature is the third segment verbatim, and everything else is an error.",
 ["inputs"],"all strings obtained from valid proofs by segment, alphabet, padding, field and type mutations",
 "One well-formed two-segment string is parsed in the tests.",
 [JW,BA],[("ProofJwt::from_str",JW),("base64url",BA)],["result of reading a proof string"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
