//! Small independent building blocks of the oracles: base64url, percent
//! decoding, an URL query reader and string/number alphabets.

pub fn b64url(data: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut out = String::new();
    for c in data.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (u32::from(b[0]) << 16) | (u32::from(b[1]) << 8) | u32::from(b[2]);
        for i in 0..=c.len() {
            out.push(A[((n >> (18 - 6 * i)) & 63) as usize] as char);
        }
    }
    out
}

/// Strict: no padding, no other alphabet, no non-zero trailing bits.
pub fn unb64url(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let v: Option<Vec<u32>> = s
        .bytes()
        .map(|c| match c {
            b'A'..=b'Z' => Some(u32::from(c - b'A')),
            b'a'..=b'z' => Some(u32::from(c - b'a') + 26),
            b'0'..=b'9' => Some(u32::from(c - b'0') + 52),
            b'-' => Some(62),
            b'_' => Some(63),
            _ => None,
        })
        .collect();
    for c in v?.chunks(4) {
        let mut n = 0u32;
        for i in 0..4 {
            n = (n << 6) | c.get(i).unwrap_or(&0);
        }
        let bytes = match c.len() {
            4 => 3,
            3 => 2,
            2 => 1,
            _ => return None,
        };
        let b = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if b[bytes..].iter().any(|x| *x != 0) {
            return None;
        }
        out.extend_from_slice(&b[..bytes]);
    }
    Some(out)
}

pub fn percent_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            out.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}

/// RFC 3986: splits into what precedes the query and the query's `k=v` pairs (raw),
/// and the fragment.
pub fn split_url(url: &str) -> (String, Vec<(String, String)>, Option<String>) {
    let (rest, frag) = match url.split_once('#') {
        Some((r, f)) => (r, Some(f.to_owned())),
        None => (url, None),
    };
    let (base, query) = match rest.split_once('?') {
        Some((b, q)) => (b.to_owned(), q),
        None => (rest.to_owned(), ""),
    };
    let pairs = query
        .split('&')
        .filter(|p| !p.is_empty())
        .map(|p| match p.split_once('=') {
            Some((k, v)) => (k.to_owned(), v.to_owned()),
            None => (p.to_owned(), String::new()),
        })
        .collect();
    (base, pairs, frag)
}

fn push(v: &mut Vec<String>, base: &str, s: String) {
    if s != base && !v.contains(&s) {
        v.push(s);
    }
}

/// Strings a sloppy comparison could take for `base`: the whole edit-distance-1
/// neighbourhood over `sigma`, all prefixes and suffixes, case and whitespace
/// variants, and look-alikes.
pub fn near_misses(base: &str, sigma: &[char]) -> Vec<String> {
    let c: Vec<char> = base.chars().collect();
    let s = |x: &[char]| x.iter().collect::<String>();
    let mut set = std::collections::HashSet::new();
    let mut v = vec![];
    let mut add = |x: String| {
        if x != base && set.insert(x.clone()) {
            v.push(x);
        }
    };
    add(String::new());
    for i in 0..c.len() {
        add(s(&c[..i])); // prefixes
        add(s(&c[i..])); // suffixes
        let mut d = c.clone();
        d.remove(i);
        add(s(&d));
        for f in [c[i].to_ascii_uppercase(), c[i].to_ascii_lowercase()] {
            let mut d = c.clone();
            d[i] = f;
            add(s(&d));
        }
        for x in sigma {
            let mut d = c.clone();
            d[i] = *x;
            add(s(&d));
        }
        if i + 1 < c.len() {
            let mut d = c.clone();
            d.swap(i, i + 1);
            add(s(&d));
        }
    }
    for i in 0..=c.len() {
        for x in sigma {
            let mut d = c.clone();
            d.insert(i, *x);
            add(s(&d));
        }
    }
    add(base.to_uppercase());
    add(base.to_lowercase());
    add(base.trim().to_owned());
    for w in [" ", "\t", "\n", "\r\n", "\u{a0}", "\u{200b}", "\0", "/", "?", "#", "=", "\"", "'"] {
        add(format!("{base}{w}"));
        add(format!("{w}{base}"));
        add(format!("{w}{base}{w}"));
    }
    for d in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~".chars() {
        // more after, or before, some separator
        add(format!("{base}{d}"));
        add(format!("{base}{d}v=1"));
        add(format!("{d}{base}"));
        add(format!("x{d}{base}"));
    }
    add(format!("{base}{base}"));
    add(format!("{base} {base}"));
    add(format!("{base},{base}"));
    add(c.iter().rev().collect());
    add(base.replace('e', "\u{435}").replace('a', "\u{430}"));
    add(base.replace('é', "e\u{301}"));
    add(base.replace("e\u{301}", "é"));
    add(base.trim_end_matches('/').to_owned());
    add(base.trim_start_matches('0').to_owned());
    add(base.bytes().map(|b| format!("%{b:02X}")).collect());
    for i in 0..c.len() {
        // one character written another way
        let (a, z) = (s(&c[..i]), s(&c[i + 1..]));
        let mut u = [0; 4];
        let bytes = c[i].encode_utf8(&mut u).as_bytes();
        add(format!("{a}{}{z}", bytes.iter().map(|b| format!("%{b:02X}")).collect::<String>()));
        add(format!("{a}{}{z}", bytes.iter().map(|b| format!("%{b:02x}")).collect::<String>()));
        if !c[i].is_ascii_alphanumeric() {
            add(format!("{a}&#{};{z}", c[i] as u32));
            add(format!("{a}\\u{:04x}{z}", c[i] as u32));
            add(format!("{a}\\{}{z}", c[i]));
            add(format!("{a}+{z}"));
            add(format!("{a}/{z}"));
            add(format!("{a}{}{}{z}", c[i], c[i]));
        }
    }
    for i in 0..c.len() {
        // what an arithmetic digest could take for the same
        let mut shift = |at: &[(usize, i64)]| {
            let mut d = c.clone();
            for (k, by) in at {
                let Some(x) = d.get(i + k).and_then(|x| u32::try_from(i64::from(*x as u32) + by).ok()).and_then(char::from_u32) else { return };
                d[i + k] = x;
            }
            add(s(&d));
        };
        for by in [1, -1, 2, 32, -32, 64, 128, 256, 65_536] {
            shift(&[(0, by)]);
        }
        for m in [1, 17, 31, 33, 37, 65, 131, 256] {
            shift(&[(0, 1), (1, -m)]);
            shift(&[(0, -1), (1, m)]);
        }
        shift(&[(0, 1), (1, -2), (2, 1)]);
        shift(&[(0, 1), (2, -1)]);
        shift(&[(0, 1), (3, -1)]);
        shift(&[(0, 32), (1, 32)]);
        shift(&[(0, -32), (1, -32)]);
    }
    for d in ["&", ",", " ", "/", ";", ".", "-", ":", "_", "+"] {
        // the same parts in another order, or other parts of the same kind
        for (start, end) in [(0, base.len()), (base.find('?').map_or(0, |p| p + 1), base.find('#').unwrap_or(base.len())), (base.find(':').map_or(0, |p| p + 1), base.len())] {
            if start > end {
                continue;
            }
            let parts: Vec<&str> = base[start..end].split(d).collect();
            if parts.len() < 2 {
                continue;
            }
            let mut orders = vec![parts.clone(); 6];
            orders[0].reverse();
            orders[1].sort_unstable();
            orders[2].sort_unstable_by(|a, b| b.cmp(a));
            orders[3].rotate_left(1);
            orders[4].dedup();
            orders[5].retain(|x| !x.is_empty());
            for i in 0..parts.len().min(8) {
                let mut p = parts.clone();
                p.insert(i, parts[i]);
                orders.push(p);
                let mut p = parts.clone();
                p.remove(i);
                orders.push(p);
            }
            for p in orders {
                add(format!("{}{}{}", &base[..start], p.join(d), &base[end..]));
            }
        }
    }
    for d in [percent_decode(base), Some(base.replace("&amp;", "&")), Some(base.replace("://", "://./"))].into_iter().flatten() {
        add(d);
    }
    for (from, to) in [
        ("https:", "http:"), ("http:", "https:"), ("https://", ""), ("https://", "https://www."), (".test", ".test:443"), (".test", ".test."),
        (".test:8443", ".test"), ("did:", ""), ("//", "//user@"), ("/", "//"), ("/", "/./"), ("/", "/x/../"), ("?", "?&"), ("#", "/#"), ("#", "?#"),
        ("+", " "), ("-", "_"), ("_", "-"), ("ss", "ß"), ("ß", "ss"), ("i", "ı"), ("k", "\u{212a}"),
    ] {
        add(base.replacen(from, to, 1));
        add(base.replace(from, to));
    }
    for w in ["application/", "urn:", "did:", "did:example:", "https://", "//", "./", "\u{feff}", "+", "-", "0x", "00"] {
        add(format!("{w}{base}"));
    }
    // without what some reader skips
    let keep = |f: fn(&char) -> bool| c.iter().filter(|x| f(x)).collect::<String>();
    for d in [keep(|x| !x.is_ascii_punctuation()), keep(|x| !x.is_whitespace()), keep(|x| x.is_alphanumeric()), keep(|x| x.is_ascii()), keep(|x| x.is_ascii_digit()), keep(|x| !x.is_control()), base.replace('-', ""), base.replace('_', ""), base.replace(['-', '_'], " ")] {
        add(d.to_lowercase());
        add(d);
    }
    for (l, r) in [("{", "}"), ("urn:uuid:", ""), ("<", ">"), ("\"", "\""), ("[", "]"), ("(", ")"), ("W/\"", "\"")] {
        add(format!("{l}{base}{r}"));
        add(base.strip_prefix(l).and_then(|b| b.strip_suffix(r)).unwrap_or(base).to_owned());
    }
    add(c.iter().enumerate().map(|(i, x)| if i == 0 { x.to_ascii_uppercase() } else { *x }).collect());
    for w in ["null", "undefined", "*", "true", "0", "None"] {
        add(w.to_owned());
    }
    v
}

/// Lengths around which something may be cut off.
pub const LADDER: [usize; 34] = [
    15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 499, 500, 511, 512, 1000, 1023,
    1024, 1025, 2048, 4095, 4096, 4097, 65_536,
];

/// A text of `n` characters without any period shorter than `n`.
pub fn long(n: usize) -> String {
    let mut x = 12_345u32;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1_103_515_245).wrapping_add(12_345);
            b"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-_"[(x >> 20) as usize & 63] as char
        })
        .collect()
}

/// Texts of many contents, and texts of every length of the ladder: plain, of
/// words, of wide characters, and with one wide character across the limit.
pub fn stretched() -> Vec<String> {
    let mut v = contents();
    for n in [50, 400, 2_000] {
        // wide characters only, so that every cut hits the inside of one in some of them
        for c in ['\u{e9}', '\u{20ac}', '\u{1f511}'] {
            for pad in 0..c.len_utf8() {
                v.push(format!("{}{}", &"abc"[..pad], c.to_string().repeat(n / c.len_utf8())));
            }
        }
    }
    for n in LADDER {
        let l = long(n);
        v.push(l.chars().enumerate().map(|(i, c)| if i % 7 == 6 { ' ' } else { c }).collect());
        v.push(l.chars().enumerate().map(|(i, c)| if i % 3 == 1 { '\u{e9}' } else { c }).collect());
        v.push(format!("{}\u{1f511}{}", &l[..n - 2], &l[n - 2..]));
        v.push(l);
    }
    v
}

/// Texts of many kinds, each of them changed by some plausible tidying up:
/// trimming, case folding, decoding, escaping, normalising, resolving, reading as
/// a number or a flag, sorting or dropping repeated items.
pub fn contents() -> Vec<String> {
    [
        "", " ", "  a", "a  ", " a b ", "a  b", "\ta\t", "a\n", "\na", "a\r\nb", "a\rb", "a\nb\n", "a\u{a0}b", "\u{a0}", "a\u{2003}", "a\u{200b}b",
        "\u{feff}a", "a\u{ad}b", "a\0", "\0a", "a\0b", "a\u{7f}b", "a\u{1b}[0m", "\u{85}a", "\u{2028}a\u{2029}", "MiXed Case", "UPPER", "lower", "\u{130}\u{131}",
        "Stra\u{df}e", "\u{212a}", "\u{17f}", "e\u{301}", "\u{e9}", "\u{fb01}", "\u{ff21}\u{ff22}", "\u{1f511}\u{1f511}", "\u{1f469}\u{200d}\u{1f680}", "\u{fffd}", "\u{ffff}", "\u{10ffff}",
        "\u{202e}abc", "\u{5d0}\u{5d1}", "\u{4e2d}\u{6587}", "a%20b", "a%2Fb", "a%2fb", "%41", "%C3%A9", "%", "%zz", "100%", "a+b", "a%2Bb", "a&b", "a&amp;b", "&lt;a&gt;", "&#65;", "<b>a</b>",
        "<!--a-->", "a\\b", "a\\/b", "a\\nb", "\\u0041", "\\", "\"", "\"a\"", "'a'", "`a`", "\u{201c}a\u{201d}", "a/b", "a//b", "/a", "a/", "/", "//", "./a", "a/./b", "a/../b", "../a", ".", "..",
        "a.", ".a", "a..b", "a,b", "a, b", "b,a", "a,a", "a b a", "b a", "a;b", "a:b", "a=b", "a=", "=a", "a?b", "a?", "a#b", "a#", "#a", "a|b", "a~b", "~a", "a^b", "{a}", "[a]", "(a)", "{}", "[]",
        "{\"a\":1}", "$a", "${a}", "{{a}}", "%s", "%d", "{0}", "null", "NULL", "undefined", "true", "True", "false", "yes", "0", "-0", "00", "007", "1", "1.0", "1e3", "0x10", "+1", "-1", "1_000", "1,000",
        "Infinity", "NaN", "18446744073709551616", "9007199254740993", "2023-02-29", "2023-05-08T11:30:00Z", "\u{661}\u{662}", "YQ==", "YQ", "_-8", "/+8=", "mailto:a@b.test", "http://a.test", "https://a.test",
        "https://a.test/", "HTTPS://A.TEST", "https://A.test/B", "https://a.test:443", "https://a.test:443/", "https://a.test:8443/", "http://a.test:80/", "https://a.test/b/", "https://a.test//b", "https://a.test/./b",
        "https://a.test/b/../c", "https://a.test/%7Eb", "https://a.test/~b", "https://a.test?", "https://a.test/?b=1&a=2", "https://a.test/?a=1&a=1", "https://a.test/#f", "https://u:p@a.test/", "https://a.test./",
        "https://\u{e9}.test", "https://xn--9ca.test", "https://192.168.000.001", "https://[::1]/", "https://127.0.0.1", "localhost", "a.test", "www.a.test", "//a.test", "file:///a", "javascript:alert(1)", "urn:a:b",
        "urn:uuid:123E4567-E89B-12D3-A456-426614174000", "did:a:b", "did:web:a.test", "did:web:a.test%3A8443", "did:web:a.test%3a8443:u", "did:key:z6Mk", "did:jwk:e30", "did:peer:0z6Mk", "DID:a:b", "did:a:b#c", "did:a:b/", "did:a:b?c", "did:a:b;c",
        "123e4567-e89b-12d3-a456-426614174000", "123E4567-E89B-12D3-A456-426614174000", "{123e4567-e89b-12d3-a456-426614174000}", "123e4567e89b12d3a456426614174000",
        "01ARZ3NDEKTSV4RRFFQ69G5FAV", "01arz3ndektsv4rrffq69g5fav", "d41d8cd98f00b204e9800998ecf8427e", "D41D8CD98F00B204E9800998ECF8427E", "0xDEADbeef",
        "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "JBSWY3DPEHPK3PXP", "JBSWY3DP======", "3J98t1WpEZ73CNmQviecrnyiWrnqRhWNLy",
        "A.B@Example.TEST", "a+b@example.test", "+1 (234) 567-8901", "+12345678901", "08/05/2023", "8.5.2023", "2023-05-08", "20230508T113000Z",
        "2023-05-08T11:30:00.000Z", "2023-05-08T11:30:00+02:00", "2023-05-08 11:30", "11:30", "1683545400", "en_US", "en-us", "EN", "zh-Hant-TW", "fr-FR.UTF-8", "x-klingon",
        "#12A4BF", "#12a4bf", "#FFF", "#12a4bf80", "RED", "Red", "rgb(18, 164, 191)", "image/PNG", "text/html; charset=UTF-8", "data:image/png;base64,iVBORw0KGgo=", "1.0.0", "v1", "V1.2",
        "192.168.1.1", "2001:DB8::1", "2001:db8:0:0:0:0:0:1", "00:1B:44:11:3A:B7", "00-1b-44-11-3a-b7", "C:\\a\\b", "\\\\a\\b", "1.2.840.10045", "camelCase", "PascalCase", "snake_case", "kebab-case",
        "SCREAMING_CASE", "Title Case Text", "\u{2167}", "\u{bd}", "\u{b2}", "a\u{2013}b", "a\u{2026}", "EdDSA", "es256", "openid4vci-proof+jwt", "jwt_vc_json", "JWT_VC_JSON", "S256", "openid",
        "credential_request_denied", "Tom & Jerry's \"Show\"", "a\tb", "SGVsbG8gV29ybGQ=", "SGVsbG8gV29ybGQ", "AAAA", "z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK",
        "did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK#z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK", "did:ethr:0xF3beAC30C498D9E26865F34fCAa57dBB935b0D74",
        "urn:ietf:params:oauth:grant-type:pre-authorized_code", "X509", "GB29 NWBK 6016 1331 9268 19", "978-3-16-148410-0", "1,5", "1 000", "50 %", "\u{20ac}5", "$5.00",
        "Bearer a", "bearer", "a\u{2019}b", "password", "secret=abc", "token", "eyJhbGciOiJub25lIn0.e30.", "c\u{f4}t\u{e9}", "na\u{ef}ve caf\u{e9}", "O'Brien", "a & b < c > d \" e ' f",
    ]
    .map(str::to_owned)
    .to_vec()
}

/// The contents with everything near them, and with one another.
pub struct Pairs(Vec<(String, Vec<String>)>);

impl Pairs {
    pub fn new() -> Self {
        let all = contents();
        let near = |c: &String| {
            let mut v = vec![c.clone()];
            v.extend(near_misses(c, &[]));
            v.extend(all.iter().cloned());
            let mut seen = std::collections::HashSet::new();
            v.retain(|x| seen.insert(x.clone()));
            (c.clone(), v)
        };
        Pairs(all.iter().map(near).collect())
    }

    pub fn pick(&self, cx: &mut crate::explore::Ctx) -> (String, String) {
        let (base, others) = &self.0[cx.all_n("content", self.0.len())];
        let other = cx.all("other content", others).clone();
        if cx.flag("swap roles") {
            (other, base.clone())
        } else {
            (base.clone(), other)
        }
    }
}

/// Algorithm names of JOSE, of its extensions, and the names of what algorithms consist of.
pub const JOSE: [&str; 96] = [
    "none", "HS256", "HS384", "HS512", "HS256/64", "HS1", "RS1", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512",
    "ES256K", "ES256K-R", "ES256KR", "ESKeccakK-R", "ESKeccakKR", "ESBlake2b", "ESBlake2bK", "EdDSA", "EdBlake2b", "Ed25519", "Ed448",
    "Ed25519ph", "X25519", "X448", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW", "ECDH-1PU", "RSA", "RSA1_5", "RSA-OAEP",
    "RSA-OAEP-256", "RSA-OAEP-384", "RSA-OAEP-512", "A128KW", "A192KW", "A256KW", "dir", "A128GCMKW", "A192GCMKW", "A256GCMKW",
    "PBES2-HS256+A128KW", "PBES2-HS384+A192KW", "PBES2-HS512+A256KW", "A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM",
    "A256GCM", "ECDSA", "ecdsa", "EDDSA", "eddsa", "Eddsa", "EdDsa", "es256k", "rs256", "None", "NONE", "P-256", "P-384", "P-521", "P-256K", "secp256k1",
    "secp256r1", "SHA-256", "SHA256withRSA", "RSASSA-PKCS1-v1_5", "RSASSA-PSS", "ESP256", "ESP384", "ESP512", "ESB256", "ESB384", "ML-DSA-44",
    "ML-DSA-65", "ML-DSA-87", "SLH-DSA-SHA2-128s", "SM2", "BBS", "BLS12381", "AleoTestnet1Signature", "Ed25519Signature2018",
    "Ed25519Signature2020", "JsonWebSignature2020", "EcdsaSecp256k1Signature2019", "OKP", "EC",
];

/// Key names under DIDs of many methods; some of them say the key themselves.
pub const METHODS: [&str; 34] = [
    "did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK#z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK",
    "did:key:zQ3shokFTS3brHcDQrn82RUDfCZESWL1ZdCEJwekUDPQiYBme#zQ3shokFTS3brHcDQrn82RUDfCZESWL1ZdCEJwekUDPQiYBme",
    "did:key:zDnaerx9CtbPJ1q36T5Ln5wYt3MQYeGRG5ehnPAmxcf5mDZpv#zDnaerx9CtbPJ1q36T5Ln5wYt3MQYeGRG5ehnPAmxcf5mDZpv",
    "did:key:z6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc#z6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc",
    "did:key:z6Mk#key-1", "did:key:abc", "did:key:z#k",
    "did:jwk:eyJrdHkiOiJPS1AiLCJjcnYiOiJFZDI1NTE5IiwieCI6IjExcVlBWUt4Q3JmVlNfN1R5V1FIT2c3aGN2UGFwaU1scndJYVBjSFVSbyJ9#0",
    "did:jwk:eyJjcnYiOiJQLTI1NiIsImt0eSI6IkVDIiwieCI6ImFjYklRaXVNczNpOF91c3pFakoydHBUdFJNNEVVM3l6OTFQSDZDZEgyVjAiLCJ5IjoiX0tjeUxqOXZXTXB0bm1LdG00NkdxRHo4d2Y3NEk1TEtncmwyR3pIM25TRSJ9#0",
    "did:jwk:e30#0", "did:jwk:AAAA", "did:web:a.test#key-1", "did:web:a.test%3A8443:users:alice#owner", "did:web:localhost%3A3000#0", "did:webs:a.test:EKYGGh#k",
    "did:webvh:QmT:a.test#k", "did:tdw:QmT:a.test#k", "did:peer:0z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK#z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK",
    "did:peer:2.Ez6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc.Vz6MkqRYqQiSgvZQdnBytw86Qbs2ZWUkGv22od935YF4s8M7V#key-1", "did:peer:4zQmd#k",
    "did:ethr:0xF3beAC30C498D9E26865F34fCAa57dBB935b0D74#controller", "did:ethr:mainnet:0x03fdd57adec3d438ea237fe46b33ee1e016eda6b585c3e27ea66686c2ea5358479#controllerKey",
    "did:pkh:eip155:1:0xb9c5714089478a327f09197987f16f9e5d936e8a#blockchainAccountId", "did:sov:WRfXPg8dantKVubE3HX8pw#key-1", "did:indy:sovrin:7Tqg6BwSSWapxgUDm9KKgg#verkey",
    "did:ion:EiDyOQbbZAa3aiRzeCkV7LOx3SERjjH93EXoIM3UoN4oWg:eyJkZWx0YSI6e319#signingKey", "did:dht:i9xkp8ddcbcg8jwq54ox699wuzxyifsqx4jru45zodqu453ksz6y#0",
    "did:plc:ewvi7nxzyoun6zhxrhs64oiz#atproto", "did:tz:tz1TzrmTBSuiVHV2VfMnGRMYvTEPCP42oSM8#blockchainAccountId", "did:ebsi:zsSgDXeYPhZ3AuKhTFneDf1#k", "did:onion:fscst5exmlmr262byztwz4kzhggjlzumvc2ndvgytzoucr2tkgxf7mid#k",
    "did:cheqd:testnet:55dbc8bf-fba3-4117-855c-1e0dc1d3bb47#key-1", "did:example:123", "did:nostr:d61f3bc5b3eb4400efdae6169a5c17cabf3246b514361de939ce4a1a0da6ef4a#key1",
];

/// Curve names.
pub const CURVES: [&str; 18] = [
    "Ed25519", "Ed448", "X25519", "X448", "P-256", "P-384", "P-521", "secp256k1", "P-256K", "Bls12381G1", "Bls12381G2", "AleoTestnet1Key",
    "", "ed25519", "ED25519", "EdDSA", "Curve25519", "x25519",
];

/// Bytes of every length up to 66, with zeros and ones where something could be cut off.
pub fn byte_shapes() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for n in 0..=66usize {
        let plain: Vec<u8> = (0..n).map(|i| i as u8 + 7).collect();
        v.push(plain.clone());
        if [0, 1, 2, 3, 4, 16, 31, 32, 33, 34, 35, 48, 56, 57, 63, 64, 65, 66].contains(&n) {
            v.push(vec![0; n]);
            v.push(vec![255; n]);
            for lead in [&[0u8] as &[u8], &[0, 0], &[255], &[0xed, 0x01], &[0x04], &[0x02], &[0x03], &[0x40], &[0x30, 0x2a], &[0x04, 0x20], b" ", b"\n", b"=", b"z", b"0x"] {
                if lead.len() <= n {
                    let mut a = plain.clone();
                    a[..lead.len()].copy_from_slice(lead);
                    v.push(a);
                    let mut a = plain.clone();
                    a[n - lead.len()..].copy_from_slice(lead);
                    v.push(a);
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// Every text in a JSON value, member names, and numbers as texts.
pub fn texts_in(v: &serde_json::Value, out: &mut Vec<String>) {
    match v {
        serde_json::Value::String(t) => out.push(t.clone()),
        serde_json::Value::Array(a) => a.iter().for_each(|x| texts_in(x, out)),
        serde_json::Value::Object(m) => {
            for (k, x) in m {
                out.push(k.clone());
                texts_in(x, out);
            }
        }
        serde_json::Value::Null => {}
        x => out.push(x.to_string()),
    }
}

/// What somebody could derive a text from: the texts and their parts.
pub fn derived(of: &[String]) -> Vec<String> {
    let mut v = vec![];
    for t in of {
        v.push(t.clone());
        for d in ['#', '?', '/', ':', '.', '@', ' ', '-', '_'] {
            for (a, b) in [t.split_once(d), t.rsplit_once(d)].into_iter().flatten() {
                v.extend([a, b].map(str::to_owned));
                v.push(format!("{d}{b}"));
                v.push(format!("{a}{d}"));
            }
        }
        v.extend([t.to_lowercase(), t.to_uppercase(), format!("{t}/"), format!("did:{t}"), format!("https://{t}"), b64url(t.as_bytes())]);
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// Numbers of entries around which a list may be cut off.
pub const COUNTS: [usize; 20] = [0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 20, 32, 33, 64, 65, 100, 128, 257];

/// What a comparison that looks at a part of `base` only takes for `base`.
pub fn long_misses(base: &str) -> Vec<String> {
    let b: Vec<char> = base.chars().collect();
    let n = b.len();
    let mut v = vec![format!("{base}x"), format!("x{base}")];
    if n > 0 {
        v.push(b[..n - 1].iter().collect());
        v.push(b[1..].iter().collect());
        for i in [0, n / 4, n / 2, n - n / 4 - 1, n.saturating_sub(2), n - 1] {
            let mut c = b.clone();
            c[i] = if c[i] == '~' { '!' } else { '~' };
            v.push(c.iter().collect());
        }
    }
    uniq(v)
}

/// All strings over `sigma` of length at most `n`.
pub fn all_strings(sigma: &[char], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for s in &last {
            for c in sigma {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// Sentences of at most `n` tokens.
pub fn all_sentences(tokens: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for s in &last {
            for t in tokens {
                next.push(format!("{s}{t}"));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|s| seen.insert(s.clone()));
    out
}

/// 0, powers of two and ten and their neighbours.
pub fn interesting_u64() -> Vec<u64> {
    let mut v = vec![0u64, 1, 2, 3, 5, 7, 9, 59, 60, 61, 86_400, 3600];
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
    }
    let mut p = 1u64;
    for _ in 0..20 {
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
        p = p.saturating_mul(10);
    }
    v.extend([u64::MAX - 1, u64::MAX]);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn interesting_u32() -> Vec<u32> {
    let mut v: Vec<u32> =
        interesting_u64().into_iter().filter_map(|x| u32::try_from(x).ok()).collect();
    v.push(u32::MAX);
    v.sort_unstable();
    v.dedup();
    v
}

#[allow(dead_code)]
pub fn uniq(mut v: Vec<String>) -> Vec<String> {
    let mut out = vec![];
    for s in v.drain(..) {
        push(&mut out, "\u{1}never", s);
    }
    out
}
