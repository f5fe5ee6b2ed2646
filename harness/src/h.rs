//! Engine H: data from others, and everything a program may do with it.
use crate::{mint::*, sem::*, util::*, w::*};
use anyhow::anyhow;
use async_trait::async_trait;
use cid::multihash::{Code, Multihash};
use cid::Cid;
use futures::executor::block_on;
use libipld_core::ipld::Ipld;
use libipld_core::serde::{from_ipld, to_ipld};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::str::FromStr;
use std::sync::Arc;
use ucan::builder::UcanBuilder;
use ucan::capability::proof::ProofDelegationSemantics;
use ucan::capability::*;
use ucan::chain::ProofChain;
use ucan::crypto::did::DidParser;
use ucan::crypto::{JwtSignatureAlgorithm, KeyMaterial};
use ucan::ipld::{Principle, Signature, UcanIpld, VarsigPrefix};
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};
use ucan::ucan::{UcanHeader, UcanPayload};
use ucan::Ucan;
use ucan_key_support::{ed25519::*, p256::*, rsa::*};

type K = Arc<Box<dyn KeyMaterial>>;

/// A key with nothing to say
struct NoKey {
    did: bool,
}
#[async_trait]
impl KeyMaterial for NoKey {
    fn get_jwt_algorithm_name(&self) -> String {
        "\u{0}é".into()
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        if self.did { Ok("did:x:y".into()) } else { Err(anyhow!("no DID")) }
    }
    async fn sign(&self, _: &[u8]) -> anyhow::Result<Vec<u8>> {
        Err(anyhow!("no signature"))
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> anyhow::Result<()> {
        Err(anyhow!("no"))
    }
}

/// A fact that cannot be serialized
#[derive(Deserialize)]
struct Fails;
impl Serialize for Fails {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("fails"))
    }
}

#[allow(clippy::large_enum_variant)]
enum Val {
    Dead,
    Text(String),
    Token(Ucan),
    Chain(ProofChain),
    Ipld(UcanIpld),
    Cbor(Vec<u8>),
    Did(String),
    Key(K),
    KeyBytes(String, Vec<u8>),
    Prin(Principle),
    Varsig(Signature),
    Cid(String),
    Capability(String, String, Value),
    Json(Value),
    Caps(Capabilities),
    Request(Value),
    Name(String),
}

fn deep(n: usize) -> Value {
    (0..n).fold(json!(1), |v, i| if i % 2 == 0 { json!([v]) } else { json!({"a": v}) })
}

fn hex(t: &str) -> Vec<u8> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn der_len(n: usize) -> Vec<u8> {
    match n {
        0..=127 => vec![n as u8],
        128..=255 => vec![0x81, n as u8],
        256..=65535 => vec![0x82, (n >> 8) as u8, n as u8],
        _ => vec![0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8],
    }
}
fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    [&[tag], &der_len(body.len())[..], body].concat()
}
fn rsa_der(n: &[u8], e: &[u8]) -> Vec<u8> {
    der(0x30, &[der(2, n), der(2, e)].concat())
}

fn key_bytes(alg: &str, form: &str, rng: &mut Rng) -> Vec<u8> {
    let good = match alg {
        "ed" | "none" | "half" | "bls" | "secp" | "mark" | "zero" => Key::ed(rng.pick(&["x", "y"])),
        "rsa" => Key::rsa(rng.below(3)),
        _ => Key::p256(rng.pick(&["x", "y"])),
    };
    let good = good.public_bytes()[2..].to_vec();
    let odd = |n: usize, rng: &mut Rng| {
        let mut v = rng.bytes(n);
        v[0] = 0x6f;
        v[n - 1] |= 1;
        v
    };
    let e = &[1, 0, 1][..];
    match (alg, form) {
        (_, "good") => good,
        (_, "empty") => vec![],
        (_, "one") => vec![*rng.pick(&[0, 1, 2, 3, 4, 0x30, 0xff])],
        (_, "short") => good[..good.len() - 1].to_vec(),
        (_, "long") => [good, rng.bytes(1)].concat(),
        (_, "zero") => vec![0; good.len()],
        (_, "ff") => vec![0xff; good.len()],
        (_, "rand") => rng.bytes(good.len()),
        ("rsa", "d1") => rsa_der(&[0], e),
        ("rsa", "d2") => rsa_der(&[1], rng.pick(&[&[1][..], &[0], e])),
        ("rsa", "d3") => { let mut v = odd(256, rng); v[255] &= 0xfe; rsa_der(&v, e) }
        ("rsa", "d4") => rsa_der(&odd(1024, rng), e),
        ("rsa", "d5") => { let mut v = odd(256, rng); v[0] = 0xff; rsa_der(&v, e) }
        ("rsa", "d6") => rsa_der(&odd(256, rng), rng.pick(&[&[0][..], &[]])),
        ("rsa", "d7") => rsa_der(&odd(256, rng), rng.pick(&[&[1][..], &[2], &[3]])),
        ("rsa", "d8") => { let n = *rng.pick(&[4, 5, 8, 9, 256]); rsa_der(&odd(256, rng), &odd(n, rng)) }
        ("rsa", "d9") => good[..rng.below(good.len())].to_vec(),
        ("rsa", "d10") => [good, vec![0; 5]].concat(),
        ("rsa", "d11") => rng.pick(&["3080020101020101 0000", "308200ff02010102", "3084ffffffff0201", "30060284ffffffff", "3088ffffffffffffffff", "30890000000000000000"]).replace(' ', "").bytes().collect::<Vec<_>>().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect(),
        ("rsa", _) => { let n = *rng.pick(&[1, 2, 8, 11, 12, 32, 61, 62, 63, 512, 513]); rsa_der(&odd(n, rng), e) }
        ("p256", "d1") => {
            let Key::P256(k) = Key::p256("x") else { unreachable!() };
            p256::ecdsa::VerifyingKey::from(&k).to_encoded_point(false).as_bytes().to_vec()
        }
        ("p256", "d2") => [&[*rng.pick(&[6, 7])][..], &rng.bytes(64)].concat(),
        ("p256", "d3") => [vec![0], vec![0; *rng.pick(&[0, 1, 32, 64])]].concat(),
        // coordinates at and beyond the modulus
        ("p256", "d4") => [vec![*rng.pick(&[2, 3])], hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff")].concat(),
        ("p256", "d5") => [vec![*rng.pick(&[2, 3, 5])], hex("ffffffff00000001000000000000000000000000fffffffffffffffffffffffe")].concat(),
        ("p256", "d6") => [vec![4], vec![0; 64]].concat(),
        ("p256", "d7") => [vec![4], rng.bytes(64)].concat(),
        ("p256", "d8") => [vec![4], rng.bytes(32)].concat(),
        ("p256", "d9") => [vec![2], rng.bytes(64)].concat(),
        ("p256", _) => [vec![*rng.pick(&[1, 5, 8, 0x80])], rng.bytes(32)].concat(),
        // points of small order, and values that no point has
        (_, "d1") => hex("0100000000000000000000000000000000000000000000000000000000000000"),
        (_, "d2") => hex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
        (_, "d3") => hex("0000000000000000000000000000000000000000000000000000000000000080"),
        (_, "d4") => hex("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05"),
        (_, "d5") => hex("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
        (_, "d6") => hex("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
        (_, "d7") => hex("0100000000000000000000000000000000000000000000000000000000000080"),
        (_, "d8") => rng.bytes(64),
        (_, "d9") => { let n = rng.below(200); rng.bytes(n) }
        _ => vec![*rng.pick(&[2, 9]); 32],
    }
}

/// a few plain characters, then many that take several bytes each
fn wall(rng: &mut Rng) -> String {
    let few = if rng.chance(80) { rng.below(6) } else { rng.below(100) };
    "x".repeat(few) + &rng.pick(&["é", "\u{20ac}", "\u{1F600}"]).repeat(10 + rng.below(120))
}

fn did_text(sh: &Value, rng: &mut Rng) -> String {
    let magic: &[u8] = match s(sh, "magic") {
        "ed" => &[0xed, 1],
        "rsa" => &[0x85, 0x24],
        "p256" => &[0x80, 0x24],
        "half" => &[0xed],
        "bls" => &[0xea, 1],
        "secp" => &[0xe7, 1],
        "mark" => &[0x9d, 0x1a],
        "zero" => &[0, 0],
        _ => &[],
    };
    let bytes = [magic, &key_bytes(s(sh, "magic"), s(sh, "key"), rng)].concat();
    let text = bs58::encode(&bytes).into_string();
    let body = match s(sh, "body") {
        "raw" => String::from_utf8_lossy(&bytes).to_string(),
        "bad58" => format!("{text}{}", rng.pick(&["0", "O", "I", "l", "-", "/", " ", "z\n"])),
        "unicode" if rng.chance(50) => wall(rng),
        "unicode" => rng.pick(&["é", "zé", "\u{1F600}", "\u{0}", "a\u{301}", "６Mk"]).to_string() + rng.pick(&["", "z6Mk"]),
        "empty" => String::new(),
        f if f.starts_with("long:") => text.repeat(1 + f[5..].parse::<usize>().unwrap_or(0) / text.len().max(1)),
        "long" => text.repeat(1 + 5000 / text.len().max(1)),
        "ones" => "1".repeat(*rng.pick(&[1, 2, 3, 34, 100])),
        "nul" => format!("{text}\0"),
        _ => text,
    };
    match s(sh, "pre") {
        "none" => body,
        "space" => format!(" did:key:z{body}"),
        "cut" => "did:key:z"[..1 + rng.below(8)].to_string(),
        p => format!("{p}{body}"),
    }
}

fn sig_bytes(form: &str, good: Vec<u8>, rng: &mut Rng) -> Vec<u8> {
    match form {
        "good" => good,
        "empty" => vec![],
        "one" => vec![0],
        "short" => good[..good.len() - 1].to_vec(),
        "long" => [good, vec![0]].concat(),
        "zero" => vec![0; good.len()],
        "ff" => vec![0xff; good.len()],
        "huge" => rng.bytes(100_000),
        // one half of the signature zero, or at the order of the group
        "rzero" => { let mut v = good; let k = 32.min(v.len()); let at = *rng.pick(&[0, v.len() - k]); v[at..at + k].fill(0); v }
        "sbig" => {
            let order = if rng.chance(50) {
                hex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")
            } else {
                hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")
            };
            let mut v = good;
            let at = *rng.pick(&[0, v.len() - 32]);
            v[at..at + 32].copy_from_slice(&order);
            v
        }
        _ => rng.bytes(good.len()),
    }
}

struct World {
    store: MemoryStore,
    parser: DidParser,
    proof: Ucan,
    proof_cid: String,
    garbage_cid: String,
    bytes_cid: String,
    chain_cid: String,
}

const ISSUERS: [(&str, &str); 3] = [("A", "ed"), ("A", "rsa"), ("A", "p256")];

impl World {
    fn new() -> World {
        let mut store = MemoryStore::default();
        let b = principal_key("B", "ed");
        // one proof for every issuer
        let mut proof = None;
        let mut cids = vec![];
        let mut rng = Rng::new(0, 0);
        let cap = json!({"fs:/": {"fs/admin": [{}]}, "mb:m": {"mb/own": [{}]}});
        for (n, ty) in ISSUERS {
            let aud = principal_key(n, ty).did();
            let p = json!({"ucv":"0.10.0-canary","iss":b.did(),"aud":aud,"exp":null,"cap":cap});
            let t = mint(&json!({"alg":"EdDSA","typ":"JWT"}), &p, "canon", &b, "self", "intact", "", &mut rng);
            cids.push(block_on(store.write_token(&t)).unwrap_or_else(|e| panic!("harness: {e}")).to_string());
            proof.get_or_insert(Ucan::try_from(t).unwrap_or_else(|e| panic!("harness: {e}")));
        }
        let put = |store: &mut MemoryStore, b: Vec<u8>| block_on(store.write(Ipld::Bytes(b))).unwrap_or_else(|e| panic!("harness: {e}")).to_string();
        let garbage_cid = put(&mut store, b"not a token".to_vec());
        let bytes_cid = put(&mut store, vec![0xff, 0xfe, 0, 0x80]);
        let a = principal_key("A", "ed");
        let p = json!({"ucv":"0.10.0-canary","iss":a.did(),"aud":"did:web:x","exp":null,"cap":{"prf:0":{"ucan/DELEGATE":[{}]}},"prf":[cids[0]]});
        let t = mint(&json!({"alg":"EdDSA","typ":"JWT"}), &p, "canon", &a, "self", "intact", "", &mut rng);
        let chain_cid = block_on(store.write_token(&t)).unwrap_or_else(|e| panic!("harness: {e}")).to_string();
        World { store, parser: new_parser(), proof: proof.unwrap(), proof_cid: cids[0].clone(), garbage_cid, bytes_cid, chain_cid }
    }

    fn cid_text(&self, form: &str, rng: &mut Rng) -> String {
        let digest = |n: usize, rng: &mut Rng| rng.bytes(n);
        match form {
            "token" | "good" => self.proof_cid.clone(),
            "chain" => self.chain_cid.clone(),
            "missing" => raw_cid(&rng.bytes(8), rng.pick(&HASHES).1).to_string(),
            "garbage" => rng.pick(&["x", "b", "z", "baf", "bafy", "Qm", "f01", "f0155", "m", "u", "\0", "-1", "bafkr4i!!", "\u{1F600}"]).to_string(),
            "text16" => format!("f{}", self.bytes_of(&self.proof_cid).iter().map(|b| format!("{b:02x}")).collect::<String>()),
            "notoken" => self.garbage_cid.clone(),
            "badutf8" => self.bytes_cid.clone(),
            // long and doubled chains
            f if f.starts_with("deep") || f.starts_with("doubled") => {
                let (doubled, n) = match f.strip_prefix("doubled") {
                    Some(k) => (true, k),
                    None => (false, &f[4..]),
                };
                let key = principal_key("A", "ed");
                let mut store = self.store.clone();
                let mut cid: Option<String> = None;
                for _ in 0..n.parse::<usize>().unwrap_or_else(|e| panic!("harness: {e}")) {
                    let prf: Vec<_> = cid.iter().cycle().take(if cid.is_none() { 0 } else { 1 + doubled as usize }).collect();
                    let p = json!({"ucv":"0.10.0-canary","iss":key.did(),"aud":key.did(),"exp":null,"cap":{"fs:/a":{"fs/read":[{}]}},"prf":prf});
                    let t = mint(&json!({"alg":"EdDSA","typ":"JWT"}), &p, "canon", &key, "self", "intact", "", rng);
                    cid = Some(block_on(store.write_token(&t)).unwrap_or_else(|e| panic!("harness: {e}")).to_string());
                }
                cid.unwrap_or_default()
            }
            "codec" => Cid::new_v1(*rng.pick(&[0x70, 0x71, 0x0129, 0, u64::MAX >> 1]), *Cid::from_str(&self.proof_cid).unwrap().hash()).to_string(),
            "v0" => rng.pick(&["QmdfTbBqBPQ7VNxZEYEj14VmRuZBkqFbiwReogJgS1zR1n", "Qm11111111111111111111111111111111111111111111", "QmdfTbBqBPQ7VNxZEYEj14VmRuZBkqFbiwReogJgS1zR1"]).to_string(),
            "identity" => { let n = *rng.pick(&[0usize, 1, 32, 64]); Cid::new_v1(0x55, Multihash::wrap(0, &digest(n, rng)).unwrap()).to_string() }
            "empty" | "blank" => rng.pick(&["", " "]).to_string(),
            // a digest longer than can be held, a length that lies, a version that does not exist
            "hugedigest" => {
                let mut v = rng.pick(&[&[1u8, 0x55, 0x12, 0x80, 0x01][..], &[1, 0x55, 0x12, 0xff, 0xff, 0xff, 0xff, 0x0f], &[2, 0x55, 0x12, 4], &[1, 0x55, 0x12, 4], &[0x80; 12], &[1], &[1, 0x55], &[0x12, 0x20], &[]]).to_vec();
                let n = *rng.pick(&[0, 3, 5, 128]);
                v.extend(rng.bytes(n));
                format!("f{}", v.iter().map(|b| format!("{b:02x}")).collect::<String>())
            }
            "unicode" if rng.chance(50) => wall(rng),
            "unicode" => format!("{}é", self.proof_cid),
            f if f.starts_with("long:") => format!("z{}", "7".repeat(f[5..].parse().unwrap_or(0))),
            "truncated" => self.proof_cid[..1 + rng.below(self.proof_cid.len() - 1)].to_string(),
            _ => self.proof_cid.to_uppercase(),
        }
    }
    fn bytes_of(&self, cid: &str) -> Vec<u8> {
        Cid::from_str(cid).unwrap().to_bytes()
    }
}

fn cap_map(form: &str, rng: &mut Rng) -> Value {
    let one = |r: &str, a: &str, c: Value| json!({ r: { a: c } });
    match form {
        "none" => json!({}),
        "prf0" => one("prf:0", "ucan/DELEGATE", json!([{}])),
        "prfall" => one("prf:*", "ucan/DELEGATE", json!([{}])),
        "prfhuge" => one(rng.pick(&["prf:18446744073709551615", "prf:18446744073709551616", "prf:99999999999999999999999", "prf:1", "prf:4294967296"]), "ucan/DELEGATE", json!([{}])),
        "prfbad" => one(rng.pick(&["prf:-1", "prf:", "prf: 0", "prf:0x0", "prf:+0", "prf:00", "prf:0.0", "prf:**", "prf:é", "prf:0#", "prf:?"]), "ucan/DELEGATE", json!([{}])),
        "prftext" => one(rng.pick(&["my:prf:0", "as:did:key:z6Mk:prf:0", "prf:prf:0", "prf://0", "prf:/0"]), "ucan/DELEGATE", json!([{}])),
        "mybare" => one(rng.pick(&["my", "my:", "my:*", "my:my:*", "my::", "my://", "my:fs", "my:é"]), "fs/read", json!([{}])),
        "asbare" => one(rng.pick(&["as", "as:", "as:*", "as:did", "as:did:", "as:did:key", "as:did:key:", "as:did:key::", "as:did:key:z6Mk", "as:did:web:x:*"]), "fs/read", json!([{}])),
        "asodd" => one(rng.pick(&["as:did:key:z6Mk:as:did:key:z:*", "as:did:key:é:*", "as:did:key:z:é", "as://did:key:z:*", "as:did:key:z:fs://[", "as::::::", "as:did:key:z:my:*"]), "fs/read", json!([{}])),
        "unicode" if rng.chance(50) => one(&format!("{}{}", rng.pick(&["", "fs:/", "my:", "prf:", "as:did:key:"]), wall(rng)), &wall(rng), json!([{(wall(rng)): wall(rng)}])),
        "unicode" => one(rng.pick(&["fs:/é", "fs:/\u{1F600}", "\u{202e}fs:/", "fs:/a\u{301}", "é:/"]), rng.pick(&["é", "fs/réad"]), json!([{"é": "\u{0}"}])),
        "blank" => one(rng.pick(&["", " ", ":", "::", "fs", "*"]), rng.pick(&["", " ", "fs/read"]), json!([{}])),
        "emptylist" => one("fs:/", "fs/read", json!([])),
        "manycav" => one("fs:/", "fs/read", json!((0..200).map(|i| json!({ "k": i })).collect::<Vec<_>>())),
        "deepcav" => one("fs:/", "fs/read", json!([{"a": deep(100)}, {"a": deep(101)}])),
        "slash" => one("fs:/", "fs/read", json!([{"/": rng.pick(&[json!("bafkqaaa"), json!({"bytes": "AA"}), json!("x"), json!(1), json!({"bytes": 1})])}])),
        "long" => one(&format!("fs:/{}", "a/".repeat(5000)), &"x".repeat(10000), json!([{"k": "v".repeat(10000)}])),
        "percent" => one(rng.pick(&["fs:/%", "fs:/%zz", "fs:/%00", "fs:/..", "fs:/../..", "fs:/a//b", "fs:/%2e%2e", "fs:///", "fs://u:p@h:99999/", "fs:\\", "fs:/\u{0}"]), "fs/read", json!([{}])),
        _ => json!({"fs:/a": {"fs/read": [{}, {"x": 1}], "fs/admin": [{}]}, "mb:m": {"mb/send": [{}]}}),
    }
}

fn token_text(w: &World, sh: &Value, rng: &mut Rng) -> String {
    let who = match s(sh, "iss") {
        "rsa" => ISSUERS[1],
        "p256" => ISSUERS[2],
        _ => ISSUERS[0],
    };
    let key = principal_key(who.0, who.1);
    let iss = match s(sh, "iss") {
        "badkey" => {
            let m = *rng.pick(&["ed", "rsa", "p256"]);
            let f = format!("d{}", 1 + rng.below(12));
            did_text(&json!({"pre": "did:key:z", "body": "b58", "magic": m, "key": f}), rng)
        }
        "nodid" => "nobody".into(),
        "empty" => "".into(),
        "web" => "did:web:example.com".into(),
        "unicode" if rng.chance(50) => format!("{}{}", rng.pick(&["", "did:", "did:key:", "did:key:z"]), wall(rng)),
        "unicode" => rng.pick(&["did:key:zé", "did:key:z\u{1F600}", "é", "did:key:\u{0}"]).to_string(),
        "short" => rng.pick(&["did:key:z", "did:key:z1", "did:key:z2", "did:key:z11", "did:key:z6", "did:key:zUC"]).to_string(),
        _ => key.did(),
    };
    let alg = match s(sh, "alg") {
        "other" => rng.pick(&["RS256", "ES256", "EdDSA", "ES512"]).to_string(),
        "none" => "none".into(),
        "empty" => "".into(),
        "unicode" => if rng.chance(50) { wall(rng) } else { "é\u{0}".into() },
        "long" => "x".repeat(10000),
        _ => key.alg().into(),
    };
    let mut p = json!({"ucv":"0.10.0-canary","iss":iss,"aud":"did:web:x","exp":null,"cap":cap_map(s(sh, "cap"), rng)});
    let now = real_now();
    let (nbf, exp) = match s(sh, "time") {
        "zero" => (json!(0), json!(0)),
        "max" => (json!(u64::MAX), json!(u64::MAX)),
        "past" => (json!(null), json!(1)),
        "crossed" => (json!(u64::MAX), json!(0)),
        "future" => (json!(now + 1_000_000), json!(null)),
        "imax" => (json!(i64::MAX), json!(i64::MAX as u64 + 1)),
        _ => (json!(null), json!(null)),
    };
    p["nbf"] = nbf;
    p["exp"] = exp;
    let proof = |form: &str, rng: &mut Rng| w.cid_text(form, rng);
    p["prf"] = match s(sh, "prf") {
        "none" => json!(null),
        "empty" => json!([]),
        "many" => json!(vec![w.proof_cid.clone(); 60]),
        "twice" => json!([w.proof_cid, w.proof_cid]),
        // the proof addressed to the issuer at hand
        "good" => json!([block_on(async { w.store.clone().write_token(&{
            let b = principal_key("B", "ed");
            let q = json!({"ucv":"0.10.0-canary","iss":b.did(),"aud":iss,"exp":null,"cap":{"fs:/":{"fs/admin":[{}]}}});
            mint(&json!({"alg":"EdDSA","typ":"JWT"}), &q, "canon", &b, "self", "intact", "", rng)
        }).await }).map(|c| c.to_string()).unwrap_or_default()]),
        f => json!([proof(f, rng)]),
    };
    p["fct"] = match s(sh, "fct") {
        "flat" => json!({"a": "b"}),
        "deep" => json!({"a": deep(*rng.pick(&[60, 100, 120]))}),
        "wide" => json!({"a": (0..20000).collect::<Vec<_>>()}),
        "slash" => json!({"/": rng.pick(&[json!("x"), json!({"bytes": "!"}), json!({"bytes": "AA"}), json!("bafkqaaa"), json!(null)]), "b": {"/": {"bytes": "AAAA"}}}),
        "numbers" => serde_json::from_str(r#"{"a":[18446744073709551615,-9223372036854775808,18446744073709551616,1e308,-0.0,5e-324,0.1]}"#).unwrap(),
        "nul" => json!({"\u{0}": "\u{0}\u{ffff}\u{10ffff}"}),
        _ => json!(null),
    };
    let mut h = json!({"alg": alg, "typ": "JWT"}).to_string();
    let mut p = p.to_string();
    let n = *rng.pick(&[130, 1000, 100_000]);
    let brackets = format!("{}1{}", "[".repeat(n), if rng.chance(70) { "]".repeat(n) } else { String::new() });
    if s(sh, "fct") == "deeper" {
        p = p.replacen("\"fct\":null", &format!("\"fct\":{{\"a\":{brackets}}}"), 1);
    }
    match s(sh, "frame") {
        "hdrdeep" => h = rng.pick(&[format!("{{\"alg\":{brackets}}}"), brackets.clone(), format!("{{\"x\":{brackets},\"alg\":\"EdDSA\",\"typ\":\"JWT\"}}")]).clone(),
        "hdrdup" => h = h.replacen('{', "{\"alg\":1,\"alg\":\"EdDSA\",", 1),
        _ => {}
    }
    let (hb, pb) = (b64(&h), if s(sh, "frame") == "notutf8" { b64([p.as_bytes(), &[0xff, 0xc0]].concat()) } else { b64(&p) });
    let data = format!("{hb}.{pb}");
    let sig = sig_bytes(s(sh, "sig"), key.sign(data.as_bytes()), rng);
    let all = format!("{data}.{}", b64(&sig));
    match s(sh, "frame") {
        "cut" => all[..rng.below(all.len())].to_string(),
        "unicode" => {
            let k = rng.below(all.len());
            format!("{}{}{}", &all[..k], rng.pick(&["é", "\u{1F600}", "\u{2e}\u{301}", "．"]), &all[k..])
        }
        // characters of several bytes, so that hardly any place is between two of them
        "wall" => {
            let mut parts = [hb.clone(), pb.clone(), b64(&sig)];
            let w = wall(rng);
            match rng.below(8) {
                0 => return w,
                k @ 1..=3 => parts[k - 1] = w,
                4 => parts[0] = b64(json!({"alg": w, "typ": w}).to_string()),
                5 => parts[0] = b64(&w),
                6 => parts[1] = b64(&w),
                _ => {
                    let k = rng.below(3);
                    let at = rng.below(parts[k].len().min(5) + 1).min(parts[k].len());
                    parts[k].insert_str(at, &w);
                }
            }
            parts.join(".")
        }
        "nul" => format!("{all}\0"),
        "dots" => rng.pick(&[all.clone() + ".", all.replace('.', ".."), ".".repeat(100_000), format!(".{all}"), format!("{all}.{all}")]).clone(),
        "nodots" => all.replace('.', ""),
        "padded" => all.replace('.', "=.") + "==",
        "huge" => format!("{data}.{}", "A".repeat(1 << 20)),
        "empty" => String::new(),
        _ => all,
    }
}

fn cbor_bytes(w: &World, sh: &Value, rng: &mut Rng) -> Vec<u8> {
    let key = principal_key("A", "ed");
    let aud = key.did();
    let base = match s(sh, "base") {
        "nulls" => json!({"ucv":"","iss":key.did(),"aud":"did:web:","exp":null,"cap":{}}),
        "full" => json!({"ucv":"0.10.0-canary","iss":key.did(),"aud":aud,"exp":u64::MAX,"nbf":0,"nnc":"n","fct":{"a":[1,null,{"b":2.5}]},"prf":[w.proof_cid,w.chain_cid],
            "cap":cap_map("good", rng)}),
        _ => json!({"ucv":"0.10.0-canary","iss":key.did(),"aud":aud,"exp":null,"cap":cap_map("good", rng),"prf":[w.proof_cid]}),
    };
    let text = mint(&json!({"alg":"EdDSA","typ":"JWT"}), &base, "canon", &key, "self", "intact", "", rng);
    let u = Ucan::try_from(text).unwrap_or_else(|e| panic!("harness: {e}"));
    let i = UcanIpld::try_from(&u).unwrap_or_else(|e| panic!("harness: {e}"));
    let mut v = serde_ipld_dagcbor::to_vec(&i).unwrap_or_else(|e| panic!("harness: {e}"));
    let Ok(Ipld::Map(map)) = serde_ipld_dagcbor::from_slice::<Ipld>(&v) else { panic!("harness: no map") };
    let with = |k: &str, x: Ipld| {
        let mut m = map.clone();
        m.insert(k.into(), x);
        serde_ipld_dagcbor::to_vec(&Ipld::Map(m)).unwrap_or_else(|e| panic!("harness: {e}"))
    };
    let bytes = |b: Vec<u8>| Ipld::List(b.into_iter().map(|x| Ipld::Integer(x as i128)).collect());
    let any = |rng: &mut Rng| -> Ipld {
        let n = *rng.pick(&[0usize, 1, 2, 100]);
        let b = rng.bytes(n);
        [Ipld::Null, Ipld::Bool(true), Ipld::Integer(-1), Ipld::Integer(u64::MAX as i128), Ipld::Float(0.5), Ipld::String("x".into()), Ipld::Bytes(b.clone()),
            Ipld::List(vec![]), Ipld::List(vec![Ipld::Null]), Ipld::Map(Default::default()), Ipld::List(vec![Ipld::Integer(256)]), Ipld::List(vec![Ipld::Integer(-1)]),
            Ipld::Link(Cid::from_str(&w.proof_cid).unwrap())][rng.below(13)].clone()
    };
    let fields = ["v", "iss", "aud", "s", "cap", "prf", "exp", "fct", "nnc", "nbf"];
    let k = rng.below(v.len());
    match s(sh, "edit") {
        "none" => v,
        "flip" => { for _ in 0..1 + rng.below(3) { let k = rng.below(v.len()); v[k] ^= 1 << rng.below(8); } v }
        "cut" => v[..k].to_vec(),
        "append" => { v.extend(rng.bytes(3)); v }
        "type" => { let f = *rng.pick(&fields); let x = any(rng); with(f, x) }
        // claims about lengths
        "length" => { v[k] = *rng.pick(&[0x5b, 0x7b, 0x9b, 0xbb, 0x5a, 0x9a, 0x9f, 0xbf, 0x5f, 0x7f, 0xff]); v }
        "tag" => { v.insert(k, *rng.pick(&[0xc0, 0xd8, 0xdb, 0xd9])); v }
        "deep" => { let n = *rng.pick(&[100, 1000, 100_000]); [vec![*rng.pick(&[0x81u8, 0xd8, 0xc1]); n], vec![0]].concat() }
        "empty" => vec![],
        "rand" => { let n = rng.below(200); rng.bytes(n) }
        "cid" => with("prf", Ipld::List(vec![rng.pick(&[Ipld::Bytes(vec![0]), Ipld::String("x".into()), Ipld::Link(Cid::new_v0(*Cid::from_str("QmdfTbBqBPQ7VNxZEYEj14VmRuZBkqFbiwReogJgS1zR1n").unwrap().hash()).unwrap()), Ipld::Link(Cid::new_v1(u64::MAX, Multihash::wrap(u64::MAX, &[]).unwrap()))]).clone(); 2])),
        "sig" => { let b = varsig(&json!({"code": rng.pick(&["EdDSA", "bls", "max", "overlong", "cut"]), "len": rng.pick(&["plus1", "max", "cut", "zero"]), "body": "1"}), rng); with("s", bytes(b)) }
        "prin" => {
            let b = rng.pick(&[&[][..], &[0x9d], &[0x9d, 0x1a], &[0x9d, 0x1a, 0xff], &[0x9d, 0x1a, 0x00], &[0x9d, 0x1a, b'k', b'e', b'y', b':', b'z'], &[0; 5], &[0xed], &[0xff; 40], &[0x9d, 0x1a, 0xc3, 0x28]]).to_vec();
            with(rng.pick(&["iss", "aud"]), bytes(b))
        }
        "cap" => { let x = rng.pick(&[json!({"x": {}}), json!({"x": {"y": [1]}}), json!({"x": {"y": {}}}), json!([]), json!({"": {"": []}}), json!({"x": {"y": [null]}})]).clone(); with("cap", to_ipld(x).unwrap_or(Ipld::Null)) }
        "time" => { let x = [Ipld::Integer(-1), Ipld::Integer(u64::MAX as i128), Ipld::Float(1.0), Ipld::Float(f64::MAX)][rng.below(4)].clone(); with(rng.pick(&["exp", "nbf"]), x) }
        "text" => { let at = v.iter().position(|c| *c == b'E' || *c == b'0' || *c == b'v').unwrap_or(0); v[at] = *rng.pick(&[0x80, 0xff, 0xc3]); v }
        "keydup" => { v[0] += 1; v.extend([0x61, b'v', 0x60]); v }
        "float" => { v.splice(k..k, [*rng.pick(&[0xf9, 0xfa, 0xfb]), 0x7e, 0, 0, 0, 0, 0, 0, 0]); v }
        _ => { v[k] = 0xf7; v }
    }
}

fn varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    while n >= 0x80 {
        v.push(n as u8 | 0x80);
        n >>= 7;
    }
    v.push(n as u8);
    v
}

fn varsig(sh: &Value, rng: &mut Rng) -> Vec<u8> {
    let body = match s(sh, "body") {
        "0" => vec![],
        "1" => vec![0],
        "ff" => vec![0xff; 64],
        "256" => rng.bytes(256),
        "70000" => rng.bytes(70000),
        _ => rng.bytes(64),
    };
    let code = match s(sh, "code") {
        "EdDSA" => varint(VarsigPrefix::EdDSA.into()),
        "RS256" => varint(VarsigPrefix::RS256.into()),
        "ES256" => varint(VarsigPrefix::ES256.into()),
        "ES384" => varint(VarsigPrefix::ES384.into()),
        "ES512" => varint(VarsigPrefix::ES512.into()),
        "ES256K" => varint(VarsigPrefix::ES256K.into()),
        "bls" => varint(VarsigPrefix::BLS12381G1.into()),
        "eip" => varint(VarsigPrefix::EIP191.into()),
        "nonstd" => varint(VarsigPrefix::NonStandard.into()),
        "zero" => vec![0],
        "max" => varint(u64::MAX),
        "overlong" => rng.pick(&[vec![0x80; 10], vec![0xff; 11], vec![0xed, 0x81, 0x00], vec![0x80, 0x00], [vec![0xff; 9], vec![0x7f]].concat()]).clone(),
        "cut" => return rng.pick(&[vec![0xed], vec![0xed, 0xa1], vec![0x80], vec![0xff; 9]]).clone(),
        _ => return vec![],
    };
    let n = body.len() as u64;
    let len = match s(sh, "len") {
        "zero" => vec![0],
        "less" => varint(n.saturating_sub(1)),
        "plus1" => varint(n + 1),
        "more" => varint(*rng.pick(&[n + 100, 1 << 32, 1 << 40, 1 << 62])),
        "max" => varint(*rng.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, u64::MAX - 63])),
        "overlong" => rng.pick(&[vec![0x80; 10], vec![0xff; 11], vec![0xc0, 0x80, 0x00], [vec![0xff; 9], vec![0x7f]].concat()]).clone(),
        "cut" => return [code, vec![0xc0]].concat(),
        "none" => return code,
        _ => varint(n),
    };
    [code, len, body].concat()
}

fn json_value(form: &str, rng: &mut Rng) -> Value {
    match form {
        "null" => json!(null),
        "text" => json!("x"),
        "number" => json!(*rng.pick(&[0u64, u64::MAX])),
        "list" => json!([{}, null]),
        "empty" => json!({}),
        "reslist" => json!({"fs:/": [{"fs/read": [{}]}]}),
        "abnull" => json!({"fs:/": null}),
        "abtext" => json!({"fs:/": "fs/read"}),
        "cavnull" => json!({"fs:/": {"fs/read": rng.pick(&[json!(null), json!([null])])}}),
        "cavtext" => json!({"fs:/": {"fs/read": rng.pick(&[json!("x"), json!(["x"]), json!([1]), json!([[]])])}}),
        "cavmap" => json!({"fs:/": {"fs/read": {}}}),
        "emptyab" => json!({"fs:/": {}}),
        "emptycav" => json!({"fs:/": {"fs/read": []}}),
        "deep" => json!({"fs:/": {"fs/read": [{"a": deep(*rng.pick(&[50, 120, 2000]))}]}}),
        "wide" => json!({"fs:/": {"fs/read": vec![json!({"k": "v"}); 3000]}}),
        "mixed" => json!({"fs:/": {"fs/read": [{}, 1]}, "": {"": [{}]}}),
        "unicode" => cap_map("unicode", rng),
        "slash" => cap_map("slash", rng),
        _ => cap_map("good", rng),
    }
}

fn make(w: &World, src: &str, sh: &Value, rng: &mut Rng) -> Val {
    match src {
        "did" => Val::Did(did_text(sh, rng)),
        "keybytes" => Val::KeyBytes(s(sh, "alg").into(), key_bytes(s(sh, "alg"), s(sh, "key"), rng)),
        "text" => Val::Text(token_text(w, sh, rng)),
        "cbor" => Val::Cbor(cbor_bytes(w, sh, rng)),
        "varsig" => Val::Varsig(Signature(varsig(sh, rng))),
        "cid" => Val::Cid(w.cid_text(s(sh, "form"), rng)),
        "capability" => {
            let r = match s(sh, "res") {
                "wild" => "fs:*".to_string(),
                "star" => rng.pick(&["*", "*:*", "fs:**"]).to_string(),
                "my" => rng.pick(&["my:fs:/a", "my:mb:x", "my:"]).to_string(),
                "mystar" => "my:*".into(),
                "as" => format!("as:{}:fs:/a", Key::ed("x").did()),
                "asstar" => "as:did:key:z6Mk:*".into(),
                "asnokey" => rng.pick(&["as:did", "as:did:web:x:*", "as:", "as:did:key"]).to_string(),
                "asdots" => rng.pick(&["as:did:key:", "as:did:key::", "as:did:key:::*", "as:::"]).to_string(),
                "asblank" => rng.pick(&["as:did:key:z6Mk: ", "as:did:key: :*", "as:did:key:z6Mk:"]).to_string(),
                "prf" => "prf:0".into(),
                "prfstar" => "prf:*".into(),
                "prfhuge" => cap_map("prfhuge", rng).as_object().unwrap().keys().next().unwrap().clone(),
                "blank" => "".into(),
                "nourl" => rng.pick(&["fs", "/", "//", "[", "fs:[", "1fs:/", "fs://[::1", "fs://a:b"]).to_string(),
                "colons" => ":".repeat(1 + rng.below(50)),
                "host" => rng.pick(&["fs://", "fs://u:p@h:80/?q#f", "fs://é/", "http://", "http://[::]:99999", "file:///c:"]).to_string(),
                "nested" => rng.pick(&["my:my:my:*", "as:did:key:z:as:did:key:z:fs:/", "my:as:did:key:z:fs:/a", "as:did:key:z:my:fs:/a"]).to_string(),
                "mixed" => (0..1 + rng.below(8)).map(|_| *rng.pick(&["my", "as", ":", "*", "did", "key", "/", "?", "#", "é", "%", "fs", "prf", "0", " ", "@", "\\", "\n", "."])).collect(),
                f @ ("unicode" | "long" | "percent") => cap_map(f, rng).as_object().unwrap().keys().next().unwrap().clone(),
                _ => "fs:/a/b".into(),
            };
            let a = match s(sh, "abil") {
                "star" => "*".into(),
                "blank" => "".into(),
                "delegate" => "ucan/DELEGATE".into(),
                "unicode" => if rng.chance(50) { wall(rng) } else { "é\u{301}".into() },
                "long" => "a".repeat(100_000),
                "nul" => "\0".into(),
                _ => rng.pick(&["fs/read", "mb/send", "fs/admin"]).to_string(),
            };
            let c = match s(sh, "cav") {
                "empty" => json!({}),
                "some" => json!({"a": 1}),
                "null" | "none" => json!(null),
                "list" => json!([{}]),
                "text" => json!("x"),
                "number" => json!(1.5),
                "deep" => json!({"a": deep(2000)}),
                _ => json!({"/": {"bytes": "!"}}),
            };
            Val::Capability(r, a, c)
        }
        "json" => Val::Json(json_value(s(sh, "form"), rng)),
        "request" => Val::Request(sh.clone()),
        "name" => Val::Name(match s(sh, "form") {
            "empty" => "".into(),
            "unicode" => if rng.chance(50) { wall(rng) } else { "ＥdDSA".into() },
            "long" => "E".repeat(100_000),
            "null" => "\0".into(),
            "number" => rng.next().to_string(),
            f => f.into(),
        }),
        other => panic!("harness: unknown source {other}"),
    }
}

fn reduce_all(c: &ProofChain) {
    let a = c.reduce_capabilities(&FsSem);
    let b = c.reduce_capabilities(&MbSem);
    let p = c.reduce_capabilities(&ProofDelegationSemantics {});
    let _ = format!("{a:?}{b:?}{p:?}");
    for x in &a {
        for y in &a {
            let _ = x.capability.enables(&y.capability);
        }
    }
}

fn give<T: Into<Capability> + Clone>(iss: &K, aud: &str, caps: &[T]) -> anyhow::Result<Ucan> {
    block_on(async { UcanBuilder::default().issued_by(iss).for_audience(aud).claiming_capabilities(caps).build()?.sign().await })
}

fn request(w: &World, sh: &Value, rng: &mut Rng) -> anyhow::Result<Ucan> {
    let a = principal_key("A", "ed");
    let key: K = Arc::new(match s(sh, "key") {
        "public" => a.material(false),
        "nodid" => Box::new(NoKey { did: false }),
        "badsign" => Box::new(NoKey { did: true }),
        _ => a.material(true),
    });
    let mut b = UcanBuilder::default();
    if s(sh, "key") != "none" {
        b = b.issued_by(&key);
    }
    match s(sh, "aud") {
        "none" => {}
        "blank" => b = b.for_audience(""),
        "unicode" => b = b.for_audience(&if rng.chance(50) { wall(rng) } else { "é\u{0}".into() }),
        "long" => b = b.for_audience(&"x".repeat(100_000)),
        _ => b = b.for_audience(&principal_key("B", "ed").did()),
    }
    match s(sh, "life") {
        "zero" => b = b.with_lifetime(0),
        "max" => b = b.with_lifetime(u64::MAX),
        "nearmax" => b = b.with_lifetime(u64::MAX - real_now() + rng.below(3) as u64),
        "exp" => b = b.with_expiration(1),
        "expmax" => b = b.with_expiration(u64::MAX),
        "both" => b = b.with_lifetime(u64::MAX).with_expiration(0),
        _ => {}
    }
    match s(sh, "nbf") {
        "zero" => b = b.not_before(0),
        "max" => b = b.not_before(u64::MAX),
        _ => {}
    }
    b = match s(sh, "fct") {
        "null" => b.with_fact("a", json!(null)),
        "deep" => b.with_fact("a", deep(*rng.pick(&[100, 2000]))),
        "nan" => b.with_fact("a", *rng.pick(&[f64::NAN, f64::INFINITY, -0.0])),
        "slash" => b.with_fact("/", json!({"bytes": "!"})),
        "bytes" => b.with_fact("a", vec![0u8, 255]),
        "map" => b.with_fact("a", std::collections::BTreeMap::from([(1u8, "x".to_string())])),
        "fails" => b.with_fact("a", Fails),
        "wide" => b.with_fact("a", (0..20000).collect::<Vec<u32>>()),
        _ => b,
    };
    let cap = |c: Value| Capability::new("fs:/".into(), "fs/read".into(), c);
    b = match s(sh, "cap") {
        "good" => b.claiming_capability(cap(json!({}))),
        "null" => b.claiming_capability(cap(json!(null))),
        "text" => b.claiming_capability(cap(json!("x"))),
        "list" => b.claiming_capability(cap(json!([]))),
        "number" => b.claiming_capability(cap(json!(0))),
        "deep" => b.claiming_capability(cap(json!({"a": deep(*rng.pick(&[100, 2000]))}))),
        "slash" => b.claiming_capability(cap(json!({"/": "x"}))),
        _ => b,
    };
    let broken = Ucan::new(
        UcanHeader { alg: "x".into(), typ: "".into() },
        UcanPayload { ucv: "".into(), iss: "".into(), aud: "".into(), exp: None, nbf: None, nnc: None, cap: Capabilities::try_from(vec![])?, fct: None, prf: None },
        vec![0xff, 0xfe],
        vec![],
    );
    let hash = if rng.chance(30) { None } else { Some(rng.pick(&HASHES).1) };
    b = match s(sh, "prf") {
        "good" => b.witnessed_by(&w.proof, hash),
        "foreign" => b.witnessed_by(&give(&key, "x", &[cap(json!({}))])?, hash),
        "delegate" => b.delegating_from(&w.proof, hash),
        "many" => (0..60).fold(b, |b, _| b.delegating_from(&w.proof, hash)),
        "broken" => b.witnessed_by(&broken, hash).delegating_from(&broken, hash),
        _ => b,
    };
    block_on(async { b.with_nonce().build()?.sign().await })
}

fn call(w: &mut World, o: &str, v: &Val, rng: &mut Rng) -> anyhow::Result<Val> {
    let a: K = Arc::new(principal_key("A", "ed").material(true));
    let none = Ok(Val::Dead);
    let now = *rng.pick(&[None, Some(0), Some(1), Some(u64::MAX), Some(i64::MAX as u64)]);
    Ok(match (o, v) {
        ("parse", Val::Text(t)) => {
            let _ = Ucan::try_from(t.clone());
            Val::Token(Ucan::from_str(t)?)
        }
        ("chaintext", Val::Text(t)) => Val::Chain(block_on(ProofChain::try_from_token_string(t, now, &mut w.parser, &w.store))?),
        ("put", Val::Text(t)) => Val::Cid(block_on(w.store.write_token(t))?.to_string()),
        ("validate", Val::Token(u)) => {
            let r = [None, Some(0), Some(u64::MAX)].map(|t| block_on(u.validate(t, &mut w.parser)));
            for x in r {
                x?;
            }
            return none;
        }
        ("check", Val::Token(u)) => {
            block_on(u.check_signature(&mut new_parser()))?;
            block_on(u.check_signature(&mut w.parser))?;
            return none;
        }
        ("encode", Val::Token(u)) => Val::Text(u.encode()?),
        ("tocid", Val::Token(u)) => {
            for (_, c) in HASHES {
                u.to_cid(c)?;
            }
            Val::Cid(u.to_cid(Code::Blake3_256)?.to_string())
        }
        ("window", Val::Token(u)) => {
            for t in [None, Some(0), Some(1), Some(u64::MAX)] {
                u.is_expired(t);
            }
            u.is_too_early();
            for (x, y) in [(u, &w.proof), (&w.proof, u), (u, u)] {
                let _ = (x.lifetime_begins_before(y), x.lifetime_ends_after(y), x.lifetime_encompasses(y));
            }
            return none;
        }
        ("look", Val::Token(u)) => {
            let _ = (accessors(u), format!("{u:?}"), u.clone() == *u, u == &w.proof);
            let t = serde_json::to_string(u)?;
            let _ = serde_json::from_str::<Ucan>(&t)?.encode();
            let _ = serde_json::from_str::<Ucan>(&t.replace("iss", "i"));
            return none;
        }
        ("toipld", Val::Token(u)) => Val::Ipld(UcanIpld::try_from(u)?),
        ("chaintok", Val::Token(u)) => Val::Chain(block_on(ProofChain::from_ucan(u.clone(), now, &mut w.parser, &w.store))?),
        ("delegate", Val::Token(u)) => {
            let b = UcanBuilder::default().issued_by(&a).for_audience(u.issuer()).witnessed_by(u, None).delegating_from(u, Some(Code::Sha2_256));
            Val::Token(block_on(async { b.build()?.sign().await })?)
        }
        ("reduce", Val::Chain(c)) => {
            reduce_all(c);
            return none;
        }
        ("show", Val::Chain(c)) => {
            let _ = (format!("{c:?}"), c.ucan(), c.proofs().iter().map(|p| p.ucan().issuer().len()).sum::<usize>());
            return none;
        }
        ("totoken", Val::Ipld(i)) => Val::Token(Ucan::try_from(i)?),
        ("tocbor", Val::Ipld(i)) => {
            let _ = format!("{i:?}");
            let x: Ipld = to_ipld(i)?;
            let _ = from_ipld::<UcanIpld>(x);
            Val::Cbor(serde_ipld_dagcbor::to_vec(i)?)
        }
        ("fromcbor", Val::Cbor(b)) => {
            let _ = (serde_ipld_dagcbor::from_slice::<Principle>(b), serde_ipld_dagcbor::from_slice::<Signature>(b), serde_ipld_dagcbor::from_slice::<Capabilities>(b));
            // libipld itself believes any length it reads: give it bytes whose lengths are true
            let honest = serde_ipld_dagcbor::from_slice::<serde::de::IgnoredAny>(b).is_ok();
            if let (true, Ok(x)) = (honest, if honest { serde_ipld_dagcbor::from_slice::<Ipld>(b) } else { Ok(Ipld::Null) }) {
                let _ = from_ipld::<UcanIpld>(x);
            }
            Val::Ipld(serde_ipld_dagcbor::from_slice(b)?)
        }
        ("resolve", Val::Did(d)) => {
            let _ = new_parser().parse(d);
            let _ = w.parser.parse(d);
            Val::Key(w.parser.parse(d)?)
        }
        ("prin", Val::Did(d)) => Val::Prin(Principle::from_str(d)?),
        ("address", Val::Did(d)) => Val::Token(give(&a, d, &[Capability::new(format!("as:{d}:fs:/"), "fs/read".into(), json!({}))])?),
        ("asdid", Val::Did(d)) => {
            for t in [format!("as:{d}:*"), format!("as:{d}:fs:/a"), format!("as:{d}"), format!("my:{d}"), d.clone()] {
                if let Some(v) = FsSem.parse(&t, "fs/read", None) {
                    let _ = Capability::from(v);
                }
            }
            return none;
        }
        ("keyshow", Val::Key(k)) => {
            let _ = k.get_jwt_algorithm_name();
            block_on(k.get_did())?;
            return none;
        }
        ("verify", Val::Key(k)) => {
            let good = rng.pick(&[Key::ed("x"), Key::p256("x"), Key::rsa(0)]).sign(b"m");
            let mut r = Ok(());
            for f in ["good", "empty", "one", "short", "long", "zero", "ff", "rand", "rzero", "sbig"] {
                let sig = sig_bytes(f, good.clone(), rng);
                r = r.and(block_on(k.verify(b"m", &sig)));
                let _ = block_on(k.verify(b"", &sig));
            }
            for n in [0, 1, 32, 63, 64, 65, 255, 256, 257, 512, 1024] {
                let sig = rng.bytes(n);
                r = r.and(block_on(k.verify(b"m", &sig)));
            }
            r?;
            return none;
        }
        ("sign", Val::Key(k)) => {
            block_on(k.sign(b"m"))?;
            return none;
        }
        ("issue", Val::Key(k)) => Val::Token(give(k, "did:web:x", &[Capability::new("fs:/".into(), "fs/read".into(), json!({}))])?),
        ("prinshow", Val::Prin(p)) => Val::Did(p.to_string()),
        ("princbor", Val::Prin(p)) => {
            let x: Ipld = to_ipld(p)?;
            let _ = (from_ipld::<Principle>(x)?, format!("{p:?}"));
            Val::Prin(serde_ipld_dagcbor::from_slice(&serde_ipld_dagcbor::to_vec(p)?)?)
        }
        ("mkkey", Val::KeyBytes(alg, b)) => Val::Key(Arc::new(match alg.as_str() {
            "rsa" => bytes_to_rsa_key(b.clone())?,
            "p256" => bytes_to_p256_key(b.clone())?,
            _ => bytes_to_ed25519_key(b.clone())?,
        })),
        ("keydid", Val::KeyBytes(alg, b)) => {
            let m: &[u8] = match alg.as_str() {
                "rsa" => RSA_MAGIC_BYTES,
                "p256" => P256_MAGIC_BYTES,
                _ => ED25519_MAGIC_BYTES,
            };
            Val::Did(format!("did:key:z{}", bs58::encode([m, b].concat()).into_string()))
        }
        ("sigdecode", Val::Varsig(x)) => {
            let _ = format!("{x:?}");
            x.decode()?;
            return none;
        }
        ("sigcbor", Val::Varsig(x)) => Val::Varsig(serde_ipld_dagcbor::from_slice(&serde_ipld_dagcbor::to_vec(x)?)?),
        ("sigtoken", Val::Varsig(x)) => {
            let mut i = UcanIpld::try_from(&w.proof)?;
            i.s = Signature(x.0.clone());
            Val::Token(Ucan::try_from(&i)?)
        }
        ("fetch", Val::Cid(c)) => {
            let c = Cid::try_from(c.as_str())?;
            let _ = (block_on(w.store.read_token(&c)), block_on(w.store.read::<Ipld>(&c)));
            Val::Text(block_on(w.store.require_token(&c))?)
        }
        ("chaincid", Val::Cid(c)) => {
            let c = Cid::try_from(c.as_str())?;
            Val::Chain(block_on(ProofChain::from_cid(&c, now, &mut w.parser, &w.store))?)
        }
        ("cite", Val::Cid(c)) => {
            let k = principal_key("A", "ed");
            let p = json!({"ucv":"0.10.0-canary","iss":k.did(),"aud":"did:web:x","exp":null,"cap":{"prf:*":{"ucan/DELEGATE":[{}]}},"prf":[c, c]});
            Val::Token(Ucan::try_from(mint(&json!({"alg":"EdDSA","typ":"JWT"}), &p, "canon", &k, "self", "intact", "", rng))?)
        }
        ("interpret", Val::Capability(r, ab, c)) => {
            for cav in [Some(c), None] {
                let x = FsSem.parse(r, ab, cav);
                let y = MbSem.parse(r, ab, cav);
                let z = ProofDelegationSemantics {}.parse(r, ab, cav);
                if let Some(x) = &x {
                    let _ = (x.enables(x), x.resource().contains(x.resource()), Capability::from(x), format!("{x:?}"));
                    for t in ["my:*", "fs:/", "as:did:key:z6Mk:*"] {
                        if let Some(o) = FsSem.parse(t, "fs/admin", None) {
                            let _ = (o.enables(x), x.enables(&o));
                        }
                    }
                }
                let _ = (y.map(|y| Capability::from(y)), z.map(|z| Capability::from(z)));
            }
            let _ = FsSem.extract_did(r);
            return none;
        }
        ("claim", Val::Capability(r, ab, c)) => Val::Token(give(&a, "did:web:x", &[Capability::new(r.clone(), ab.clone(), c.clone())])?),
        ("convert", Val::Json(j)) => Val::Caps(Capabilities::try_from(j)?),
        ("deserial", Val::Json(j)) => Val::Caps(serde_json::from_value(j.clone())?),
        ("caveat", Val::Json(j)) => {
            let x = Caveat::try_from(j)?;
            let e = Caveat::try_from(json!({}))?;
            let _ = (x.enables(&x), x.enables(&e), e.enables(&x));
            return none;
        }
        ("fact", Val::Json(j)) => Val::Token(block_on(async { UcanBuilder::default().issued_by(&a).for_audience("x").with_fact("f", j.clone()).build()?.sign().await })?),
        ("list", Val::Caps(c)) => {
            let v: Vec<Capability> = c.iter().collect();
            let _ = (format!("{v:?}"), serde_json::to_string(c)?, Capabilities::try_from(v)?);
            for x in c.iter() {
                let _ = FsSem.parse_capability(&x);
            }
            return none;
        }
        ("grant", Val::Caps(c)) => Val::Token(give(&a, "did:web:x", &c.iter().collect::<Vec<_>>())?),
        ("build", Val::Request(sh)) => Val::Token(request(w, sh, rng)?),
        ("name", Val::Name(t)) => {
            let x = JwtSignatureAlgorithm::from_str(t);
            let y = VarsigPrefix::from_str(t);
            let _ = VarsigPrefix::try_from(t.parse::<u64>().unwrap_or(rng.next() >> rng.below(64)));
            let p = x.map(|x| Signature::try_from((x, [0u8; 3])));
            let _ = y.map(|y| (u64::from(y), format!("{p:?}")));
            return none;
        }
        _ => panic!("harness: {o} does not take this"),
    })
}

pub fn run(scen: &Value, rng: &mut Rng) -> Value {
    let mut w = World::new();
    let mut vals: Vec<Val> = vec![];
    let mut ev = vec![];
    let mut conc = vec![];
    for st in arr(scen, "steps") {
        let o = s(st, "o");
        if o == "make" {
            let v = make(&w, s(st, "src"), &st["shape"], rng);
            conc.push(match &v {
                Val::Did(t) | Val::Text(t) | Val::Cid(t) => json!(t.chars().take(2000).collect::<String>()),
                Val::Cbor(b) | Val::KeyBytes(_, b) | Val::Varsig(Signature(b)) => json!(b64(&b[..b.len().min(1500)])),
                Val::Capability(r, a, _) => json!([r.chars().take(200).collect::<String>(), a.chars().take(100).collect::<String>()]),
                _ => json!(st),
            });
            vals.push(v);
            ev.push(json!({"e":"make","ty":st["src"]}));
            continue;
        }
        let k = n(st, "k") as usize - 1;
        if matches!(vals[k], Val::Dead) {
            ev.push(json!({"e":"call","o":o,"k":k + 1,"res":"skip"}));
            if st["gives"] == true {
                vals.push(Val::Dead);
            }
            continue;
        }
        let r = guard(|| call(&mut w, o, &vals[k], rng));
        if let Some(Err(e)) = &r {
            if e.to_string().starts_with("harness") {
                panic!("{e}");
            }
        }
        ev.push(json!({"e":"call","o":o,"k":k + 1,"res":verdict(&r)}));
        if st["gives"] == true {
            vals.push(match r {
                Some(Ok(v)) => v,
                _ => Val::Dead,
            });
        }
        // a panic may have left a lock or a cache behind
        if matches!(ev.last().unwrap()["res"].as_str(), Some("panic")) {
            break;
        }
    }
    // values of any depth go the way they came
    json!({"ev": ev, "conc": conc})
}
