//! Shared pieces of the conformance harness: random numbers, keys, panics, tables.
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use p256::ecdsa::signature::Signer;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use ucan::crypto::did::{DidParser, KeyConstructorSlice};
use ucan::crypto::KeyMaterial;
use ucan_key_support::{ed25519::*, p256::*, rsa::*};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Self {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[track_caller]
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: nothing to choose from");
        (self.next() % n as u64) as usize
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// Runs code under test; a panic is an outcome, not an error of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    GUARDED.with(|g| g.set(g.get() - 1));
    r
}
thread_local!(pub static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });

/// "ok" / "err" / "panic"
pub fn verdict<T, E>(r: &Option<Result<T, E>>) -> &'static str {
    match r {
        Some(Ok(_)) => "ok",
        Some(Err(_)) => "err",
        None => "panic",
    }
}
pub fn yesno(r: Option<bool>) -> &'static str {
    match r {
        Some(true) => "yes",
        Some(false) => "no",
        None => "panic",
    }
}

#[derive(Clone)]
pub enum Key {
    Ed(ed25519_zebra::SigningKey),
    Rsa(Box<rsa::RsaPrivateKey>),
    P256(p256::ecdsa::SigningKey),
}

fn seed32(tag: &str) -> [u8; 32] {
    Sha256::digest(tag.as_bytes()).into()
}

const RSA_DER: [&[u8]; 3] = [
    include_bytes!("../fixtures/rsa1.pk8"),
    include_bytes!("../fixtures/rsa2.pk8"),
    include_bytes!("../fixtures/rsa3.pk8"),
];

impl Key {
    pub fn ed(tag: &str) -> Key {
        Key::Ed(ed25519_zebra::SigningKey::from(seed32(tag)))
    }
    pub fn p256(tag: &str) -> Key {
        Key::P256(p256::ecdsa::SigningKey::from_slice(&seed32(tag)).unwrap())
    }
    pub fn rsa(i: usize) -> Key {
        use rsa::pkcs8::DecodePrivateKey;
        Key::Rsa(Box::new(rsa::RsaPrivateKey::from_pkcs8_der(RSA_DER[i % 3]).unwrap()))
    }
    pub fn alg(&self) -> &'static str {
        match self {
            Key::Ed(_) => "EdDSA",
            Key::Rsa(_) => "RS256",
            Key::P256(_) => "ES256",
        }
    }
    /// multicodec-prefixed public key bytes
    pub fn public_bytes(&self) -> Vec<u8> {
        match self {
            Key::Ed(k) => {
                let vk = ed25519_zebra::VerificationKey::from(k);
                [&[0xed, 0x01][..], vk.as_ref()].concat()
            }
            Key::Rsa(k) => {
                use rsa::pkcs1::EncodeRsaPublicKey;
                let pk = rsa::RsaPublicKey::from(&**k);
                [&[0x85, 0x24][..], pk.to_pkcs1_der().unwrap().as_bytes()].concat()
            }
            Key::P256(k) => {
                let vk = p256::ecdsa::VerifyingKey::from(k);
                [&[0x80, 0x24][..], &vk.to_encoded_point(true).to_bytes()].concat()
            }
        }
    }
    pub fn did(&self) -> String {
        format!("did:key:z{}", bs58::encode(self.public_bytes()).into_string())
    }
    /// Signs with the underlying primitive, not through the library under test
    pub fn sign(&self, data: &[u8]) -> Vec<u8> {
        match self {
            Key::Ed(k) => <[u8; 64]>::from(k.sign(data)).to_vec(),
            Key::Rsa(k) => k
                .sign(rsa::Pkcs1v15Sign::new::<Sha256>(), &Sha256::digest(data))
                .unwrap(),
            Key::P256(k) => {
                let s: p256::ecdsa::Signature = k.sign(data);
                s.to_vec()
            }
        }
    }
    /// The library's key material for this key
    pub fn material(&self, private: bool) -> Box<dyn KeyMaterial> {
        match self {
            Key::Ed(k) => Box::new(Ed25519KeyMaterial(
                ed25519_zebra::VerificationKey::from(k),
                private.then_some(*k),
            )),
            Key::Rsa(k) => Box::new(RsaKeyMaterial(
                rsa::RsaPublicKey::from(&**k),
                private.then(|| (**k).clone()),
            )),
            Key::P256(k) => Box::new(P256KeyMaterial(
                p256::ecdsa::VerifyingKey::from(k),
                private.then(|| k.clone()),
            )),
        }
    }
}

/// Key of a principal under a key-type assignment
pub fn principal_key(name: &str, scheme: &str) -> Key {
    thread_local!(static CACHE: RefCell<BTreeMap<(String, String), Key>> = RefCell::new(BTreeMap::new()));
    CACHE.with(|c| {
        c.borrow_mut()
            .entry((name.to_string(), scheme.to_string()))
            .or_insert_with(|| {
                let i = name.bytes().last().unwrap_or(0) as usize;
                match scheme {
                    "mixed" => match i % 5 {
                        0 => Key::ed(name),
                        1 => Key::rsa(i / 5),
                        2 => Key::p256(name),
                        3 => Key::ed(name),
                        _ => Key::p256(name),
                    },
                    "p256" => Key::p256(name),
                    "rsa" => Key::rsa(i),
                    _ => Key::ed(name),
                }
            })
            .clone()
    })
}

pub const ALL_KEYS: &KeyConstructorSlice = &[
    (ED25519_MAGIC_BYTES, bytes_to_ed25519_key),
    (RSA_MAGIC_BYTES, bytes_to_rsa_key),
    (P256_MAGIC_BYTES, bytes_to_p256_key),
];

pub fn new_parser() -> DidParser {
    DidParser::new(ALL_KEYS)
}

pub fn b64(data: impl AsRef<[u8]>) -> String {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(data)
}

/// Every hash function a CID can be asked for under
pub const HASHES: [(&str, Code); 15] = [
    ("blake", Code::Blake3_256), ("sha", Code::Sha2_256), ("sha512", Code::Sha2_512),
    ("sha3-224", Code::Sha3_224), ("sha3-256", Code::Sha3_256), ("sha3-384", Code::Sha3_384), ("sha3-512", Code::Sha3_512),
    ("keccak224", Code::Keccak224), ("keccak256", Code::Keccak256), ("keccak384", Code::Keccak384), ("keccak512", Code::Keccak512),
    ("blake2b256", Code::Blake2b256), ("blake2b512", Code::Blake2b512), ("blake2s128", Code::Blake2s128), ("blake2s256", Code::Blake2s256),
];

pub fn raw_cid(data: &[u8], code: Code) -> Cid {
    Cid::new_v1(0x55, code.digest(data))
}

/// Pairwise distinct JSON values that are easily confused with one another
pub fn value_table() -> Vec<Value> {
    vec![
        json!("v"), json!("V"), json!(null), json!(false), json!(true), json!(0), json!(1), json!(-1),
        json!(""), json!("null"), json!("0"), json!("false"), json!([]), json!({}), json!([null]),
        json!([[]]), json!({"a": null}), json!({"a": {}}), json!({"": ""}), json!(1.5), json!("1"), json!(6.934698245112694e276),
        json!(9007199254740993u64), json!(9007199254740992u64), json!(u64::MAX), json!(i64::MIN),
        json!([1, 2]), json!([2, 1]), json!([1]), json!({"a": 1, "b": 2}), json!({"a": 1}),
        json!({"b": 2}), json!("é"), json!("e\u{301}"), json!("a\u{0}b"), json!("\"\\\n"), json!("*"),
        json!({"a": [ {"b": [null, false, 0, ""]} ]}),
    ]
}

pub fn key_table() -> Vec<&'static str> {
    vec!["x", "y", "X", "", "a.b", "a", "b", "é", "x ", "*", "0", "null", "status", "\"", "ability"]
}

/// A text: awkward, plain or long
pub fn rand_text(rng: &mut Rng) -> String {
    const PARTS: [&str; 40] = [
        "a", "b", "z", "A", "Q", "0", "7", "_", "-", ".", " ", "*", "+", "&", "=", "%", "%2F", "@", "!", "~", "$", "(", ")", "[", "]", "{", "}", "<", "|",
        "\\", "\"", "'", "\n", "é", "ß", "\u{130}", "\u{1F600}", "\u{200b}", "x/y", "did:key:z",
    ];
    let n = match rng.below(20) {
        0 => 0,
        1..=9 => 1 + rng.below(4),
        10..=17 => 1 + rng.below(24),
        18 => 60 + rng.below(300),
        _ => 1000 + rng.below(3000),
    };
    (0..n).map(|_| *rng.pick(&PARTS)).collect()
}

/// A JSON value of limited depth (without floats: not every reader rounds them alike)
pub fn rand_value(rng: &mut Rng, depth: usize) -> Value {
    match rng.below(if depth == 0 { 6 } else { 10 }) {
        0 => rng.pick(&[json!(null), json!(true), json!(false)]).clone(),
        1 => json!(rng.below(300)),
        2 => json!(rng.next() >> rng.below(64)),
        3 => json!(-((rng.next() >> (1 + rng.below(63))) as i64)),
        4 | 5 => json!(rand_text(rng)),
        6 | 7 => Value::Array((0..rng.below(4)).map(|_| rand_value(rng, depth - 1)).collect()),
        _ => rand_object(rng, depth - 1),
    }
}

pub fn rand_object(rng: &mut Rng, depth: usize) -> Value {
    let n = if rng.chance(5) { 10 + rng.below(40) } else { rng.below(5) };
    Value::Object((0..n).map(|_| (rand_key(rng), rand_value(rng, depth))).collect())
}

/// "/" alone has a meaning of its own in DAG-JSON
pub fn rand_key(rng: &mut Rng) -> String {
    let k = if rng.chance(50) { rng.pick(&key_table()).to_string() } else { rand_text(rng) };
    if k == "/" { "//".into() } else { k }
}

pub fn near_text(t: &str, rng: &mut Rng) -> String {
    let chars: Vec<char> = t.chars().collect();
    let at = rng.below(chars.len().max(1));
    let part = |c: &[char]| c.iter().collect::<String>();
    match rng.below(13) {
        0 => t.to_uppercase(),
        1 => t.to_lowercase(),
        2 => format!("{t} "),
        3 => format!(" {t}"),
        4 => t.trim().to_string(),
        5 if !chars.is_empty() => part(&chars[..chars.len() - 1]),
        6 if !chars.is_empty() => part(&chars[1..]),
        7 => format!("{t}{t}"),
        8 => format!("{t}\u{0}"),
        9 if !chars.is_empty() => format!("{}{}", part(&chars[..at]), part(&chars[at + 1..])),
        10 if !chars.is_empty() => format!("{}x{}", part(&chars[..at]), part(&chars[at + 1..])),
        11 => chars.iter().rev().collect(),
        _ => format!("{t}/*"),
    }
}

/// A value that might be taken for `v`, or for including it
pub fn near_value(v: &Value, rng: &mut Rng) -> Value {
    match rng.below(8) {
        0 => return json!([v]),
        1 => return json!([v, rand_value(rng, 0)]),
        2 => return json!(v.to_string()),
        3 => return json!({rand_key(rng): v}),
        _ => {}
    }
    match v {
        Value::Null => rng.pick(&[json!(0), json!(false), json!(""), json!([]), json!({}), json!("null")]).clone(),
        Value::Bool(b) => rng.pick(&[json!(!b), json!(*b as u8), json!(b.to_string()), json!(null)]).clone(),
        Value::Number(x) => match (x.as_u64(), x.as_i64()) {
            (Some(u), _) if rng.chance(60) => json!(*rng.pick(&[u.wrapping_add(1), u.wrapping_sub(1), u & 0xffff_ffff, u ^ (1 << 31), u ^ (1 << 53), u / 10])),
            (_, Some(i)) => json!(i.wrapping_neg()),
            _ => json!(x.to_string()),
        },
        Value::String(t) => match serde_json::from_str::<Value>(t) {
            Ok(w) if !w.is_f64() && rng.chance(50) => w,
            _ => json!(near_text(t, rng)),
        },
        Value::Array(e) => match rng.below(5) {
            0 => Value::Array(e.iter().rev().cloned().collect()),
            1 => Value::Array(e.iter().skip(1).cloned().collect()),
            2 => Value::Array(e.iter().chain([&Value::Null]).cloned().collect()),
            3 if !e.is_empty() => e[rng.below(e.len())].clone(),
            _ => Value::Array(e.iter().map(|x| if rng.chance(50) { x.clone() } else { near_value(x, rng) }).collect()),
        },
        Value::Object(m) => {
            let mut m = m.clone();
            let k = m.keys().nth(rng.below(m.len().max(1))).cloned();
            match (rng.below(3), k) {
                (0, Some(k)) => {
                    m.remove(&k);
                }
                (1, Some(k)) => {
                    let v = near_value(&m[&k], rng);
                    m.insert(k, v);
                }
                _ => {
                    m.insert(rand_key(rng), rand_value(rng, 0));
                }
            }
            Value::Object(m)
        }
    }
}

/// `n` pairwise different ones, often hardly different
pub fn different<T: PartialEq>(n: usize, rng: &mut Rng, fresh: impl Fn(&mut Rng) -> T, near: impl Fn(&T, &mut Rng) -> T) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    while out.len() < n {
        let x = if out.is_empty() || rng.chance(50) { fresh(rng) } else { near(&out[rng.below(out.len())], rng) };
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

pub fn different_values(n: usize, rng: &mut Rng) -> Vec<Value> {
    let fresh = |rng: &mut Rng| if rng.chance(60) { rng.pick(&value_table()).clone() } else { rand_value(rng, 2) };
    different(n, rng, fresh, near_value)
}

pub fn different_keys(n: usize, rng: &mut Rng) -> Vec<String> {
    let near = |k: &String, rng: &mut Rng| Some(near_text(k, rng)).filter(|k| k != "/").unwrap_or_default();
    different(n, rng, rand_key, near)
}

pub fn real_now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
pub fn n(v: &Value, k: &str) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(0)
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[])
}
pub fn unb64(text: &str) -> Option<Vec<u8>> {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(text).ok()
}
