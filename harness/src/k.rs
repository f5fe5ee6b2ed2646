//! Engine K: DID resolution, and keys signing and verifying.
use crate::{mint::damage, util::*};
use anyhow::anyhow;
use async_trait::async_trait;
use futures::executor::block_on;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;
use ucan::crypto::did::{BytesToKey, DidParser, DidPrefix};
use ucan::crypto::KeyMaterial;
use ucan_key_support::{ed25519::*, p256::*, rsa::*};

/// A key that only remembers what it was made of
struct RecKey(usize, Vec<u8>);
#[async_trait]
impl KeyMaterial for RecKey {
    fn get_jwt_algorithm_name(&self) -> String {
        format!("rec{}", self.0)
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        Ok(b64(&self.1))
    }
    async fn sign(&self, _: &[u8]) -> anyhow::Result<Vec<u8>> {
        Err(anyhow!("no"))
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> anyhow::Result<()> {
        Err(anyhow!("no"))
    }
}
fn rec<const T: usize>(b: Vec<u8>) -> anyhow::Result<Box<dyn KeyMaterial>> {
    // refuses some
    if b.is_empty() || b[0] % 8 == 7 {
        return Err(anyhow!("not one of these"));
    }
    Ok(Box::new(RecKey(T, b)))
}

const TYPES: &[(&str, DidPrefix, Option<BytesToKey>)] = &[
    ("ed", ED25519_MAGIC_BYTES, Some(bytes_to_ed25519_key)),
    ("rsa", RSA_MAGIC_BYTES, Some(bytes_to_rsa_key)),
    ("p256", P256_MAGIC_BYTES, Some(bytes_to_p256_key)),
    ("r1", &[0xea, 0x01], Some(rec::<1>)),
    ("r2", &[0xed, 0x02], Some(rec::<2>)),
    ("r3", &[0x85, 0x01], Some(rec::<3>)),
    ("secp", &[0xe7, 0x01], None),
    ("other", &[0x12, 0x34], None),
];

fn identity(k: &dyn KeyMaterial) -> String {
    format!("{}|{}", k.get_jwt_algorithm_name(), block_on(k.get_did()).unwrap_or("?".into()))
}

fn key_bytes(ty: &str, rng: &mut Rng) -> Vec<u8> {
    let i = rng.below(40);
    match ty {
        "ed" => Key::ed(&format!("k{i}")).public_bytes()[2..].to_vec(),
        "rsa" => Key::rsa(i).public_bytes()[2..].to_vec(),
        "p256" => Key::p256(&format!("k{i}")).public_bytes()[2..].to_vec(),
        _ => {
            let n = *rng.pick(&[1, 2, 32, 33, 33, 100, 300]);
            rng.bytes(n)
        }
    }
}

const B58: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

fn swap_case(b58: &str, rng: &mut Rng) -> Option<String> {
    let cs: Vec<char> = b58.chars().collect();
    let ok: Vec<usize> = (0..cs.len())
        .filter(|i| {
            let c = cs[*i];
            let o = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            o != c && B58.contains(o)
        })
        .collect();
    if ok.is_empty() {
        return None;
    }
    let i = *rng.pick(&ok);
    Some(cs.iter().enumerate().map(|(j, c)| if i != j { *c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect())
}

/// Magic and key bytes for a scenario's DID
fn make_bytes(d: &Value, pool: &[Vec<u8>], rng: &mut Rng) -> Vec<u8> {
    let ty = TYPES.iter().find(|t| t.0 == s(d, "ty")).unwrap();
    let near = pool.get((n(d, "of") - 1).max(0) as usize).cloned().unwrap_or_else(|| vec![1, 2, 3]);
    let own = |b: Vec<u8>| [ty.1.to_vec(), b].concat();
    let mut b = key_bytes(ty.0, rng);
    match s(d, "how") {
        "cut" => {
            b.pop();
            own(b)
        }
        "extend" => {
            b.push(0);
            own(b)
        }
        "flip" => {
            let i = rng.below(b.len());
            b[i] ^= 1 << rng.below(8);
            own(b)
        }
        "empty" => own(vec![]),
        // the key, with more than one prefix, or in another encoding
        "twice" => own([ty.1.to_vec(), b].concat()),
        "inner" => own([rng.pick(TYPES).1.to_vec(), b].concat()),
        "hex" => own(b.iter().map(|x| format!("{x:02x}")).collect::<String>().into_bytes()),
        "base58" => own(format!("z{}", bs58::encode(&b).into_string()).into_bytes()),
        "wrap" => own([vec![b.len() as u8], b].concat()),
        "zeros" => own(vec![0; b.len()]),
        "alt" => match ty.0 {
            "p256" => {
                let Key::P256(k) = Key::p256("k1") else { unreachable!() };
                own(p256::ecdsa::VerifyingKey::from(&k).to_encoded_point(false).as_bytes().to_vec())
            }
            _ => own(rng.bytes(b.len())),
        },
        "case" => {
            let t = bs58::encode(&near).into_string();
            swap_case(&t, rng).and_then(|x| bs58::decode(x).into_vec().ok()).unwrap_or(near)
        }
        "lastbyte" => {
            let mut b = near;
            if let Some(x) = b.last_mut() {
                *x ^= 1;
            }
            b
        }
        "firstbyte" => {
            let mut b = near;
            if let Some(x) = b.get_mut(2) {
                *x ^= 1;
            }
            b
        }
        "longer" => [near, vec![0]].concat(),
        "shorter" => {
            let mut b = near;
            b.pop();
            b
        }
        "retype" => [ty.1.to_vec(), near.get(2..).unwrap_or(&[]).to_vec()].concat(),
        _ => own(b),
    }
}

fn did_text(form: &str, bytes: &[u8], rng: &mut Rng) -> String {
    let b = bs58::encode(bytes).into_string();
    let did = format!("did:key:z{b}");
    match form {
        "noz" => format!("did:key:{}", b.trim_start_matches('z')),
        "upper" => did.to_uppercase(),
        "lead" => format!("{}{did}", rng.pick(&[" ", "\n", "\u{feff}", "x"])),
        "trail" => format!("{did}{}", rng.pick(&[" ", "\n", "\u{0}", "é", "."])),
        "web" => format!("did:{}:z{b}", rng.pick(&["web", "plc", "keys", "KEY", ""])),
        "badchar" => {
            let i = rng.below(b.len() + 1);
            format!("did:key:z{}{}{}", &b[..i], rng.pick(&["0", "O", "I", "l", "+", "_"]), &b[i..])
        }
        "frag" => format!("{did}#{b}"),
        "one" => format!("did:key:z{}", bs58::encode(&bytes[..1.min(bytes.len())]).into_string()),
        "nothing" => rng.pick(&["did:key:z", "did:key:", "did:", "", "z"]).to_string(),
        "multi" => format!("did:key:f{}", bytes.iter().map(|x| format!("{x:02x}")).collect::<String>()),
        "bare" => b,
        "slash" => format!("{did}/{b}"),
        _ => did,
    }
}

pub fn run_dids(scen: &Value, rng: &mut Rng) -> Value {
    let mut raw: Vec<Vec<u8>> = vec![];
    let mut texts = vec![];
    let mut dids = vec![];
    for d in arr(scen, "pool") {
        let b = make_bytes(d, &raw, rng);
        let text = did_text(s(d, "form"), &b, rng);
        // what the text is, whatever it was meant to be
        let read = text.strip_prefix("did:key:z").and_then(|x| bs58::decode(x).into_vec().ok()).filter(|x| x.len() >= 2);
        let (shape, ty, built) = match &read {
            None => ("bad", "none", "none".to_string()),
            Some(x) => {
                let t = TYPES.iter().find(|t| t.1 == &x[..2]);
                let built = t.and_then(|t| t.2).and_then(|f| guard(|| f(x[2..].to_vec()).ok().map(|k| identity(&*k))).flatten());
                ("key", t.map(|t| t.0).unwrap_or("other"), built.unwrap_or("none".into()))
            }
        };
        dids.push(json!({"id": text, "shape": shape, "ty": ty, "built": built}));
        texts.push(text);
        raw.push(b);
    }
    let regs = arr(scen, "regs");
    let mut parsers: Vec<DidParser> = regs
        .iter()
        .map(|r| {
            let mut sl: Vec<(DidPrefix, BytesToKey)> = r
                .as_array()
                .unwrap()
                .iter()
                .filter_map(|x| TYPES.iter().find(|t| t.0 == x.as_str().unwrap()).map(|t| (t.1, t.2.unwrap())))
                .collect();
            if rng.chance(50) {
                sl.reverse();
            }
            DidParser::new(&sl)
        })
        .collect();
    let mut ev = vec![];
    for o in arr(scen, "ops") {
        let (p, d) = (n(o, "p") as usize, n(o, "d") as usize);
        let r = guard(|| parsers[p - 1].parse(&texts[d - 1]).ok().map(|k| identity(&**k)));
        let res = match r {
            None => "panic".to_string(),
            Some(None) => "none".into(),
            Some(Some(x)) => x,
        };
        ev.push(json!({"e":"parse","p":p,"d":d,"res":res}));
    }
    json!({"ev": ev, "dids": dids, "regs": regs, "conc": ""})
}

// ---------------------------------------------------------------- keys
fn key_of(id: &str) -> Key {
    match id {
        x if x.starts_with("rsa") => Key::rsa(x[3..].parse::<usize>().unwrap() - 1),
        x if x.starts_with("p256") => Key::p256(x),
        x => Key::ed(x),
    }
}

enum Did {
    Text(String),
}

enum Do<'a> {
    Did,
    Alg,
    Sign(&'a [u8]),
    Verify(&'a [u8], &'a [u8]),
}
enum Got {
    Text(String),
    Bytes(anyhow::Result<Vec<u8>>),
    Unit(anyhow::Result<()>),
}

/// statically dispatched on whatever holds the key
fn act<K: KeyMaterial>(k: &K, what: &Do) -> Got {
    match what {
        Do::Did => Got::Text(block_on(k.get_did()).unwrap_or("error".into())),
        Do::Alg => Got::Text(k.get_jwt_algorithm_name()),
        Do::Sign(m) => Got::Bytes(block_on(k.sign(m))),
        Do::Verify(m, s) => Got::Unit(block_on(k.verify(m, s))),
    }
}

fn hold<K: KeyMaterial + Clone + 'static>(k: K, via: &str, what: &Do) -> Got {
    match via {
        "box" => {
            let b: Box<dyn KeyMaterial> = Box::new(k);
            act(&b, what)
        }
        "arc" => act(&Arc::new(k), what),
        "arcbox" => {
            let b: Box<dyn KeyMaterial> = Box::new(Arc::new(k));
            act(&Arc::new(b), what)
        }
        "arcarc" => act(&Arc::new(Arc::new(k)), what),
        #[allow(clippy::redundant_clone)]
        "clone" => act(&k.clone(), what),
        _ => act(&k, what),
    }
}

fn with_key(id: &str, via: &str, what: Do) -> Option<Got> {
    let key = key_of(id);
    let bytes = key.public_bytes()[2..].to_vec();
    let private = via != "public";
    guard(|| match via {
        "ctor" => {
            let k = match &key {
                Key::Ed(_) => bytes_to_ed25519_key(bytes),
                Key::Rsa(_) => bytes_to_rsa_key(bytes),
                Key::P256(_) => bytes_to_p256_key(bytes),
            };
            match k {
                Ok(k) => act(&k, &what),
                Err(e) => fail(&what, e),
            }
        }
        "parsed" | "cached" => {
            let Did::Text(did) = match with_key(id, "direct", Do::Did) {
                Some(Got::Text(t)) => Did::Text(t),
                _ => Did::Text("".into()),
            };
            let mut p = new_parser();
            if via == "cached" {
                let _ = p.parse(&did);
                let _ = p.parse(&key_of("ed9").did());
            }
            match p.parse(&did) {
                Ok(k) => act(&k, &what),
                Err(e) => fail(&what, e),
            }
        }
        _ => match &key {
            Key::Ed(k) => hold(Ed25519KeyMaterial(ed25519_zebra::VerificationKey::from(k), private.then_some(*k)), via, &what),
            Key::Rsa(k) => hold(RsaKeyMaterial(rsa::RsaPublicKey::from(&**k), private.then(|| (**k).clone())), via, &what),
            Key::P256(k) => hold(P256KeyMaterial(p256::ecdsa::VerifyingKey::from(k), private.then(|| k.clone())), via, &what),
        },
    })
}

fn fail(what: &Do, e: anyhow::Error) -> Got {
    match what {
        Do::Did | Do::Alg => Got::Text(format!("unresolved: {e}")),
        Do::Sign(_) => Got::Bytes(Err(e)),
        Do::Verify(..) => Got::Unit(Err(e)),
    }
}

fn messages(rng: &mut Rng) -> BTreeMap<&'static str, Vec<u8>> {
    let n = *rng.pick(&[1, 31, 32, 33, 63, 64, 65, 127, 300, 10000]);
    let base = rng.bytes(n);
    let mut flip = base.clone();
    let i = rng.below(flip.len());
    flip[i] ^= 1 << rng.below(8);
    // what trimming, joining or decoding might take off or put on
    let mark = *rng.pick(&[&b"="[..], b"==", b".", b" ", b"\n", b"\r\n", b"\0", b"\x20\x20", b"A", b"\xff", b"\xef\xbb\xbf", b"{}"]);
    let mut v = vec![[&base, mark].concat(), [mark, &base].concat(), base.clone(), flip, [base.clone(), vec![0]].concat(), [vec![0], base.clone()].concat(), base[..base.len() - 1].to_vec(),
                     { use sha2::Digest; sha2::Sha256::digest(&base).to_vec() }];
    if !v.contains(&vec![]) {
        v.push(vec![]);
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    let names = ["m1", "m2", "m3", "m4", "m5"];
    let mut m = BTreeMap::new();
    for x in names {
        m.insert(x, v.remove(rng.below(v.len())));
    }
    // a message and what is nearly it, more often than not
    if rng.chance(60) {
        let y = match rng.below(3) {
            0 => [&m["m1"][..], mark].concat(),
            1 => [mark, &m["m1"][..]].concat(),
            _ => [&m["m1"][..], mark, mark].concat(),
        };
        if !m.values().any(|x| *x == y) {
            m.insert("m2", y);
        }
    }
    m
}

fn text(g: Option<Got>) -> String {
    match g {
        Some(Got::Text(t)) => t,
        _ => "panic".into(),
    }
}

pub fn run_keys(scen: &Value, rng: &mut Rng) -> Value {
    let ms = messages(rng);
    let mut ev = vec![];
    let mut sigs: Vec<Option<(Vec<u8>, String, String)>> = vec![];
    let sign = |k: &str, via: &str, m: &str, ev: &mut Vec<Value>| -> Option<Vec<u8>> {
        let private = !["ctor", "parsed", "cached", "public"].contains(&via);
        let g = with_key(k, via, Do::Sign(&ms[m]));
        let (res, b) = match g {
            Some(Got::Bytes(Ok(b))) => ("ok", Some(b)),
            Some(Got::Bytes(Err(_))) => ("err", None),
            _ => ("panic", None),
        };
        ev.push(json!({"e":"sign","k":k,"via":via,"m":m,"priv":private,"res":res}));
        b
    };
    let verify = |k: &str, via: &str, m: &str, sig: &[u8], sd: Value, ev: &mut Vec<Value>| {
        let res = match with_key(k, via, Do::Verify(&ms[m], sig)) {
            Some(Got::Unit(Ok(()))) => "ok",
            Some(Got::Unit(Err(_))) => "err",
            _ => "panic",
        };
        ev.push(json!({"e":"verify","k":k,"via":via,"m":m,"s":sd,"res":res}));
    };
    if s(scen, "kind") == "verify" {
        let x = &scen["s"];
        if let Some(sig) = sign(s(x, "by"), s(x, "svia"), s(x, "smsg"), &mut ev) {
            let d = damage(&sig, s(x, "raw"), rng);
            let sd = json!({"by": x["by"], "msg": x["smsg"], "raw": x["raw"]});
            verify(s(x, "k"), s(x, "vvia"), s(x, "vmsg"), &d, sd, &mut ev);
        }
    } else {
        for o in arr(scen, "ops") {
            let (k, via) = (s(o, "k"), s(o, "via"));
            match s(o, "o") {
                "did" => ev.push(json!({"e":"did","k":k,"via":via,"did":text(with_key(k, via, Do::Did)),"want":key_of(k).did()})),
                "alg" => ev.push(json!({"e":"alg","k":k,"via":via,"alg":text(with_key(k, via, Do::Alg)),"want":key_of(k).alg()})),
                "sign" => {
                    let b = sign(k, via, s(o, "m"), &mut ev);
                    sigs.push(b.map(|b| (b, k.to_string(), s(o, "m").to_string())));
                }
                _ => {
                    let Some(Some((sig, by, msg))) = sigs.get((n(o, "n") - 1) as usize) else { continue };
                    let d = damage(sig, s(o, "raw"), rng);
                    let sd = json!({"by": by, "msg": msg, "raw": o["raw"]});
                    let k = if k == "own" { by } else { k };
                    let m = if s(o, "m") == "own" { msg } else { s(o, "m") };
                    verify(k, via, m, &d, sd, &mut ev);
                }
            }
        }
    }
    json!({"ev": ev, "conc": ms.iter().map(|(k, v)| (k.to_string(), b64(&v[..v.len().min(100)]))).collect::<BTreeMap<_, _>>()})
}
