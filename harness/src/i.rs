//! Engine I: IPLD forms of tokens, principals and signatures.
use crate::{json::*, util::*, w::*};
use anyhow::anyhow;
use async_trait::async_trait;
use cid::multihash::Code;
use futures::executor::block_on;
use libipld_core::ipld::Ipld;
use libipld_core::serde::{from_ipld, to_ipld};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha512};
use std::str::FromStr;
use std::sync::Arc;
use ucan::builder::UcanBuilder;
use ucan::capability::Capability;
use ucan::crypto::{JwtSignatureAlgorithm, KeyMaterial};
use ucan::ipld::{Principle, Signature, UcanIpld, VarsigPrefix};
use ucan::Ucan;

type K = Arc<Box<dyn KeyMaterial>>;

/// A key of any algorithm name and signature length
#[derive(Clone)]
struct Custom {
    alg: String,
    did: String,
    len: usize,
}
impl Custom {
    fn make(&self, data: &[u8]) -> Vec<u8> {
        Sha512::digest(data).iter().cycle().take(self.len).cloned().collect()
    }
}
#[async_trait]
impl KeyMaterial for Custom {
    fn get_jwt_algorithm_name(&self) -> String {
        self.alg.clone()
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        Ok(self.did.clone())
    }
    async fn sign(&self, p: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok(self.make(p))
    }
    async fn verify(&self, p: &[u8], s: &[u8]) -> anyhow::Result<()> {
        if s == self.make(p) { Ok(()) } else { Err(anyhow!("no")) }
    }
}

fn lengths(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => *rng.pick(&[0, 1, 2, 126, 127, 128, 129, 130, 255, 256, 257, 384, 511, 512]),
        1 => *rng.pick(&[16382, 16383, 16384, 16385, 20000, 65535, 65536]),
        2 => 64,
        _ => rng.below(700),
    }
}

fn caps_of(m: &ucan::capability::Capabilities) -> String {
    let mut caps = Map::new();
    for (r, abs) in std::ops::Deref::deref(m) {
        caps.insert(r.clone(), Value::Object(abs.iter().map(|(a, cs)| (a.clone(), Value::Array(cs.clone()))).collect()));
    }
    J::from(&Value::Object(caps)).canon()
}

fn canon(v: Value) -> String {
    short(&J::from(&v).canon())
}

fn token_content(u: &Ucan) -> Value {
    let mut c = accessors(u);
    for (_, x) in c.as_object_mut().unwrap() {
        *x = json!(short(x.as_str().unwrap()));
    }
    c["alg"] = json!(u.algorithm());
    c["sig"] = json!(short(&b64(u.signature())));
    c
}

fn ipld_content(p: &UcanIpld) -> Value {
    let (alg, sig) = match p.s.decode() {
        Ok((a, s)) => (a.to_string(), b64(s)),
        Err(_) => ("?".into(), "?".into()),
    };
    json!({
        "alg": alg, "sig": short(&sig), "ucv": canon(json!(p.v)), "iss": canon(json!(p.iss.to_string())), "aud": canon(json!(p.aud.to_string())),
        "exp": canon(json!(p.exp)), "nbf": canon(json!(p.nbf)), "nnc": canon(json!(p.nnc)), "fct": canon(json!(p.fct)),
        "prf": canon(json!(p.prf.as_ref().map(|x| x.iter().map(|c| c.to_string()).collect::<Vec<_>>()))),
        "cap": short(&caps_of(&p.cap)),
    })
}

fn text_content(t: &str) -> Option<Value> {
    let seg: Vec<&str> = t.split('.').collect();
    let (h, _) = read(&unb64(seg.first()?)?)?;
    let (p, _) = read(&unb64(seg.get(1)?)?)?;
    let f = |k: &str| json!(short(&p.get(k).unwrap_or(&J::Null).canon()));
    let J::Str(alg) = h.get("alg")? else { return None };
    Some(json!({"alg": alg, "sig": short(seg.get(2)?), "ucv": f("ucv"), "iss": f("iss"), "aud": f("aud"), "exp": f("exp"), "nbf": f("nbf"),
        "nnc": f("nnc"), "fct": f("fct"), "prf": f("prf"), "cap": f("cap")}))
}

enum Form {
    Token(Ucan),
    Text(String),
    Ipld(UcanIpld),
    Cbor(Vec<u8>),
    Value(Ipld),
}

fn walk(scen: &Value, rng: &mut Rng) -> Value {
    let o = &scen["opt"];
    let real = principal_key(rng.pick(&["A", "B", "C"]), s(o, "key"));
    let custom = Custom {
        alg: rng.pick(&["EdDSA", "RS256", "ES256", "ES384", "ES512", "ES384", "ES256K", "none", "eddsa", ""]).to_string(),
        did: rng.pick(&["did:web:issuer.example", "did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK", "did:x:y"]).to_string(),
        len: lengths(rng),
    };
    let is_custom = s(o, "key") == "custom";
    let k: K = Arc::new(if is_custom { Box::new(custom.clone()) } else { real.material(true) });
    let aud = match s(o, "aud") {
        "key" => principal_key("D", rng.pick(&["ed", "rsa", "p256"])).did(),
        "web" => rng.pick(&["did:web:example.com", "did:ethr:0xabc", "did:plc:a b", "did:web:é.example", "did:ion:x:y:z", "did:web:example.com%3A8080", "did:web:example.com%3a8080:u", "did:web:a%2Fb%C3%A9", "did:key2:z6Mk", "did:KEY:z6Mk",
                             "did:web:example.com#key-1", "did:web:example.com?v=1", "did:web:example.com/path", "did:web:example.com;s=1", "did:web:A%3a80", "did:web:a#", "did:web: a "]).to_string(),
        "odd" => rng.pick(&["did:", "did:key:", "did:key:z", "did:key:abc", "did:key:z0OIl", "did:key:z1111", "did:key:z6Mk", "did:key:z11", "did:key:zé"]).to_string(),
        _ => rng.pick(&["", "key:z6Mk", "DID:web:x", " did:web:x", "mailto:x"]).to_string(),
    };
    let must = match s(o, "aud") {
        "key" | "web" => "yes",
        "odd" => "may",
        _ => "no",
    };
    let pool = 3 + n(o, "prf") as usize * 2 / 3;
    let auth: Vec<Ucan> = (0..pool)
        .map(|_| {
            let c = Custom { alg: "EdDSA".into(), did: format!("did:x:{}", rng.next()), len: 64 };
            let c: K = Arc::new(Box::new(c));
            let u = block_on(async { UcanBuilder::default().issued_by(&c).for_audience("did:x:y").with_nonce().build()?.sign().await });
            u.unwrap_or_else(|e| panic!("harness: no proof: {e}"))
        })
        .collect();
    let obj = |rng: &mut Rng| {
        let mut m = Map::new();
        for _ in 0..rng.below(3) {
            m.insert(rand_key(rng), different_values(1, rng).remove(0));
        }
        Value::Object(m)
    };
    let mut b = UcanBuilder::default().issued_by(&k).for_audience(&aud);
    match s(o, "exp") {
        "exp" => b = b.with_expiration(*rng.pick(&[0, 1, 1_700_000_000, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1])),
        "max" => b = b.with_expiration(u64::MAX),
        _ => {}
    }
    if o["nbf"] == true {
        b = b.not_before(*rng.pick(&[0, 1, u32::MAX as u64 + 1, i64::MAX as u64 + 1, u64::MAX]));
    }
    if o["nnc"] == true {
        b = b.with_nonce();
    }
    if s(o, "fct") != "none" {
        for i in 0..if s(o, "fct") == "lots" { 5 + rng.below(40) } else { 1 + rng.below(3) } {
            if i > 3 {
                b = b.with_fact(&format!("{}{i}", text_of(rng)), json!(i));
            }
            let v = if s(o, "fct") == "flat" { json!(text_of(rng)) } else { different_values(1, rng).remove(0) };
            b = b.with_fact(&rand_key(rng), v);
        }
    }
    for i in 0..n(o, "prf") as usize {
        let h = if rng.chance(30) { None } else { Some(rng.pick(&HASHES).1) };
        let k = if rng.chance(30) { rng.below(pool) } else { i % pool };
        let h = if k != i % pool && rng.chance(60) { None } else { h };
        b = if rng.chance(30) { b.delegating_from(&auth[k], h) } else { b.witnessed_by(&auth[k], h) };
    }
    let many = match s(o, "cap") {
        "none" => 0,
        "one" => 1,
        "lots" => 6 + rng.below(30),
        _ => 2 + rng.below(4),
    };
    for _ in 0..many {
        let r = rng.pick(&["mailto:a@b.c", "my:*", "fs:/x", "", "é", "*"]).to_string();
        let a = rng.pick(&["msg/send", "*", "", "wnfs/append"]).to_string();
        b = b.claiming_capability(Capability::new(r, a, obj(rng)));
    }
    let mut ev = vec![];
    let built = guard(|| block_on(async { b.build()?.sign().await }));
    let res = verdict(&built);
    let Some(Ok(first)) = built else {
        return json!({"ev":[{"e":"token","res":res,"c":{},"text":""}], "conc": {"aud": aud}});
    };
    let text0 = format!("{}.{}", String::from_utf8_lossy(first.signed_data()), b64(first.signature()));
    let ident = |t: &str| format!("{} {}", short(t), raw_cid(t.as_bytes(), Code::Blake3_256));
    let verifies = |u: &Ucan| {
        if is_custom {
            block_on(custom.verify(u.signed_data(), u.signature())).is_ok()
        } else {
            guard(|| block_on(u.check_signature(&mut new_parser()))).is_some_and(|x| x.is_ok())
        }
    };
    ev.push(json!({"e":"token","res":"ok","c":token_content(&first),"text":ident(&text0)}));
    let mut first_ipld: Option<String> = None;
    let mut form = Form::Token(first.clone());
    let moves: Vec<&str> = arr(scen, "path").iter().map(|x| x.as_str().unwrap()).collect();
    for m in moves {
        let r: Option<anyhow::Result<Form>> = guard(|| {
            Ok(match (m, &form) {
                ("encode", Form::Token(u)) => Form::Text(u.encode()?),
                ("parse", Form::Text(t)) => Form::Token(Ucan::from_str(t)?),
                ("toipld", Form::Token(u)) => Form::Ipld(UcanIpld::try_from(u)?),
                ("fromipld", Form::Ipld(p)) => Form::Token(Ucan::try_from(p)?),
                ("tocbor", Form::Ipld(p)) => Form::Cbor(serde_ipld_dagcbor::to_vec(p)?),
                ("fromcbor", Form::Cbor(b)) => Form::Ipld(serde_ipld_dagcbor::from_slice(b)?),
                ("tovalue", Form::Ipld(p)) => Form::Value(to_ipld(p)?),
                ("fromvalue", Form::Value(v)) => Form::Ipld(from_ipld(v.clone())?),
                _ => return Err(anyhow!("harness: skipped")),
            })
        });
        if matches!(&r, Some(Err(e)) if e.to_string().starts_with("harness")) {
            break; // after a refusal the rest of the path is not possible
        }
        let mut e = json!({"e":"move","m":m,"did":must,"res":verdict(&r)});
        if let Some(Ok(f)) = r {
            match &f {
                Form::Token(u) => {
                    let t = guard(|| u.encode().ok()).flatten().unwrap_or("?".into());
                    let own = format!("{}.{}", String::from_utf8_lossy(u.signed_data()), b64(u.signature()));
                    let cid = guard(|| u.to_cid(Code::Blake3_256).ok()).flatten().map(|c| c.to_string()).unwrap_or("?".into());
                    e["c"] = token_content(u);
                    e["text"] = json!(if t == own { format!("{} {}", short(&t), cid) } else { "?".into() });
                    e["verifies"] = json!(verifies(u));
                    e["same"] = json!(if *u == first { "equal" } else { "unequal" });
                }
                Form::Text(t) => {
                    e["c"] = text_content(t).unwrap_or(json!({}));
                    e["text"] = json!(ident(t));
                    e["verifies"] = json!(true);
                }
                Form::Ipld(p) => {
                    let c = guard(|| ipld_content(p)).unwrap_or(json!({}));
                    let d = format!("{p:?}");
                    e["same"] = json!(if *first_ipld.get_or_insert(d.clone()) == d { "equal" } else { "unequal" });
                    e["c"] = c;
                }
                Form::Cbor(b) => e["cbor"] = json!(raw_cid(b, Code::Sha2_256).to_string()),
                Form::Value(_) => {}
            }
            form = f;
        }
        ev.push(e);
    }
    json!({"ev": ev, "conc": {"text": text0, "aud": aud}})
}

fn dids(rng: &mut Rng, k: usize) -> Vec<(String, &'static str)> {
    let mut out: Vec<(String, &'static str)> = vec![];
    let mark = [0x9d, 0x1a];
    let key = |b: &[u8]| format!("did:key:z{}", bs58::encode(b).into_string());
    while out.len() < k {
        let x = match rng.below(15) {
            0 | 1 => (principal_key(&format!("p{}", rng.below(30)), rng.pick(&["ed", "p256"])).did(), "ok"),
            2 => (Key::rsa(rng.below(3)).did(), "ok"),
            3 => {
                let t = rng.pick(&["web", "key2", "keyz", "ke", "plc", "d", "web:a", "KEY", "é"]);
                let u = rng.pick(&["a", "b", "example.com", "é", "x:y", "z6Mk", "%20", " ", "A", "a#", "a/", "a?b", "a;b"]);
                let f = if rng.chance(40) { *rng.pick(&["#", "#k", "?", "?v=1", "/", "/p", ";s", ":", " ", "\u{0}", "\n", "%23"]) } else { "" };
                (format!("did:{t}:{u}{f}"), "ok")
            }
            4 => {
                let len = 1 + rng.below(5);
                (format!("did:web:{}", (0..len).map(|_| *rng.pick(&['a', 'b', 'é', '\u{9d}', ':', 'z'])).collect::<String>()), "ok")
            }
            // key bytes that are, or look like, the other kind of principal
            5 => {
                let len = rng.below(4);
                let tail: Vec<u8> = (0..len).map(|_| *rng.pick(b"ab:w")).collect();
                (key(&[&mark[..], &tail].concat()), "any")
            }
            6 => {
                let tail: &[u8] = *rng.pick(&[&b"web:a"[..], b"web:b", b"web:example.com", b"key:z6Mk", b"key:zab", b"\xff", b"", b"\xc3\xa9"]);
                (key(&[&mark[..], tail].concat()), "any")
            }
            7 => {
                let len = rng.below(4);
                let b: Vec<u8> = (0..len).map(|_| *rng.pick(&[0, 0, 1, 0x9d, 0x1a, 0xed])).collect();
                (key(&b), "any")
            }
            8 => (out.get(rng.below(out.len().max(1))).map(|x: &(String, &str)| x.0.replace("did:key:z", "did:key:")).unwrap_or("did:key:".into()), "any"),
            9 => (rng.pick(&["did:key:z0", "did:key:zé", "did:key:z ", "did:key:zI", "did:key:u6Mk", "did:key:Z6Mk", "did:key:", "did:"]).to_string(), "any"),
            10 => (rng.pick(&["", "did", "DID:web:a", " did:web:a", "key:z6Mk", "web:a", "did;web:a", "\u{feff}did:web:a", "mailto:a"]).to_string(), "err"),
            // a DID of any characters, or one hardly different from an earlier one
            11 => {
                let len = 1 + rng.below(12);
                let alphabet: Vec<char> = "abcXYZ019.-_:%+#/?=&;@!$'()*,[]~ \t\\\"éßK\u{301}\u{1F600}\u{212a}".chars().collect();
                let t: String = (0..len).map(|_| *rng.pick(&alphabet)).collect();
                let esc = (0..rng.below(3)).map(|_| *rng.pick(&["%3A", "%3a", "%C3%A9", "%2F", "%2f", "%", "%25", "%zz", "%00"])).collect::<String>();
                (format!("did:{}:{t}{esc}{}", rng.pick(&["web", "x", "plc"]), rng.pick(&["", "8080", ":user"])), "ok")
            }
            12 if !out.is_empty() => {
                let (d, must) = rng.pick(&out).clone();
                let mut cs: Vec<char> = d.chars().collect();
                if cs.len() < 9 || !d.starts_with("did:") || d.starts_with("did:key:") {
                    continue;
                }
                let i = 8 + rng.below(cs.len() - 8);
                match rng.below(5) {
                    0 => cs[i] = if cs[i].is_ascii_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() },
                    1 => cs.insert(i, cs[i]),
                    2 => {
                        cs.remove(i);
                    }
                    3 => cs.push(*rng.pick(&['/', '#', ' ', '.', ':', '0', '\u{0}'])),
                    _ => cs[i] = *rng.pick(&['a', ':', '%', '+', ' ', 'é', '.']),
                }
                let t: String = cs.iter().collect();
                if t.len() < 9 || t[4..].starts_with("key:") {
                    continue;
                }
                (t, must)
            }
            _ => {
                let b = rng.bytes(3);
                (key(&[&[0, 0][..rng.below(3)], &b].concat()), "any")
            }
        };
        out.push(x);
    }
    out
}

fn principals(scen: &Value, rng: &mut Rng) -> Value {
    let mut ev = vec![];
    for (did, must) in dids(rng, n(scen, "n") as usize) {
        // "did:key:..." without the base58 prefix is another method's text
        let must = if must == "ok" && did.starts_with("did:key:") && !did.starts_with("did:key:z") { "any" } else { must };
        let r = guard(|| Principle::from_str(&did));
        let mut e = json!({"e":"prin","did":did,"must":must,"res":verdict(&r)});
        if let Some(Ok(p)) = r {
            let back = guard(|| p.to_string()).unwrap_or("?".into());
            let cb = guard(|| {
                let b = serde_ipld_dagcbor::to_vec(&p).ok()?;
                Some(serde_ipld_dagcbor::from_slice::<Principle>(&b).ok()?.to_string())
            });
            e["back"] = json!(back);
            e["cborback"] = json!(cb.flatten().unwrap_or("?".into()));
            e["p"] = json!(serde_ipld_dagcbor::to_vec(&p).map(b64).unwrap_or("?".into()));
        }
        ev.push(e);
    }
    json!({"ev": ev})
}

fn varsigs(scen: &Value, rng: &mut Rng) -> Value {
    let mut ev = vec![];
    for _ in 0..n(scen, "n") {
        let alg = *rng.pick(&["EdDSA", "RS256", "ES256", "ES384", "ES512", "EdDSA", "ES256", "ES256K", "BLS12381G1", "none", "eddsa", "ED25519", ""]);
        let len = lengths(rng);
        let mut sig = rng.bytes(len);
        if rng.chance(30) {
            // bytes that look like a prefix or a continued number
            let v = *rng.pick(&[0x80u8, 0xff, 0x00, 0xed]);
            sig.iter_mut().take(4).for_each(|b| *b = v);
        }
        let r = guard(|| -> anyhow::Result<Signature> { Ok(Signature::try_from((JwtSignatureAlgorithm::from_str(alg)?, &sig))?) });
        let mut e = json!({"e":"varsig","alg":alg,"n":len,"res":verdict(&r),"same":false,"n2":-1,"alg2":"?"});
        if let Some(Ok(x)) = r {
            let via = guard(|| {
                let y: Signature = if rng.chance(50) { serde_ipld_dagcbor::from_slice(&serde_ipld_dagcbor::to_vec(&x).ok()?).ok()? } else { Signature(x.0.clone()) };
                y.decode().ok()
            });
            if let Some((a, b)) = via.flatten() {
                e["alg2"] = json!(a.to_string());
                e["n2"] = json!(b.len());
                e["same"] = json!(b == sig);
            }
        }
        ev.push(e);
        // a prefix as such
        let all = [
            VarsigPrefix::NonStandard, VarsigPrefix::ES256K, VarsigPrefix::BLS12381G1, VarsigPrefix::BLS12381G2, VarsigPrefix::EdDSA,
            VarsigPrefix::ES256, VarsigPrefix::ES384, VarsigPrefix::ES512, VarsigPrefix::RS256, VarsigPrefix::EIP191,
        ];
        let i = rng.below(all.len());
        let p = all.into_iter().nth(i).unwrap();
        let name = format!("{p:?}");
        let r = guard(|| VarsigPrefix::try_from(u64::from(p)));
        let back = match &r {
            Some(Ok(q)) => format!("{q:?}"),
            _ => "?".into(),
        };
        ev.push(json!({"e":"prefix","p":name,"res":verdict(&r),"back":back}));
    }
    json!({"ev": ev})
}

pub fn run(scen: &Value, rng: &mut Rng) -> Value {
    match s(scen, "kind") {
        "walk" => walk(scen, rng),
        "prin" => principals(scen, rng),
        "varsig" => varsigs(scen, rng),
        other => panic!("harness: unknown kind {other}"),
    }
}
