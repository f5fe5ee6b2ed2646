//! Engine B: the token builder.
use crate::{mint::*, util::*};
use anyhow::anyhow;
use async_trait::async_trait;
use futures::executor::block_on;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use ucan::builder::{Signable, UcanBuilder};
use ucan::capability::Capability;
use ucan::crypto::KeyMaterial;
use ucan::Ucan;

type K = std::sync::Arc<Box<dyn KeyMaterial>>;

/// A key whose DID cannot be determined
struct NoDid;
#[async_trait]
impl KeyMaterial for NoDid {
    fn get_jwt_algorithm_name(&self) -> String {
        "EdDSA".into()
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        Err(anyhow!("no DID"))
    }
    async fn sign(&self, _: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok(vec![0; 64])
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> anyhow::Result<()> {
        Ok(())
    }
}


struct World {
    auds: BTreeMap<&'static str, String>,
    dids: BTreeMap<&'static str, String>,
    exps: Vec<u64>,
    nbfs: Vec<u64>,
    lives: Vec<u64>,
    facts: BTreeMap<&'static str, Value>,
    fkeys: BTreeMap<&'static str, String>,
    res: BTreeMap<&'static str, String>,
    abs: BTreeMap<&'static str, String>,
    cavs: BTreeMap<&'static str, Value>,
    cids: Vec<(Value, String)>,
}

fn name_of<V: PartialEq>(m: &BTreeMap<&'static str, V>, v: &V) -> String {
    m.iter().find(|(_, x)| *x == v).map(|(k, _)| k.to_string()).unwrap_or("?".into())
}

fn distinct(rng: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    while v.len() < k {
        let i = rng.below(n);
        if !v.contains(&i) {
            v.push(i);
        }
    }
    v
}

impl World {
    fn exp_why(&self, x: Option<u64>, t: (u64, u64)) -> Vec<String> {
        let Some(x) = x else { return vec!["none".into()] };
        let mut v = vec![];
        for (i, e) in self.exps.iter().enumerate() {
            if *e == x {
                v.push(format!("e{}", i + 1));
            }
        }
        for (i, l) in self.lives.iter().enumerate() {
            if t.0.saturating_add(*l) <= x && x <= t.1.saturating_add(*l) {
                v.push(format!("l{}", i + 1));
            }
        }
        v
    }
    fn nbf_why(&self, x: Option<u64>) -> Vec<String> {
        let Some(x) = x else { return vec!["none".into()] };
        self.nbfs.iter().enumerate().filter(|(_, e)| **e == x).map(|(i, _)| format!("n{}", i + 1)).collect()
    }
    fn cap(&self, r: &str, a: &str, c: &Value) -> Value {
        let rn = if r.starts_with("prf:") { r.to_string() } else { name_of(&self.res, &r.to_string()) };
        let an = if a == "ucan/DELEGATE" { a.to_string() } else { name_of(&self.abs, &a.to_string()) };
        let cn = if c == &json!({}) { "{}".to_string() } else { name_of(&self.cavs, c) };
        json!([rn, an, cn])
    }
    fn did(&self, d: &str, m: &BTreeMap<&'static str, String>) -> String {
        name_of(m, &d.to_string())
    }
    fn prf(&self, p: &[String]) -> Vec<Value> {
        p.iter().map(|c| self.cids.iter().find(|(_, x)| x == c).map(|(k, _)| k.clone()).unwrap_or(json!([0, "?"]))).collect()
    }
    fn fact(&self, k: &str, v: &Value) -> Value {
        json!([name_of(&self.fkeys, &k.to_string()), name_of(&self.facts, v)])
    }
    /// what the accessors say
    fn out(&self, u: &Ucan, t: (u64, u64)) -> Value {
        let caps: Vec<Value> = u.capabilities().iter().map(|c| self.cap(&c.resource, &c.ability, &c.caveat)).collect();
        let facts: Vec<Value> = u.facts().iter().flatten().map(|(k, v)| self.fact(k, v)).collect();
        json!({"iss": self.did(u.issuer(), &self.dids), "aud": self.did(u.audience(), &self.auds), "alg": u.algorithm(),
               "exp": self.exp_why(*u.expires_at(), t), "nbf": self.nbf_why(*u.not_before()),
               "facts": facts, "prf": self.prf(u.proofs().as_deref().unwrap_or(&[])), "caps": caps})
    }
    /// what the text says, read without the library
    fn raw(&self, text: &str, t: (u64, u64)) -> Option<Value> {
        let seg = |i: usize| -> Option<Value> { serde_json::from_slice(&unb64(text.split('.').nth(i)?)?).ok() };
        let (h, p) = (seg(0)?, seg(1)?);
        let opt = |k: &str| -> Option<Option<u64>> {
            match p.get(k) {
                None | Some(Value::Null) => Some(None),
                Some(v) => v.as_u64().map(Some),
            }
        };
        let mut caps = vec![];
        for (r, m) in p["cap"].as_object()? {
            for (a, cs) in m.as_object()? {
                for c in cs.as_array()? {
                    caps.push(self.cap(r, a, c));
                }
            }
        }
        let facts: Vec<Value> = match p.get("fct") {
            None | Some(Value::Null) => vec![],
            Some(f) => f.as_object()?.iter().map(|(k, v)| self.fact(k, v)).collect(),
        };
        let prf: Vec<String> = match p.get("prf") {
            None | Some(Value::Null) => vec![],
            Some(f) => f.as_array()?.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(),
        };
        Some(json!({"iss": self.did(p["iss"].as_str()?, &self.dids), "aud": self.did(p["aud"].as_str()?, &self.auds), "alg": h["alg"],
               "exp": self.exp_why(opt("exp")?, t), "nbf": self.nbf_why(opt("nbf")?),
               "facts": facts, "prf": self.prf(&prf), "caps": caps}))
    }
}

fn with_fact<'a>(b: UcanBuilder<'a, K>, key: &str, v: &Value, rng: &mut Rng) -> UcanBuilder<'a, K> {
    match v {
        Value::String(s) if rng.chance(50) => b.with_fact(key, s.clone()),
        Value::Bool(x) if rng.chance(50) => b.with_fact(key, *x),
        Value::Number(n) if n.is_u64() && rng.chance(50) => b.with_fact(key, n.as_u64().unwrap()),
        Value::Number(n) if n.is_i64() && rng.chance(50) => b.with_fact(key, n.as_i64().unwrap()),
        Value::Array(a) if rng.chance(50) => b.with_fact(key, a.clone()),
        Value::Object(m) if rng.chance(50) => {
            // insertion order is not key order
            let m: HashMap<String, Value> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            b.with_fact(key, m)
        }
        Value::Null if rng.chance(50) => b.with_fact(key, Option::<u8>::None),
        v => b.with_fact(key, v.clone()),
    }
}

pub fn run(scen: &Value, rng: &mut Rng) -> Value {
    let scheme = *rng.pick(&["ed", "ed", "ed", "p256", "mixed"]);
    let names = ["A", "B", "C", "D", "E"];
    let mut keys: BTreeMap<&'static str, K> = BTreeMap::new();
    let mut dids = BTreeMap::new();
    let mut algs = BTreeMap::new();
    for x in names {
        let k = principal_key(x, scheme);
        keys.insert(x, K::new(k.material(true)));
        dids.insert(x, k.did());
        algs.insert(x, k.alg());
    }
    keys.insert("F", K::new(Box::new(NoDid)));
    keys.insert("M", K::new(principal_key("A", scheme).material(false)));
    algs.insert("F", "EdDSA");
    algs.insert("M", algs["A"]);
    let mut auds = dids.clone();
    auds.insert("W", rng.pick(&["did:web:example.com", "not a did", "é\n\"", "did:key:z", "DID:KEY:Z"]).to_string());

    // authorities: one per index, each from another source
    let mut auth: Vec<Ucan> = vec![];
    for i in 1..=3 {
        let lay = *rng.pick(&["canon", "pretty", "reorder", "escaped", "extra"]);
        let key = principal_key(names[i], scheme);
        let t = mint(
            &json!({"alg":key.alg(),"typ":"JWT"}),
            &json!({"ucv":"0.10.0-canary","iss":key.did(),"aud":dids["A"],"exp":null,"nnc":format!("{i}"),"cap":{"x:y":{"a/b":[{}]}}}),
            lay, &key, "self", "intact", "", rng,
        );
        auth.push(Ucan::try_from(t.as_str()).unwrap_or_else(|e| panic!("harness: authority refused: {e}")));
    }
    // "sha512" stands for any other hash function
    let hashes = [HASHES[0], HASHES[1], ("sha512", rng.pick(&HASHES[2..]).1)];
    let mut cids = vec![];
    for (i, u) in auth.iter().enumerate() {
        let text = format!("{}.{}", std::str::from_utf8(u.signed_data()).unwrap(), b64(u.signature()));
        for (h, code) in hashes {
            cids.push((json!([i + 1, h]), raw_cid(text.as_bytes(), code).to_string()));
        }
    }
    let now = real_now();
    let times = [0, 1, 59, 60, 1000, now - 100, now, now + 1, now + 100000, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64,
                 i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX];
    let lifes = [0, 1, 30, 3600, 86400 * 365 * 100, u32::MAX as u64, u64::MAX, u64::MAX - now - 1000, u64::MAX - now + 1000, i64::MAX as u64, 5, 100];
    let pick_t = |rng: &mut Rng, t: &[u64]| -> Vec<u64> { distinct(rng, t.len(), 7).into_iter().map(|i| t[i]).collect() };
    let vt = different_values(4, rng);
    let kt = different_keys(3, rng);
    let objs: Vec<Value> = [json!({"draft": true}), json!({"x": null}), json!({"x": {}}), json!({"a": [1, {"b": null}]}), json!({"": ""}),
        json!({"n": u64::MAX}), json!({"f": 1.5, "e": 2}), json!({"a": {"b": {"c": [[], {}]}}}), json!({"é": "é"})].to_vec();
    let object = |rng: &mut Rng| match rng.below(3) {
        0 => rng.pick(&objs).clone(),
        1 => json!({rand_key(rng): rng.pick(&value_table()).clone()}),
        _ => Some(rand_object(rng, 2)).filter(|o| *o != json!({})).unwrap_or(json!({"o": {}})),
    };
    let near = |v: &Value, rng: &mut Rng| Some(near_value(v, rng)).filter(|v| v.is_object() && *v != json!({})).unwrap_or(json!({"n": []}));
    let objs = different(2, rng, object, near);
    let rt = ["mailto:u@example.com", "fs:/a", "", "*", "é", "a\"b", "my:*", "x y", "0", "did:key:z"];
    let ri = distinct(rng, rt.len(), 3);
    let at = ["msg/send", "*", "", "é/ü", "a", "ucan/*", "wnfs/append", "\u{0}"];
    let ai = distinct(rng, at.len(), 2);
    let bads: Vec<Value> = value_table().iter().filter(|v| !v.is_object()).cloned().collect();
    let w = World {
        auds,
        dids,
        exps: pick_t(rng, &times),
        nbfs: pick_t(rng, &times),
        lives: pick_t(rng, &lifes),
        facts: BTreeMap::from([("v1", vt[0].clone()), ("v2", vt[1].clone()), ("v3", vt[2].clone()), ("v4", vt[3].clone())]),
        fkeys: BTreeMap::from([("k1", kt[0].to_string()), ("k2", kt[1].to_string()), ("k3", kt[2].to_string())]),
        res: BTreeMap::from([("r1", rt[ri[0]].to_string()), ("r2", rt[ri[1]].to_string()), ("r3", rt[ri[2]].to_string())]),
        abs: BTreeMap::from([("a1", at[ai[0]].to_string()), ("a2", at[ai[1]].to_string())]),
        cavs: BTreeMap::from([("{}", json!({})), ("c1", objs[0].clone()), ("c2", objs[1].clone())]),
        cids,
    };

    let mut ev = vec![];
    let mut hs: BTreeMap<i64, UcanBuilder<K>> = BTreeMap::new();
    let mut sg: Vec<(Signable<K>, (u64, u64))> = vec![];
    let mut texts: Vec<String> = vec![];
    for op in arr(scen, "ops") {
        let (o, h, k, x) = (s(op, "o"), n(op, "h"), n(op, "n"), s(op, "x"));
        match o {
            "wait" => {
                std::thread::sleep(std::time::Duration::from_millis(1050));
                ev.push(json!({"e":"wait"}));
            }
            "clone" => {
                let b = hs.entry(h).or_default().clone();
                hs.insert(k, b);
                ev.push(json!({"e":"clone","op":op,"res":"ok"}));
            }
            "build" => {
                let b = hs.remove(&h).unwrap_or_default();
                let t0 = real_now();
                let r = guard(|| b.build());
                let t = (t0, real_now());
                let res = verdict(&r);
                let (mut why, mut expv) = (vec![], "none".to_string());
                if let Some(Ok(s)) = r {
                    why = w.exp_why(s.expiration, t);
                    expv = format!("{:?}", s.expiration);
                    sg.push((s, t));
                }
                ev.push(json!({"e":"build","op":op,"res":res,"exp":why,"expv":expv}));
            }
            "sign" => {
                let Some((s, t)) = sg.get((k - 1) as usize) else {
                    ev.push(json!({"e":"sign","op":op,"res":"noslot"}));
                    continue;
                };
                let r = guard(|| block_on(s.sign()));
                let res = verdict(&r);
                let mut e = json!({"e":"sign","op":op,"res":res});
                if let Some(Ok(u)) = r {
                    let more = guard(|| {
                        let text = u.encode().ok()?;
                        let back = Ucan::try_from(text.as_str());
                        let verifies = block_on(u.check_signature(&mut new_parser())).is_ok();
                        let reparses = match back {
                            Ok(b) => b == u && block_on(b.check_signature(&mut new_parser())).is_ok() && b.encode().ok().as_deref() == Some(&text),
                            Err(_) => false,
                        };
                        let nonce = u.nonce().clone().unwrap_or("none".into());
                        Some((text.clone(), nonce, verifies, reparses, w.out(&u, *t), w.raw(&text, *t)))
                    });
                    match more.flatten() {
                        None => e["res"] = json!("unusable"),
                        Some((text, nonce, v, rp, out, raw)) => {
                            let i = texts.iter().position(|x| *x == text).unwrap_or_else(|| {
                                texts.push(text);
                                texts.len() - 1
                            });
                            e["text"] = json!(i + 1);
                            e["nonce"] = json!(nonce);
                            e["verifies"] = json!(v);
                            e["reparses"] = json!(rp);
                            e["out"] = out;
                            match raw {
                                Some(x) => e["raw"] = x,
                                None => e["res"] = json!("unreadable"),
                            }
                        }
                    }
                }
                ev.push(e);
            }
            _ => {
                let b = hs.remove(&h).unwrap_or_default();
                let hash = match x {
                    "dflt" => None,
                    x => hashes.iter().find(|(n, _)| *n == x).map(|(_, c)| *c),
                };
                let bad = rng.pick(&bads).clone();
                let claims: Vec<Capability> = arr(op, "c")
                    .iter()
                    .map(|c| {
                        let g = |i: usize| c[i].as_str().unwrap();
                        let cav = w.cavs.get(g(2)).cloned().unwrap_or_else(|| bad.clone());
                        Capability::new(w.res[g(0)].clone(), w.abs[g(1)].clone(), cav)
                    })
                    .collect();
                let mut r2 = Rng::new(rng.next(), 1);
                let r = guard(|| match o {
                    "iss" => b.issued_by(&keys[x]),
                    "aud" => b.for_audience(&w.auds[x]),
                    "life" => b.with_lifetime(w.lives[(k - 1) as usize]),
                    "exp" => b.with_expiration(w.exps[(k - 1) as usize]),
                    "nbf" => b.not_before(w.nbfs[(k - 1) as usize]),
                    "nonce" => b.with_nonce(),
                    "fact" if s(op, "y") == "bad" => b.with_fact(&w.fkeys[x], BTreeMap::from([(vec![1u8], 1u8)])),
                    "fact" => with_fact(b, &w.fkeys[x], &w.facts[s(op, "y")], &mut r2),
                    "wit" => b.witnessed_by(&auth[(k - 1) as usize], hash),
                    "del" => b.delegating_from(&auth[(k - 1) as usize], hash),
                    "claim" if x == "many" => b.claiming_capabilities(&claims),
                    "claim" => {
                        let mut b = b;
                        for c in &claims {
                            b = match r2.below(4) {
                                0 => b.claiming_capability(c.clone()),
                                1 => b.claiming_capability(c),
                                2 => b.claiming_capability((c.resource.clone(), c.ability.clone(), c.caveat.clone())),
                                _ => b.claiming_capability((c.resource.as_str(), c.ability.as_str(), &c.caveat)),
                            };
                        }
                        b
                    }
                    other => panic!("harness: unknown op {other}"),
                });
                match r {
                    Some(b) => {
                        hs.insert(h, b);
                        ev.push(json!({"e":"call","op":op,"res":"ok"}));
                    }
                    None => ev.push(json!({"e":"call","op":op,"res":"panic"})),
                }
            }
        }
    }
    let conc = json!({"scheme": scheme, "facts": w.facts, "fkeys": w.fkeys, "res": w.res, "abs": w.abs, "cavs": w.cavs,
                      "exps": w.exps, "nbfs": w.nbfs, "lives": w.lives, "auds": w.auds});
    json!({"ev": ev, "conc": conc, "algs": algs})
}
