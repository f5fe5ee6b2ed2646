//! Engine D: token worlds, proof chains, reduction, histories, interleavings.
use crate::{mint::*, sem::*, util::*};
use async_trait::async_trait;
use cid::multihash::Code;
use cid::Cid;
use futures::task::noop_waker;
use libipld_core::codec::{Decode, Encode};
use libipld_core::raw::RawCodec;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io::Cursor;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use ucan::builder::UcanBuilder;
use ucan::capability::{Ability, Capability, CapabilityView, Resource, ResourceUri, Scope};
use ucan::chain::{CapabilityInfo, ProofChain};
use ucan::crypto::did::DidParser;
use ucan::crypto::KeyMaterial;
use ucan::ipld::UcanIpld;
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore, UcanStoreConditionalSend};
use ucan::Ucan;

const ABSENT: i64 = -2;

struct Shared {
    events: Vec<Value>,
    served: BTreeSet<i64>,
    permits: BTreeMap<i64, u64>,
    free: bool,
    got: BTreeMap<i64, BTreeSet<i64>>,
    missed: BTreeMap<i64, BTreeSet<i64>>,
}

/// A store that serves the tokens it is told to, logs every read, and lets the
/// schedule decide when a read happens
#[derive(Clone)]
struct LogStore {
    shared: Arc<Mutex<Shared>>,
    by_cid: Arc<BTreeMap<Cid, i64>>,
    texts: Arc<Vec<String>>,
    mem: Option<MemoryStore>,
    slot: i64,
    missing_is_error: bool,
}

struct Gate(Arc<Mutex<Shared>>, i64);
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut s = self.0.lock().unwrap();
        if s.free {
            return Poll::Ready(());
        }
        let p = s.permits.entry(self.1).or_insert(0);
        if *p > 0 {
            *p -= 1;
            Poll::Ready(())
        } else {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

#[async_trait]
impl UcanStore<RawCodec> for LogStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> anyhow::Result<Option<T>> {
        Gate(self.shared.clone(), self.slot).await;
        let id = self.by_cid.get(cid).copied().unwrap_or(ABSENT);
        let hit = {
            let mut s = self.shared.lock().unwrap();
            let hit = s.served.contains(&id);
            s.events.push(json!({"e":"fetch","v":self.slot,"i":id,"hit":hit}));
            if hit {
                s.got.entry(self.slot).or_default().insert(id);
            } else {
                s.missed.entry(self.slot).or_default().insert(id);
            }
            hit
        };
        if !hit {
            if self.missing_is_error {
                anyhow::bail!("store failure");
            }
            return Ok(None);
        }
        match &self.mem {
            Some(m) => m.read(cid).await,
            None => Ok(Some(T::decode(
                RawCodec,
                &mut Cursor::new(self.texts[id as usize - 1].as_bytes()),
            )?)),
        }
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(&mut self, _: T) -> anyhow::Result<Cid> {
        anyhow::bail!("read-only")
    }
}

/// One concrete reading of an abstract world
pub struct World {
    pub toks: Vec<Value>,
    pub texts: Vec<String>,
    pub cids: Vec<Cid>,
    pub names: Names,
    pub table: [u64; 5],
    pub clock: std::cell::Cell<i64>,
    pub made: Vec<&'static str>,
}

fn rank(names_time: &[u64; 5], t: &Option<u64>) -> i64 {
    match t {
        None => -1,
        Some(t) => names_time.iter().position(|x| x == t).map(|i| 10 * i as i64).unwrap_or(-99),
    }
}

fn time_tables(now: u64) -> Vec<[u64; 5]> {
    let m = u64::MAX;
    vec![
        [now - 2000, now - 1000, now + 1000, now + 2000, now + 3000],
        [0, 1, 2, 3, 4],
        [m - 4, m - 3, m - 2, m - 1, m],
        [0, now - 1000, now + 1000, m - 1, m],
        [now - 900_000, now - 5000, now - 4000, now - 3000, now + 5000],
        [1, 1000, 1 << 53, (1 << 53) + 1, 1 << 63],
        [now - 1000, now + 1000, (1 << 63) - 1, 1 << 63, m],
        [0, i32::MAX as u64 / 2, (1 << 33), (1 << 33) + 1, i64::MAX as u64],
    ]
}

/// Position of the real clock on the rank line (strictly between table entries)
fn clock_rank(t: &[u64; 5], now: u64) -> i64 {
    10 * (t.iter().filter(|x| **x <= now).count() as i64 - 1) + 5
}

pub fn names_for(rng: &mut Rng, keys: &str, tricky: bool) -> Names {
    let mut nm = Names::default();
    for p in ["A", "B", "C", "D", "E", "F", "G", "H"] {
        nm.dids.insert(p.into(), principal_key(p, keys).did());
    }
    // texts that are nearly the DID of a principal: "a" keeps to letters and digits, "a'" does not
    let (plain, marked) = (rng.below(7), rng.below(17));
    let (cut, place) = (rng.below(30), rng.below(1000));
    for p in ["A", "B", "C", "D", "E"] {
        let d = nm.dids[p].clone();
        let flip = |from: usize| -> String {
            let at = d.char_indices().skip(from).filter(|(_, c)| c.is_ascii_alphabetic()).last().map(|(i, _)| i);
            d.char_indices()
                .map(|(i, c)| if Some(i) != at { c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                .collect()
        };
        let a = match plain {
            0 => flip(10),
            1 => d[..d.len() - 1].to_string(),
            2 => format!("{d}1"),
            // they agree on a beginning, or on all but one place
            3 => d[..d.len() / 2 + cut % (d.len() / 2)].to_string(),
            4 | 5 => {
                let at = 10 + place % (d.len() - 10);
                let new = if plain == 4 || !d.as_bytes()[at].is_ascii_digit() { 'Q' } else { '9' };
                let new = if d.as_bytes()[at] == new as u8 { 'R' } else { new };
                format!("{}{new}{}", &d[..at], &d[at + 1..])
            }
            _ => format!("{}{}", &d[..10], d[10..].chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>()),
        };
        let b = match marked {
            0 => format!("{d}#{}", &d[8..]),
            1 => format!("{d} "),
            2 => format!(" {d}"),
            3 => format!("{d}?"),
            4 => d.replacen("did:key", "did:KEY", 1),
            5 => format!("{d}/"),
            6 => format!("{d}#"),
            7 => format!("{d}?version=1"),
            8 => format!("{d}#key-1"),
            9 => format!("{d};x"),
            10 => format!("{d}:"),
            11 => format!("{d}\n"),
            12 => format!("{d}\u{0}"),
            13 => format!("DID:{}", &d[4..]),
            14 => format!("did:key:{d}"),
            15 => format!("did:key:{}", &d[9..]),
            _ => d[8..].to_string(),
        };
        nm.dids.insert(p.to_lowercase(), a);
        nm.dids.insert(format!("{}'", p.to_lowercase()), b);
    }
    if tricky {
        for (k, name) in different_keys(2, rng).into_iter().zip(["x", "y"]) {
            nm.keys.insert(name.into(), k);
        }
        for (v, name) in different_values(2, rng).into_iter().zip(["v1", "v2"]) {
            nm.vals.insert(name.into(), v);
        }
    } else {
        nm.keys.insert("x".into(), "x".into());
        nm.keys.insert("y".into(), "y".into());
        nm.vals.insert("v1".into(), json!("v1"));
        nm.vals.insert("v2".into(), json!("v2"));
    }
    nm
}

fn junk(kind: &str, nm: &Names) -> Vec<(String, String, Vec<Value>)> {
    let d = "ucan/DELEGATE".to_string();
    let one = vec![json!({})];
    let x = |r: &str, a: &str, c: Vec<Value>| vec![(r.to_string(), a.to_string(), c)];
    match kind {
        "prf0read" => x("prf:0", "fs/read", one),
        "prfneg" => x("prf:-1", &d, one),
        "prfempty" => x("prf:", &d, one),
        "prfword" => x("prf:x", &d, one),
        "prf0none" => x("prf:0", &d, vec![]),
        "xdeleg" => x("prf:0", "ucan/delegate", one),
        "starother" => x("foo:*", &d, one),
        "notauri" => x("not a uri", "fs/read", one),
        "foreign" => x("mailto:someone@example.com", "msg/send", vec![json!({}), json!({"draft": true})]),
        "myprf" => x("my:prf:0", &d, one),
        "myprfall" => x("my:prf:*", &d, one),
        "myall" => x("my:*", &d, one),
        "asprf" => x(&format!("as:{}:prf:0", nm.did("A")), &d, one),
        "asprfall" => x(&format!("as:{}:prf:*", nm.did("A")), &d, one),
        "asall" => x(&format!("as:{}:*", nm.did("A")), &d, one),
        "prfstarread" => x("prf:*", "fs/unknown", one),
        "prfallnone" => x("prf:*", &d, vec![]),
        "prfstar0" => x("prf:*0", &d, one),
        "prf0star" => x("prf:0*", &d, one),
        "prfstarany" => x("prf:*", "ucan/*", one),
        "prf0any" => x("prf:0", "*", one),
        "prfcomma" => x("prf:0,1", &d, one),
        "prflow" => x("prfs:0", &d, one),
        "prfslash" => x("prf:/0", &d, one),
        "badability" => x("fs:/a", "fs/unknown", one),
        "nodid" => x("as:did:web:example.com:fs:/a", "fs/admin", one),
        other => panic!("harness: unknown junk {other}"),
    }
}

/// the caveat of a redelegation, of as many members as it says
fn caveat(cl: &Value) -> Value {
    match cl.get("cv").and_then(Value::as_u64).unwrap_or(0) {
        0 => json!({}),
        1 => json!({"x": "v1"}),
        2 => json!({"x": "v1", "y": [1, null]}),
        3 => json!({"": {}, "index": 0, "prf": "1"}),
        _ => json!({"a": false, "b": "*", "c": {"d": [{}]}, "e": -1}),
    }
}

pub fn cap_json(claims: &[Value], nm: &Names) -> Value {
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
    for cl in claims {
        let entries = match s(cl, "k") {
            // whatever it means, this is how it is written
            _ if cl.get("r").is_some() => {
                let r = s(cl, "r").replace("did:key:zA", &nm.did("A"));
                vec![(r, s(cl, "a").to_string(), vec![caveat(cl); n(cl, "count") as usize])]
            }
            "cap" => {
                let (r, a, c) = nm.text(&cl["c"]);
                vec![(r, a, vec![c])]
            }
            "idx" => vec![(format!("prf:{}", n(cl, "n")), "ucan/DELEGATE".into(), vec![caveat(cl)])],
            "all" => vec![("prf:*".into(), "ucan/DELEGATE".into(), vec![caveat(cl)])],
            _ => junk(s(cl, "s"), nm),
        };
        for (r, a, cs) in entries {
            m.entry(r).or_default().entry(a).or_default().extend(cs);
        }
    }
    serde_json::to_value(m).unwrap()
}

/// The token `t`, made with the builder and passed around in one form or another
#[allow(clippy::too_many_arguments)]
fn by_builder(t: &Value, ix: usize, names: &Names, keys: &str, nbf: Option<u64>, exp: Option<u64>, built: &[(Ucan, Code)], rng: &mut Rng) -> anyhow::Result<Ucan> {
    let key: Arc<Box<dyn KeyMaterial>> = Arc::new(principal_key(s(t, "iss"), keys).material(true));
    let prf: Vec<i64> = arr(t, "prf").iter().map(|p| p.as_i64().unwrap()).collect();
    let mut delegated = BTreeSet::new();
    let mut claims: Vec<Capability> = vec![];
    for cl in arr(t, "claims") {
        let at = n(cl, "n") as usize;
        if s(cl, "k") == "idx" && at < prf.len() && !delegated.contains(&at) && cl.get("cv").map_or(true, |x| x == 0) && rng.chance(70) {
            delegated.insert(at);
            continue;
        }
        let map = cap_json(&[cl.clone()], names);
        for (r, abilities) in map.as_object().unwrap() {
            for (a, caveats) in abilities.as_object().unwrap() {
                claims.extend(caveats.as_array().unwrap().iter().map(|c| Capability::new(r.clone(), a.clone(), c.clone())));
            }
        }
    }
    let mut b = UcanBuilder::default().with_fact("n", ix);
    let mut todo: Vec<usize> = (0..5).collect();
    let (mut p, mut c) = (0, 0);
    while !todo.is_empty() || p < prf.len() || c < claims.len() {
        b = match rng.below(3) {
            0 if !todo.is_empty() => match todo.remove(rng.below(todo.len())) {
                0 => b.issued_by(&key),
                1 => b.for_audience(&names.did(s(t, "aud"))),
                2 => nbf.map(|x| b.clone().not_before(x)).unwrap_or(b),
                3 => exp.map(|x| b.clone().with_expiration(x)).unwrap_or(b),
                _ if t["fct"] == json!(true) => b.with_nonce().with_fact("note", json!({"zero": null})),
                _ => b,
            },
            1 if p < prf.len() => {
                let (u, hash) = match prf[p] {
                    // cited under a hash it is not served under
                    x if x <= 0 => {
                        let (u, code) = rng.pick(built);
                        let other: Vec<Code> = HASHES.iter().map(|h| h.1).filter(|h| u64::from(*h) != u64::from(*code)).collect();
                        (u, Some(*rng.pick(&other)))
                    }
                    i => {
                        let (u, code) = &built[i as usize - 1];
                        (u, if *code == Code::Blake3_256 && rng.chance(60) { None } else { Some(*code) })
                    }
                };
                p += 1;
                if delegated.contains(&(p - 1)) { b.delegating_from(u, hash) } else { b.witnessed_by(u, hash) }
            }
            2 if c < claims.len() => {
                let k = 1 + rng.below(claims.len() - c);
                c += k;
                if k == 1 { b.claiming_capability(&claims[c - 1]) } else { b.claiming_capabilities(&claims[c - k..c]) }
            }
            _ => b,
        };
    }
    let u = futures::executor::block_on(b.build()?.sign())?;
    Ok(match rng.below(5) {
        0 => Ucan::try_from(u.encode()?.as_str())?,
        // an audience that only resembles a DID may have no IPLD form
        1 if ["A", "B", "C", "D", "E"].contains(&s(t, "aud")) => Ucan::try_from(&UcanIpld::try_from(&u)?)?,
        2 if ["A", "B", "C", "D", "E"].contains(&s(t, "aud")) => {
            let back: UcanIpld = serde_ipld_dagcbor::from_slice(&serde_ipld_dagcbor::to_vec(&UcanIpld::try_from(&u)?)?)?;
            Ucan::try_from(&back)?
        }
        3 => serde_json::from_str(&serde_json::to_string(&u)?)?,
        _ => u,
    })
}

fn build(scen: &Value, rng: &mut Rng, conc: &mut Map<String, Value>) -> World {
    let now = real_now();
    let toks: Vec<Value> = arr(scen, "toks").to_vec();
    let tables = time_tables(now);
    // a scenario that asks for the clock at rank n wants a table with the clock just after n
    let wanted: Option<i64> = arr(scen, "ops").iter().find(|o| s(o, "mode") == "clock").map(|o| n(o, "now"));
    let fits: Vec<usize> = (0..tables.len())
        .filter(|i| match wanted {
            Some(w) if w == 1 || w == 3 || w == 0 || w == 4 => clock_rank(&tables[*i], now) == 10 * w + 5,
            _ => true,
        })
        .collect();
    let ti = if fits.is_empty() { 0 } else { *rng.pick(&fits) };
    // or with the clock passing rank 2 while the scenario runs
    let waits = arr(scen, "ops").iter().any(|o| s(o, "op") == "wait");
    let now = real_now();
    let table = if waits { [now - 2000, now - 1000, now + 4, now + 1000, now + 2000] } else { tables[ti] };
    let draw = rng.below(10);
    let keys = match (s(scen, "keys"), draw) {
        ("", 0 | 1) => "mixed",
        ("", 2) => "p256",
        ("", _) => "ed",
        (k, _) => k,
    };
    let tricky = rng.chance(60);
    let names = names_for(rng, keys, tricky);
    conc.insert("table".into(), json!(ti));
    conc.insert("keys".into(), json!(keys));
    let mixed_hash = rng.chance(25);
    conc.insert("hash".into(), json!(if mixed_hash { "mixed" } else { "blake3" }));
    let mut texts: Vec<String> = vec![];
    let mut cids: Vec<Cid> = vec![];
    let mut out = vec![];
    let via = s(scen, "via") == "builder";
    let mut built: Vec<(Ucan, Code)> = vec![];
    let mut made = vec![];
    for (ix, t) in toks.iter().enumerate() {
        let time = |k: &str| -> Option<u64> {
            let r = n(t, k);
            (r >= 0).then(|| table[r as usize])
        };
        let mut payload = Map::new();
        payload.insert("ucv".into(), json!("0.10.0-canary"));
        payload.insert("iss".into(), json!(names.did(s(t, "iss"))));
        payload.insert("aud".into(), json!(names.did(s(t, "aud"))));
        payload.insert("exp".into(), json!(time("exp")));
        if let Some(x) = time("nbf") {
            payload.insert("nbf".into(), json!(x));
        }
        payload.insert("cap".into(), cap_json(arr(t, "claims"), &names));
        // equal abstract tokens must be different real ones
        payload.insert("nnc".into(), json!(format!("t{ix}")));
        let prf: Vec<String> = arr(t, "prf")
            .iter()
            .map(|p| match p.as_i64().unwrap() {
                0 => (*rng.pick(&["not-a-cid", "", "bafk", "*", "did:key:z6Mk", "zzzz", "b", "QmInvalid"])).to_string(),
                -1 => Cid::new_v1(0x71, *cids.get(0).map(|c| c.hash()).unwrap_or(raw_cid(b"x", Code::Blake3_256).hash())).to_string(),
                -2 => raw_cid(format!("nobody wrote this {ix}").as_bytes(), Code::Blake3_256).to_string(),
                i => {
                    let c = cids[i as usize - 1];
                    use cid::multibase::Base;
                    match rng.below(12) {
                        0 => c.to_string_of_base(Base::Base58Btc).unwrap(),
                        1 => c.to_string_of_base(Base::Base36Lower).unwrap(),
                        _ => c.to_string(),
                    }
                }
            })
            .collect();
        if !prf.is_empty() || rng.chance(10) {
            payload.insert("prf".into(), json!(prf));
        }
        let by = if s(t, "by") == "X" { "H" } else { s(t, "by") };
        let key = principal_key(by, keys);
        if t["fct"] == json!(true) {
            payload.insert("fct".into(), json!({"note": {"n": 1}, "zero": null}));
        }
        let own = principal_key(s(t, "iss"), keys).alg();
        let alg = match s(t, "hdr") {
            "none" => "none".to_string(),
            "None" => (*rng.pick(&["None", "NONE", "nOnE"])).to_string(),
            "hmac" => (*rng.pick(&["HS256", "HS512", "PS256", "ES256K"])).to_string(),
            "other" => if own == "EdDSA" { "RS256".to_string() } else { "EdDSA".to_string() },
            "empty" => (*rng.pick(&["", " ", "eddsa", "*"])).to_string(),
            _ => own.to_string(),
        };
        let header = json!({"alg": alg, "typ": "JWT"});
        let lay = if s(t, "lay").is_empty() { "canon" } else { s(t, "lay") };
        let iss2 = names.did(if s(t, "iss") == "A" { "B" } else { "A" });
        let stolen: Vec<usize> = (0..ix).filter(|j| toks[*j]["over"] == "self" && toks[*j]["raw"] == "intact").collect();
        let text = if s(t, "over") == "stolen" && !stolen.is_empty() {
            // the signature of an earlier token, of the same issuer if there is one
            let same: Vec<usize> = stolen.iter().cloned().filter(|j| toks[*j]["iss"] == t["iss"]).collect();
            let from = *rng.pick(if same.is_empty() { &stolen } else { &same });
            let own = mint(&header, &Value::Object(payload), lay, &key, "self", "intact", &iss2, rng);
            let sig = texts[from].rsplit('.').next().unwrap().to_string();
            format!("{}.{sig}", own.rsplit_once('.').unwrap().0)
        } else {
            let over = if s(t, "over") == "stolen" { "other" } else { s(t, "over") };
            mint(&header, &Value::Object(payload), lay, &key, over, s(t, "raw"), &iss2, rng)
        };
        let code = if mixed_hash { rng.pick(&HASHES).1 } else { Code::Blake3_256 };
        let text = if via {
            let r = guard(|| by_builder(t, ix, &names, keys, time("nbf"), time("exp"), &built, rng));
            made.push(verdict(&r));
            match r {
                Some(Ok(u)) => {
                    let own = format!("{}.{}", String::from_utf8_lossy(u.signed_data()), b64(u.signature()));
                    built.push((u, code));
                    own
                }
                _ => {
                    built.push((Ucan::try_from(text.as_str()).unwrap_or_else(|e| panic!("harness: {e}")), code));
                    text
                }
            }
        } else {
            text
        };
        cids.push(raw_cid(text.as_bytes(), code));
        texts.push(text);
        let mut o = t.as_object().unwrap().clone();
        let up = |r: i64| if r < 0 { -1 } else { 10 * r };
        o.insert("nbf".into(), json!(up(n(t, "nbf"))));
        o.insert("exp".into(), json!(up(n(t, "exp"))));
        out.push(Value::Object(o));
    }
    World { toks: out, texts, cids, names, table, clock: std::cell::Cell::new(clock_rank(&table, now)), made }
}

impl World {
    fn shape(&self, c: &ProofChain) -> Value {
        let u = c.ucan();
        let id = self
            .texts
            .iter()
            .position(|t| {
                t.as_bytes().starts_with(u.signed_data())
                    && t.as_bytes().get(u.signed_data().len()) == Some(&b'.')
                    && t[u.signed_data().len() + 1..] == b64(u.signature())
            })
            .map(|i| i as i64 + 1)
            .unwrap_or(-99);
        json!([id, c.proofs().iter().map(|p| self.shape(p)).collect::<Vec<_>>()])
    }
    fn infos<S: Scope, A: Ability>(&self, infos: &[CapabilityInfo<S, A>], f: impl Fn(&CapabilityView<S, A>) -> Value) -> Value {
        Value::Array(
            infos
                .iter()
                .map(|i| {
                    json!({
                        "c": f(&i.capability),
                        "o": i.originators.iter().map(|d| self.names.principal(d)).collect::<Vec<_>>(),
                        "nbf": rank(&self.table, &i.not_before),
                        "exp": rank(&self.table, &i.expires_at),
                    })
                })
                .collect(),
        )
    }
    fn reduce(&self, c: &ProofChain, root: i64) -> Option<Value> {
        guard(|| {
            let fs = c.reduce_capabilities(&FsSem);
            let mb = c.reduce_capabilities(&MbSem);
            json!([
                {"fam": "fs", "root": root, "infos": self.infos(&fs, |v| self.names.abs_fs(v))},
                {"fam": "mb", "root": root, "infos": self.infos(&mb, |v| self.names.abs_mb(v))},
            ])
        })
    }
    fn now(&self, op: &Value) -> (Option<u64>, i64) {
        if s(op, "mode") == "clock" {
            (None, self.clock.get())
        } else {
            let r = n(op, "now");
            (Some(self.table[r as usize]), 10 * r)
        }
    }
}

/// A reduction as text, regardless of order
fn raw_reduction(c: &ProofChain) -> Option<String> {
    fn lines<S: Scope + std::fmt::Debug, A: Ability + std::fmt::Debug>(infos: Vec<CapabilityInfo<S, A>>) -> Vec<String> {
        infos
            .iter()
            .map(|i| {
                let (form, kind) = match &i.capability.resource {
                    Resource::Resource { kind } => ("res".to_string(), kind),
                    Resource::My { kind } => ("my".to_string(), kind),
                    Resource::As { did, kind } => (format!("as {did}"), kind),
                };
                let kind = match kind {
                    ResourceUri::Unscoped => "*".to_string(),
                    ResourceUri::Scoped(s) => format!("{s:?}"),
                };
                format!("{form} {kind} {:?} {} {:?} {:?} {:?}", i.capability.ability, i.capability.caveat, i.originators, i.not_before, i.expires_at)
            })
            .collect()
    }
    guard(|| {
        let mut l = lines(c.reduce_capabilities(&FsSem));
        l.extend(lines(c.reduce_capabilities(&MbSem)));
        l.sort();
        l.join("\n")
    })
}

/// One verification, with nothing but its token, the proofs served and the time
#[derive(serde::Serialize, serde::Deserialize)]
struct Case {
    texts: Vec<String>,
    cids: Vec<String>,
    served: BTreeSet<i64>,
    root: i64,
    entry: String,
    now: Option<u64>,
    missing_is_error: bool,
}

impl Case {
    /// in this process, with a new parser and a store that serves nothing else
    fn run(&self) -> (String, String) {
        let cids: Vec<Cid> = self.cids.iter().map(|c| c.parse().unwrap()).collect();
        let shared = Arc::new(Mutex::new(Shared {
            events: vec![],
            served: self.served.clone(),
            permits: BTreeMap::new(),
            free: true,
            got: BTreeMap::new(),
            missed: BTreeMap::new(),
        }));
        let store = LogStore {
            shared,
            by_cid: Arc::new(cids.iter().enumerate().map(|(i, c)| (*c, i as i64 + 1)).collect()),
            texts: Arc::new(self.texts.clone()),
            mem: None,
            slot: 1,
            missing_is_error: self.missing_is_error,
        };
        let mut p = new_parser();
        let at = self.root as usize - 1;
        let r = guard(|| futures::executor::block_on(enter(&self.entry, self.texts[at].clone(), cids[at], self.now, &mut p, &store)));
        match &r {
            Some(Ok(c)) => match raw_reduction(c) {
                Some(red) => ("ok".into(), red),
                None => ("panic".into(), String::new()),
            },
            _ => (verdict(&r).into(), String::new()),
        }
    }
    /// in a process that has verified nothing before
    fn elsewhere(&self) -> (String, String) {
        use std::io::Write;
        let exe = std::env::current_exe().unwrap();
        let mut c = std::process::Command::new(exe)
            .args(["pristine", "-", "-", "0"])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("harness: {e}"));
        c.stdin.take().unwrap().write_all(serde_json::to_string(self).unwrap().as_bytes()).unwrap();
        let out = c.wait_with_output().unwrap();
        if !out.status.success() {
            return ("panic".into(), String::new());
        }
        // constructors of keys print, too
        let text = String::from_utf8_lossy(&out.stdout);
        serde_json::from_str(text.trim_end().lines().last().unwrap_or("")).unwrap_or_else(|e| panic!("harness: {e}"))
    }
}

/// The other end of `Case::elsewhere`
pub fn pristine() {
    let c: Case = serde_json::from_reader(std::io::stdin()).unwrap();
    println!("{}", serde_json::to_string(&c.run()).unwrap());
}

async fn enter(entry: &str, text: String, cid: Cid, now: Option<u64>, parser: &mut DidParser, store: &LogStore) -> anyhow::Result<ProofChain> {
    match entry {
        "cid" => ProofChain::from_cid(&cid, now, parser, store).await,
        "ucan" => ProofChain::from_ucan(Ucan::try_from(text.as_str())?, now, parser, store).await,
        _ => ProofChain::try_from_token_string(&text, now, parser, store).await,
    }
}

type Fut = Pin<Box<dyn Future<Output = (anyhow::Result<ProofChain>, DidParser)> + Send>>;

struct Running {
    fut: Fut,
    op: Value,
}

pub fn run(scen: &Value, rng: &mut Rng) -> Value {
    let mut conc = Map::new();
    let w = Arc::new(build(scen, rng, &mut conc));
    let by_cid: Arc<BTreeMap<Cid, i64>> =
        Arc::new(w.cids.iter().enumerate().map(|(i, c)| (*c, i as i64 + 1)).collect());
    let shared = Arc::new(Mutex::new(Shared {
        events: vec![],
        served: BTreeSet::new(),
        permits: BTreeMap::new(),
        free: true,
        got: BTreeMap::new(),
        missed: BTreeMap::new(),
    }));
    let use_mem = conc["hash"] == json!("blake3") && rng.chance(60);
    let mem = use_mem.then(MemoryStore::default);
    let store = LogStore {
        shared: shared.clone(),
        by_cid: by_cid.clone(),
        texts: Arc::new(w.texts.clone()),
        mem: mem.clone(),
        slot: 1,
        missing_is_error: rng.chance(20),
    };
    conc.insert("mem".into(), json!(use_mem));
    let pristine = std::env::var("CONFORM_PRISTINE").is_ok();
    let mut parsers: BTreeMap<i64, DidParser> = BTreeMap::new();
    let mut running: BTreeMap<i64, Running> = BTreeMap::new();
    let log = |v: Value| shared.lock().unwrap().events.push(v);
    for (i, r) in w.made.iter().enumerate() {
        log(json!({"e": "made", "i": i + 1, "res": r}));
    }

    let put = |i: i64| {
        if let Some(m) = &mem {
            let mut m = m.clone();
            let _ = guard(|| futures::executor::block_on(m.write_token(&w.texts[i as usize - 1])));
        }
        shared.lock().unwrap().served.insert(i);
        shared.lock().unwrap().events.push(json!({"e":"put","i":i}));
    };

    // outcome of a verification, with its control run in a fresh environment
    let finish = |v: i64, op: &Value, res: Option<anyhow::Result<ProofChain>>| {
        let root = n(op, "i");
        let (now, _) = w.now(op);
        let (got, missed) = {
            let sh = shared.lock().unwrap();
            (sh.got.get(&v).cloned().unwrap_or_default(), sh.missed.get(&v).cloned().unwrap_or_default())
        };
        let mut res_s = verdict(&res);
        let mut shape = json!([]);
        let mut red = None;
        if let Some(Ok(c)) = &res {
            shape = guard(|| w.shape(c)).unwrap_or(json!([]));
            red = w.reduce(c, root);
            if red.is_none() {
                res_s = "panic";
            }
        }
        let served: BTreeSet<i64> = got.difference(&missed).cloned().collect();
        let case = Case {
            texts: w.texts.clone(),
            cids: w.cids.iter().map(|c| c.to_string()).collect(),
            served,
            root,
            entry: s(op, "entry").to_string(),
            now,
            missing_is_error: store.missing_is_error,
        };
        let (ctl_s, ctl_red) = if pristine { case.elsewhere() } else { case.run() };
        let raw = match &res {
            Some(Ok(c)) if res_s == "ok" => raw_reduction(c).unwrap_or("panic".into()),
            _ => String::new(),
        };
        let same = res_s != "ok" || ctl_s != "ok" || raw == ctl_red;
        log(json!({"e":"end","v":v,"res":res_s,"ctl":ctl_s,"clk":w.clock.get(),
                   "same":same,"shape":shape,"red":red.unwrap_or(json!([]))}));
    };

    let waker = noop_waker();
    let mut ops: Vec<Value> = arr(scen, "ops").to_vec();
    if ops.is_empty() {
        let last = w.texts.len();
        ops = vec![
            json!({"op":"putall","held":[]}),
            json!({"op":"ver","v":1,"i":last,"now":0,"mode":"given","entry":"str"}),
        ];
    }
    let ctx_poll = |r: &mut Running| -> Option<Poll<(anyhow::Result<ProofChain>, DidParser)>> {
        let mut cx = Context::from_waker(&waker);
        guard(|| r.fut.as_mut().poll(&mut cx))
    };

    let waits = ops.iter().any(|o| s(o, "op") == "wait");
    let mut sure = 0;
    for op in &ops {
        if waits && w.clock.get() == 15 {
            if real_now() >= w.table[2] {
                // too slow: what was seen since the last look at the clock is not known to be before rank 2
                break;
            }
            sure = shared.lock().unwrap().events.len();
        }
        match s(op, "op") {
            "wait" => {
                while real_now() <= w.table[2] {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                }
                w.clock.set(25);
            }
            "putall" => {
                let held: BTreeSet<i64> = arr(op, "held").iter().map(|x| x.as_i64().unwrap()).collect();
                for i in 1..=w.texts.len() as i64 {
                    if !held.contains(&i) {
                        put(i);
                    }
                }
            }
            "put" => put(n(op, "i")),
            "del" => {
                shared.lock().unwrap().served.remove(&n(op, "i"));
                log(json!({"e":"del","i":n(op,"i")}));
            }
            "sig" | "val" | "exp" | "early" | "enc" => {
                let i = n(op, "i");
                let text = &w.texts[i as usize - 1];
                let parser = parsers.entry(1).or_insert_with(new_parser);
                let u = guard(|| Ucan::try_from(text.as_str()));
                let (now, nowr) = w.now(op);
                match (s(op, "op"), u) {
                    ("sig", Some(Ok(u))) => {
                        let r = guard(|| futures::executor::block_on(u.check_signature(parser)));
                        log(json!({"e":"sig","i":i,"res":verdict(&r)}));
                    }
                    ("val", Some(Ok(u))) => {
                        let r = guard(|| futures::executor::block_on(u.validate(now, parser)));
                        let g = guard(|| futures::executor::block_on(u.check_signature(parser)));
                        log(json!({"e":"val","i":i,"now":nowr,"res":verdict(&r),"sig":verdict(&g)}));
                    }
                    ("exp", Some(Ok(u))) => {
                        log(json!({"e":"exp","i":i,"now":nowr,"res":yesno(guard(|| u.is_expired(now)))}));
                    }
                    ("early", Some(Ok(u))) => {
                        log(json!({"e":"early","i":i,"now":w.clock.get(),"res":yesno(guard(|| u.is_too_early()))}));
                    }
                    ("enc", Some(Ok(u))) => {
                        let j = n(op, "j");
                        if let Some(Ok(o)) = guard(|| Ucan::try_from(w.texts[j as usize - 1].as_str())) {
                            log(json!({"e":"enc","i":i,"j":j,"res":yesno(guard(|| u.lifetime_encompasses(&o)))}));
                        }
                    }
                    // every generated token is well-formed, so refusing it refuses its signature
                    (_, u) => log(json!({"e":"sig","i":i,"res":verdict(&u.map(|x| x.and_then(|_| Ok::<(), anyhow::Error>(())))), "note":"parse"})),
                }
            }
            "ver" => {
                let (v, i) = (n(op, "v"), n(op, "i"));
                if running.contains_key(&v) {
                    continue;
                }
                let (now, nowr) = w.now(op);
                {
                    let mut sh = shared.lock().unwrap();
                    sh.got.remove(&v);
                    sh.missed.remove(&v);
                    sh.free = true;
                }
                log(json!({"e":"begin","v":v,"i":i,"now":nowr}));
                let st = LogStore { slot: v, ..store.clone() };
                let parser = parsers.entry(v).or_insert_with(new_parser);
                let r = guard(|| {
                    futures::executor::block_on(enter(s(op, "entry"), w.texts[i as usize - 1].clone(), w.cids[i as usize - 1], now, parser, &st))
                });
                finish(v, op, r);
            }
            "begin" => {
                let (v, i) = (n(op, "v"), n(op, "i"));
                if running.contains_key(&v) {
                    continue;
                }
                let (now, nowr) = w.now(op);
                {
                    let mut sh = shared.lock().unwrap();
                    sh.got.remove(&v);
                    sh.missed.remove(&v);
                    sh.free = false;
                    sh.permits.insert(v, 0);
                }
                log(json!({"e":"begin","v":v,"i":i,"now":nowr}));
                let st = LogStore { slot: v, ..store.clone() };
                let mut parser = parsers.remove(&v).unwrap_or_else(new_parser);
                let (text, cid, entry) = (w.texts[i as usize - 1].clone(), w.cids[i as usize - 1], s(op, "entry").to_string());
                let fut: Fut = Box::pin(async move {
                    let r = enter(&entry, text, cid, now, &mut parser, &st).await;
                    (r, parser)
                });
                let mut r = Running { fut, op: op.clone() };
                match ctx_poll(&mut r) {
                    Some(Poll::Pending) => {
                        running.insert(v, r);
                    }
                    Some(Poll::Ready((res, p))) => {
                        parsers.insert(v, p);
                        finish(v, op, Some(res));
                    }
                    None => finish(v, op, None),
                }
            }
            "step" => {
                let v = n(op, "v");
                step(v, &mut running, &mut parsers, &shared, &ctx_poll, &finish);
            }
            other => panic!("harness: unknown op {other}"),
        }
    }
    // let whatever is still running finish, round robin
    while !running.is_empty() {
        let vs: Vec<i64> = running.keys().cloned().collect();
        for v in vs {
            step(v, &mut running, &mut parsers, &shared, &ctx_poll, &finish);
        }
    }
    let mut events = shared.lock().unwrap().events.clone();
    if waits && w.clock.get() == 15 {
        events.truncate(sure);
    }
    json!({"toks": w.toks, "ev": events, "conc": conc, "via": if w.made.is_empty() { "text" } else { "builder" }})
}

#[allow(clippy::type_complexity)]
fn step(
    v: i64,
    running: &mut BTreeMap<i64, Running>,
    parsers: &mut BTreeMap<i64, DidParser>,
    shared: &Arc<Mutex<Shared>>,
    ctx_poll: &dyn Fn(&mut Running) -> Option<Poll<(anyhow::Result<ProofChain>, DidParser)>>,
    finish: &dyn Fn(i64, &Value, Option<anyhow::Result<ProofChain>>),
) {
    if let Some(mut r) = running.remove(&v) {
        {
            let mut sh = shared.lock().unwrap();
            sh.free = false;
            *sh.permits.entry(v).or_insert(0) += 1;
        }
        match ctx_poll(&mut r) {
            Some(Poll::Pending) => {
                running.insert(v, r);
            }
            Some(Poll::Ready((res, p))) => {
                parsers.insert(v, p);
                finish(v, &r.op, Some(res));
            }
            None => finish(v, &r.op, None),
        }
    }
}
