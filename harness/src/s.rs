//! Engine S: the in-memory token store.
use crate::{mint::*, util::*};
use cid::multihash::{Code, Multihash};
use cid::Cid;
use futures::executor::block_on;
use libipld_core::ipld::Ipld;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use ucan::builder::UcanBuilder;
use ucan::crypto::KeyMaterial;
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};
use ucan::Ucan;

fn contents(kinds: &[Value], rng: &mut Rng) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for k in kinds {
        loop {
            let c = if k == "text" {
                match rng.below(6) {
                    0 => token(rng).into_bytes(),
                    1 => rng.pick(&["", " ", "\n", "a", "a\n", "a\u{0}", "é", "e\u{301}", "\u{feff}a", "A", ".", "..", "null"]).as_bytes().to_vec(),
                    2 => "x".repeat(1 + rng.below(70000)).into_bytes(),
                    3 => match out.iter().find(|x| std::str::from_utf8(x).is_ok()) {
                        Some(x) => [x.clone(), b".".to_vec()].concat(),
                        None => b"..".to_vec(),
                    },
                    4 => format!("{}", rng.next()).into_bytes(),
                    _ => b64(rng.bytes(40)).into_bytes(),
                }
            } else {
                match rng.below(4) {
                    0 => vec![0xff],
                    1 => vec![b'a', 0x80],
                    2 => [&[0xc0, 0x80][..], &rng.bytes(5)].concat(),
                    _ => [rng.bytes(30), vec![0xfe]].concat(),
                }
            };
            if !out.contains(&c) {
                out.push(c);
                break;
            }
        }
    }
    out
}

fn token(rng: &mut Rng) -> String {
    let k = principal_key("A", "ed");
    let lay = *rng.pick(&["canon", "pretty", "reorder"]);
    mint(
        &json!({"alg":k.alg(),"typ":"JWT"}),
        &json!({"ucv":"0.10.0-canary","iss":k.did(),"aud":k.did(),"exp":null,"nnc":format!("{}", rng.next()),"cap":{}}),
        lay, &k, "self", "intact", "", rng,
    )
}

/// Concrete CIDs, computed without the library
fn cid_of(c: &[u8], a: &Value) -> Cid {
    let codec = match s(a, "codec") {
        "cbor" => 0x71,
        "pb" => 0x70,
        "json" => 0x0129,
        "identity0" => 0,
        _ => 0x55,
    };
    let code = match s(a, "hash") {
        "sha256" => Code::Sha2_256,
        "blake2" => Code::Blake2b256,
        _ => Code::Blake3_256,
    };
    let d = raw_cid(c, code);
    let mh = match s(a, "hash") {
        "short" => Multihash::wrap(d.hash().code(), &d.hash().digest()[..20]).unwrap(),
        "id" => Multihash::wrap(0, &c[..c.len().min(40)]).unwrap(),
        _ => *d.hash(),
    };
    if codec == 0x70 && s(a, "hash") == "sha256" {
        return Cid::new_v0(mh).unwrap();
    }
    Cid::new_v1(codec, mh)
}

fn perform(st: &mut MemoryStore, op: &Value, cs: &[Vec<u8>], r: u64) -> Value {
    let own = json!({"codec":"raw","hash":"blake3"});
    let c = n(op, "c") as usize;
    let a = &op["a"];
    let bytes = |b: &[u8]| json!({"r":"bytes","c":cs.iter().position(|x| x == b).map(|i| i + 1).unwrap_or(0)});
    let err = json!({"r":"err","c":0});
    let none = json!({"r":"none","c":0});
    let addr = || cid_of(&cs[(n(a, "c") - 1) as usize], a);
    let wrote = |x: anyhow::Result<Cid>| match x {
        Ok(cid) => json!({"r":"cid","c":cs.iter().position(|x| cid_of(x, &own) == cid).map(|i| i + 1).unwrap_or(0)}),
        Err(_) => err.clone(),
    };
    guard(|| match s(op, "o") {
        "write" => {
            let b = cs[c - 1].clone();
            wrote(block_on(match r % 2 {
                0 => st.write(b),
                _ => st.write(b.into_boxed_slice().to_vec()),
            }))
        }
        "writetok" if r % 2 == 0 => wrote(block_on(st.write(Ipld::Bytes(cs[c - 1].clone())))),
        "writetok" => wrote(block_on(st.write_token(std::str::from_utf8(&cs[c - 1]).unwrap()))),
        "badwrite" => wrote(block_on(st.write(match r % 3 {
            0 => Ipld::String("a.b.c".into()),
            1 => Ipld::Null,
            _ => Ipld::List(vec![Ipld::Bytes(vec![1])]),
        }))),
        "read" if r % 2 == 0 => match block_on(st.read::<Ipld>(&addr())) {
            Ok(Some(Ipld::Bytes(b))) => bytes(&b),
            Ok(Some(_)) => bytes(b"?"),
            Ok(None) => none.clone(),
            Err(_) => err.clone(),
        },
        "read" => match block_on(st.read::<Vec<u8>>(&addr())) {
            Ok(Some(b)) => bytes(&b),
            Ok(None) => none.clone(),
            Err(_) => err.clone(),
        },
        "readtok" => match block_on(st.read_token(&addr())) {
            Ok(Some(t)) => bytes(t.as_bytes()),
            Ok(None) => none.clone(),
            Err(_) => err.clone(),
        },
        "require" => match block_on(st.require_token(&addr())) {
            Ok(t) => bytes(t.as_bytes()),
            Err(_) => err.clone(),
        },
        other => panic!("harness: unknown op {other}"),
    })
    .unwrap_or(json!({"r":"panic","c":0}))
}

pub fn run(scen: &Value, rng: &mut Rng) -> Value {
    let kinds = arr(scen, "kinds");
    let cs = contents(kinds, rng);
    let ops = arr(scen, "ops");
    let mut ev: Vec<(u64, Value)> = vec![];
    let clock = Arc::new(AtomicU64::new(0));
    let root = MemoryStore::default();
    let mut finally = root.clone();
    if n(scen, "par") == 0 {
        let mut stores: HashMap<i64, MemoryStore> = HashMap::new();
        let mut last = root;
        for o in ops {
            let t = n(o, "t");
            // clones of clones, made when first needed
            let st = stores.entry(t).or_insert_with(|| last.clone());
            let k = clock.fetch_add(2, Ordering::SeqCst);
            ev.push((k, json!({"e":"call","t":t,"op":o["op"]})));
            let res = perform(st, &o["op"], &cs, rng.next());
            ev.push((k + 1, json!({"e":"ret","t":t,"res":res})));
            last = st.clone();
        }
    } else {
        let mut by: HashMap<i64, Vec<(Value, u64)>> = HashMap::new();
        for o in ops {
            by.entry(n(o, "t")).or_default().push((o["op"].clone(), rng.next()));
        }
        let gate = Arc::new(Barrier::new(by.len()));
        let all = Arc::new(Mutex::new(vec![]));
        let cs = Arc::new(cs.clone());
        let hs: Vec<_> = by
            .into_iter()
            .map(|(t, mine)| {
                let (gate, all, clock, cs) = (gate.clone(), all.clone(), clock.clone(), cs.clone());
                let mut st = root.clone();
                std::thread::spawn(move || {
                    let mut local = vec![];
                    gate.wait();
                    for (op, r) in mine {
                        local.push((clock.fetch_add(1, Ordering::SeqCst), json!({"e":"call","t":t,"op":op})));
                        let res = perform(&mut st, &op, &cs, r);
                        local.push((clock.fetch_add(1, Ordering::SeqCst), json!({"e":"ret","t":t,"res":res})));
                    }
                    all.lock().unwrap().extend(local);
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap_or_else(|_| panic!("harness: thread failed"));
        }
        ev = std::mem::take(&mut *all.lock().unwrap());
        ev.sort_by_key(|x| x.0);
    }
    for o in arr(scen, "post") {
        let k = clock.fetch_add(2, Ordering::SeqCst);
        ev.push((k, json!({"e":"call","t":o["t"],"op":o["op"]})));
        let res = perform(&mut finally, &o["op"], &cs, rng.next());
        ev.push((k + 1, json!({"e":"ret","t":o["t"],"res":res})));
    }
    let mut ev: Vec<Value> = ev.into_iter().map(|x| x.1).collect();
    // what the builder cites
    for (i, c) in cs.iter().enumerate() {
        let Some(u) = std::str::from_utf8(c).ok().and_then(|t| Ucan::try_from(t).ok()) else { continue };
        let k = principal_key("A", "ed").material(true);
        type K = Box<dyn KeyMaterial>;
        let s = guard(|| UcanBuilder::<K>::default().issued_by(&k).for_audience("did:x:y").witnessed_by(&u, None).build().ok());
        let cited = s.flatten().and_then(|s| s.proofs.first().cloned()).unwrap_or_default();
        let own = json!({"c": i + 1, "codec":"raw","hash":"blake3"});
        let is = cited == cid_of(c, &own).to_string()
            && guard(|| u.to_cid(UcanBuilder::<K>::default_hasher()).ok()).flatten() == Some(cid_of(c, &own));
        ev.push(json!({"e":"cite","c":i+1,"cited": if is { own } else { json!({"c":0,"codec":"?","hash":"?"}) }}));
    }
    json!({"ev": ev, "kinds": kinds, "conc": cs.iter().map(|c| String::from_utf8_lossy(&c[..c.len().min(200)]).to_string()).collect::<Vec<_>>()})
}
