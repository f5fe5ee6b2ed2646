//! Engine C: capability comparison, text, and maps.
use crate::{mint::*, sem::*, util::*};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use ucan::capability::proof::{ProofAction, ProofDelegationSemantics, ProofSelection};
use ucan::capability::*;
use ucan::serde::DagJson;
use ucan::Ucan;

const OTHERS: &str = "not an object";

/// Concrete resource of an abstract capability
fn resource<S: Scope>(c: &Value, nm: &Names, scope: &dyn Fn(&[&str]) -> S) -> Resource<S> {
    let path: Vec<&str> = arr(c, "path").iter().map(|x| x.as_str().unwrap()).collect();
    let kind = if c["wild"] == json!(true) { ResourceUri::Unscoped } else { ResourceUri::Scoped(scope(&path)) };
    match s(c, "form") {
        "my" => Resource::My { kind },
        "as" => Resource::As { did: nm.did(s(c, "did")), kind },
        _ => Resource::Resource { kind },
    }
}

fn fs_scope(p: &[&str]) -> FsScope {
    FsScope(p.iter().map(|x| x.to_string()).collect())
}
fn mb_scope(p: &[&str]) -> MbScope {
    MbScope(p[0].to_string())
}
fn prf_scope(p: &[&str]) -> ProofSelection {
    match p.first() {
        None => ProofSelection::All,
        Some(i) => ProofSelection::Index(i.parse().unwrap()),
    }
}
fn fs_path(x: &FsScope) -> Vec<String> {
    x.0.clone()
}
fn mb_path(x: &MbScope) -> Vec<String> {
    vec![x.0.clone()]
}
fn prf_path(x: &ProofSelection) -> Vec<String> {
    match x {
        ProofSelection::All => vec![],
        ProofSelection::Index(i) => vec![i.to_string()],
    }
}
fn fs_ability(r: i64) -> FsAbility {
    [FsAbility::Read, FsAbility::Append, FsAbility::Admin][r as usize].clone()
}
fn mb_ability(r: i64) -> MbAbility {
    [MbAbility::Send, MbAbility::Own][r as usize].clone()
}
fn prf_ability(_: i64) -> ProofAction {
    ProofAction::Delegate
}

fn view<S: Scope, A: Ability>(c: &Value, nm: &Names, rng: &mut Rng, scope: &dyn Fn(&[&str]) -> S, ab: &dyn Fn(i64) -> A) -> CapabilityView<S, A> {
    let cav = if c["bad"] == json!(true) {
        rng.pick(&value_table().into_iter().filter(|v| !v.is_object()).collect::<Vec<_>>()).clone()
    } else {
        nm.caveat(arr(c, "cav"))
    };
    let r = resource(c, nm, scope);
    if cav == json!({}) && rng.chance(50) {
        CapabilityView::new(r, ab(n(c, "ab")))
    } else {
        CapabilityView::new_with_caveat(r, ab(n(c, "ab")), cav)
    }
}

fn view_json<S: Scope, A: Ability>(v: &Option<CapabilityView<S, A>>, path: &dyn Fn(&S) -> Vec<String>, ability: &dyn Fn(&A) -> i64) -> Value {
    match v {
        None => json!({"ok": false}),
        Some(v) => {
            let (form, did, kind) = match &v.resource {
                Resource::Resource { kind } => ("res", String::new(), kind),
                Resource::My { kind } => ("my", String::new(), kind),
                Resource::As { did, kind } => ("as", did.clone(), kind),
            };
            let (wild, p) = match kind {
                ResourceUri::Unscoped => (true, vec![]),
                ResourceUri::Scoped(x) => (false, path(x)),
            };
            json!({"ok": true, "form": form, "did": did, "wild": wild, "path": p, "ab": ability(v.ability())})
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn rows<S: Scope, A: Ability, M: CapabilitySemantics<S, A>>(
    sem: &M,
    fam: &str,
    caps: &[Value],
    nm: &Names,
    rng: &mut Rng,
    scope: &dyn Fn(&[&str]) -> S,
    ab: &dyn Fn(i64) -> A,
    path: &dyn Fn(&S) -> Vec<String>,
    rank: &dyn Fn(&A) -> i64,
) -> Vec<Value> {
    let vs: Vec<CapabilityView<S, A>> = caps.iter().map(|c| view(c, nm, rng, scope, ab)).collect();
    let mut ev = vec![];
    for (i, a) in vs.iter().enumerate() {
        let (mut en, mut cav, mut panics) = (vec![], vec![], 0);
        for (j, b) in vs.iter().enumerate() {
            match guard(|| a.enables(b)) {
                Some(true) => en.push(j + 1),
                Some(false) => (),
                None => panics += 1,
            }
            let c = guard(|| match (Caveat::try_from(a.caveat()), Caveat::try_from(b.caveat().clone())) {
                (Ok(x), Ok(y)) => x.enables(&y),
                _ => false,
            });
            match c {
                Some(true) => cav.push(j + 1),
                Some(false) => (),
                None => panics += 1,
            }
        }
        ev.push(json!({"e":"row","a":i+1,"en":en,"cav":cav,"panics":panics}));
        // the same view as text and back
        let mut c = caps[i].clone();
        c["did"] = json!(if s(&c, "form") == "as" { nm.did(s(&c, "did")) } else { String::new() });
        let r = guard(|| {
            let t: Capability = if rng.chance(50) { Capability::from(a) } else { Capability::from(a.clone()) };
            let back = if rng.chance(50) { sem.parse_capability(&t) } else { sem.parse(&t.resource, &t.ability, Some(&t.caveat)) };
            (t, back)
        });
        if let Some((t, back)) = r {
            let eq = t.caveat == *a.caveat()
                && back.as_ref().map(|b| b.caveat == a.caveat && b.resource == a.resource && b.ability == a.ability).unwrap_or(false);
            ev.push(json!({"e":"render","fam":fam,"c":c,"text":t.resource,"ability":t.ability,
                           "res":view_json(&back, path, rank),"eq":eq}));
        } else {
            ev.push(json!({"e":"render","fam":fam,"c":c,"text":"","ability":"","res":{"ok":false},"eq":false}));
        }
    }
    ev
}

fn text<S: Scope, A: Ability, M: CapabilitySemantics<S, A>>(
    sem: &M,
    fam: &str,
    text: &str,
    abilities: &[&str],
    rng: &mut Rng,
    path: &dyn Fn(&S) -> Vec<String>,
    rank: &dyn Fn(&A) -> i64,
) -> Value {
    let ability = if rng.chance(12) {
        *rng.pick(&["", "*", "fs/READ", "fs/read ", "ucan/delegate", "ucan/*", "mb", "crud/read", "msg/send"])
    } else {
        *rng.pick(abilities)
    };
    let cav = if rng.chance(20) { None } else { Some(different_values(1, rng).remove(0)) };
    let v = guard(|| match &cav {
        Some(c) if rng.chance(50) => sem.parse_capability(&Capability::new(text.into(), ability.into(), c.clone())),
        c => sem.parse(text, ability, c.as_ref()),
    });
    let cavout = match &v {
        Some(Some(v)) => v.caveat().to_string(),
        _ => "".into(),
    };
    let res = match &v {
        Some(v) => view_json(v, path, rank),
        None => json!({"ok": false, "panic": true}),
    };
    json!({"e":"text","fam":fam,"text":text,"ability":ability,"cavin":cav.map(|c| c.to_string()).unwrap_or("none".into()),
           "res":res,"cavout":cavout})
}

struct MapNames {
    names: BTreeMap<&'static str, String>,
    cavs: BTreeMap<String, Value>,
}

impl MapNames {
    fn new(rng: &mut Rng, many: bool) -> Self {
        let res = ["mailto:u@example.com", "fs:/a", "", "*", "é", "a\"b", "prf:0", "my:*", "z".repeat(300).leak(), "x y", "0", "null", "fs:/a/", "https://Example.com/a%2fb/../c?q#f", "FS:/A", "é/e\u{301}"];
        let abs = ["msg/send", "*", "", "é/ü", "a", "ucan/DELEGATE", "A", "0", "wnfs/append", "\u{0}"];
        let cavs = [json!({}), json!({"draft": true}), json!({"x": null}), json!({"x": {}}), json!({"a": [1, {"b": null}]}),
                    json!({"": ""}), json!({"n": 18446744073709551615u64}), json!({"é": "é"}), json!({"f": 1.5})];
        let two = |rng: &mut Rng, n: usize| {
            let a = rng.below(n);
            (a, (a + 1 + rng.below(n - 1)) % n)
        };
        let mut names = BTreeMap::new();
        // two different names, often hardly different
        let mut pair = |table: &[&str]| -> (String, String) {
            let (a, b) = two(rng, table.len());
            let a = table[a].to_string();
            if rng.chance(50) {
                return (a, table[b].to_string());
            }
            let b = match rng.below(12) {
                0 => format!("{a}/"),
                1 => format!("{a}//"),
                2 => format!("{a} "),
                3 => format!(" {a}"),
                4 => format!("{a}#"),
                5 => format!("{a}?"),
                6 => format!("{a}\u{0}"),
                7 => format!("{a}*"),
                8 => format!("{a}/."),
                9 => format!("{a}%20"),
                10 => format!("./{a}"),
                _ => a.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            };
            if a == b {
                return (a.clone(), format!("{a}/"));
            }
            if rng.chance(50) { (a, b) } else { (b, a) }
        };
        let (a, b) = pair(&res);
        names.insert("r1", a);
        names.insert("r2", b);
        let (a, b) = pair(&abs);
        names.insert("a1", a);
        names.insert("a2", b);
        let object = |rng: &mut Rng| {
            if rng.chance(40) {
                return rng.pick(&cavs).clone();
            }
            match rng.chance(50) {
                true => json!({rand_key(rng): rng.pick(&value_table()).clone()}),
                false => rand_object(rng, 2),
            }
        };
        let near = |v: &Value, rng: &mut Rng| Some(near_value(v, rng)).filter(Value::is_object).unwrap_or(json!({}));
        let cavs: Vec<Value> = different(if many { 40 } else { 2 }, rng, object, near);
        let cavs: BTreeMap<String, Value> = cavs.into_iter().enumerate().map(|(i, c)| (format!("c{}", i + 1), c)).collect();
        if many {
            for i in 3..=12 {
                names.insert(format!("r{i}").leak(), format!("res:{}/{}", i % 3, "x".repeat(i)));
                names.insert(format!("a{i}").leak(), format!("do/{}{}", i % 5, "y".repeat(i)));
            }
        }
        MapNames { names, cavs }
    }
    fn bad(&self, rng: &mut Rng) -> Value {
        rng.pick(&[json!(null), json!(false), json!(0), json!("x"), json!([]), json!([{}]), json!("{}"), json!(1.5)]).clone()
    }
    fn cav(&self, c: &str, rng: &mut Rng) -> Value {
        self.cavs.get(c).cloned().unwrap_or_else(|| self.bad(rng))
    }
    fn abs_name(&self, x: &str, kind: char) -> String {
        self.names
            .iter()
            .find(|(k, v)| k.starts_with(kind) && v.as_str() == x)
            .map(|(k, _)| k.to_string())
            .unwrap_or_else(|| format!("?{x}"))
    }
    fn abs_cav(&self, c: &Value) -> String {
        self.cavs.iter().find(|(_, v)| *v == c).map(|(k, _)| k.to_string()).unwrap_or_else(|| format!("?{c}"))
    }
    fn out(&self, caps: &Capabilities) -> (Value, Value) {
        let out = caps
            .iter()
            .map(|c| json!([self.abs_name(&c.resource, 'r'), self.abs_name(&c.ability, 'a'), self.abs_cav(&c.caveat)]))
            .collect::<Vec<_>>();
        let abs = caps
            .iter_abilities()
            .map(|(r, a)| json!([self.abs_name(r, 'r'), self.abs_name(a, 'a')]))
            .collect::<Vec<_>>();
        (Value::Array(out), Value::Array(abs))
    }
    fn concrete(&self, j: &Value, rng: &mut Rng, cav_ctx: bool) -> Value {
        match s(j, "k") {
            "obj" => {
                let mut m = Map::new();
                for kv in arr(j, "f") {
                    m.insert(self.names[kv[0].as_str().unwrap()].clone(), self.concrete(&kv[1], rng, cav_ctx));
                }
                Value::Object(m)
            }
            "arr" => Value::Array(arr(j, "e").iter().map(|x| self.concrete(x, rng, true)).collect()),
            // in place of a map of abilities, nothing that is one
            "cav" if !cav_ctx => rng.pick(&[json!({"draft": true}), json!({"msg/send": {}}), json!({"msg/send": [{}], "x": null})]).clone(),
            "cav" => self.cavs[s(j, "c")].clone(),
            _ => {
                // never an object, and no list where a list could be right
                let v = self.bad(rng);
                if v.is_array() && !cav_ctx { json!(OTHERS) } else { v }
            }
        }
    }
}

trait IterAbilities {
    fn iter_abilities(&self) -> Box<dyn Iterator<Item = (&String, &String)> + '_>;
}
impl IterAbilities for Capabilities {
    fn iter_abilities(&self) -> Box<dyn Iterator<Item = (&String, &String)> + '_> {
        Box::new((**self).iter().flat_map(|(r, m)| m.keys().map(move |a| (r, a))))
    }
}

fn outcome<E: Debug>(nm: &MapNames, r: Option<Result<Capabilities, E>>) -> (String, Value, Value) {
    let v = verdict(&r).to_string();
    if let Some(Ok(c)) = &r {
        if let Some((o, a)) = guard(|| nm.out(c)) {
            return (v, o, a);
        }
        return ("panic".into(), json!([]), json!([]));
    }
    (v, json!([]), json!([]))
}

fn token_with(cap: &Value, rng: &mut Rng) -> String {
    let key = principal_key("A", "ed");
    let lay = *rng.pick(&["canon", "pretty", "reorder", "escaped"]);
    mint(
        &json!({"alg":"EdDSA","typ":"JWT"}),
        &json!({"ucv":"0.10.0-canary","iss":key.did(),"aud":key.did(),"exp":null,"cap":cap}),
        lay, &key, "self", "intact", "", rng,
    )
}

fn map_events(scen: &Value, rng: &mut Rng) -> Vec<Value> {
    let mut ev = vec![];
    let big = scen.to_string();
    let nm = MapNames::new(rng, (3..=40).any(|i| ["r", "a", "c"].iter().any(|k| big.contains(&format!("\"{k}{i}\"")))));
    if s(scen, "kind") == "list" {
        let list: Vec<Capability> = arr(scen, "list")
            .iter()
            .map(|e| {
                let g = |i: usize| nm.names[e[i].as_str().unwrap()].clone();
                let c = nm.cav(e[2].as_str().unwrap(), rng);
                Capability::from((g(0), g(1), c))
            })
            .collect();
        let r = guard(|| Capabilities::try_from(list.clone()));
        let (res, out, _) = outcome(&nm, r);
        let again = res == "ok";
        ev.push(json!({"e":"list","list":scen["list"],"res":res,"out":out}));
        if again {
            // the listing as a list once more
            let r = guard(|| Capabilities::try_from(Capabilities::try_from(list.clone()).unwrap().iter().collect::<Vec<_>>()));
            let (res, out, _) = outcome(&nm, r);
            ev.push(json!({"e":"list","list":scen["list"],"res":res,"out":out,"via":"twice"}));
            // and serialized
            let r = guard(|| serde_json::to_value(Capabilities::try_from(list.clone()).unwrap()).and_then(serde_json::from_value::<Capabilities>));
            let (res, out, _) = outcome(&nm, r);
            ev.push(json!({"e":"list","list":scen["list"],"res":res,"out":out,"via":"serde"}));
        }
        return ev;
    }
    let v = nm.concrete(&scen["json"], rng, false);
    let mut add = |via: &str, r: (String, Value, Value)| {
        ev.push(json!({"e":"json","json":scen["json"],"via":via,"res":r.0,"out":r.1,"abs":r.2}));
    };
    add("value", outcome(&nm, guard(|| Capabilities::try_from(&v))));
    add("from_value", outcome(&nm, guard(|| serde_json::from_value::<Capabilities>(v.clone()))));
    add("from_str", outcome(&nm, guard(|| serde_json::from_str::<Capabilities>(&json_text(&v, rng.chance(30), rng.chance(30), rng.chance(30))))));
    add("dag_json", outcome(&nm, guard(|| Capabilities::from_dag_json(v.to_string().as_bytes()))));
    if let Ok(m) = serde_json::from_value::<BTreeMap<String, BTreeMap<String, Vec<Value>>>>(v.clone()) {
        add("map", outcome(&nm, guard(|| Capabilities::try_from(m))));
    }
    let t = token_with(&v, rng);
    let token = |t: &str| Ucan::try_from(t).map(|u| u.capabilities().clone());
    add("token", outcome(&nm, guard(|| token(&t))));
    ev
}

fn texts(t: &str, rng: &mut Rng) -> Vec<Value> {
    vec![
        text(&FsSem, "fs", t, &FS_ABILITIES, rng, &fs_path, &|a: &FsAbility| a.rank()),
        text(&MbSem, "mb", t, &MB_ABILITIES, rng, &mb_path, &|a: &MbAbility| a.rank()),
        text(&ProofDelegationSemantics {}, "prf", t, &["ucan/DELEGATE"], rng, &prf_path, &|_: &ProofAction| 0),
    ]
}

pub fn run(scen: &Value, rng: &mut Rng) -> Value {
    let mut conc = Map::new();
    let ev = match s(scen, "kind") {
        "rows" => {
            let caps = arr(scen, "caps");
            let mut nm = crate::d::names_for(rng, "ed", true);
            // three pairwise different values and keys
            for (v, name) in different_values(3, rng).into_iter().zip(["v1", "v2", "v3"]) {
                nm.vals.insert(name.into(), v);
            }
            for (k, name) in different_keys(3, rng).into_iter().zip(["x", "y", "z"]) {
                nm.keys.insert(name.into(), k);
            }
            conc.insert("vals".into(), json!(nm.vals));
            conc.insert("keys".into(), json!(nm.keys));
            match caps.first().map(|c| s(c, "fam")).unwrap_or("fs") {
                "fs" => rows(&FsSem, "fs", caps, &nm, rng, &fs_scope, &fs_ability, &fs_path, &|a: &FsAbility| a.rank()),
                "mb" => rows(&MbSem, "mb", caps, &nm, rng, &mb_scope, &mb_ability, &mb_path, &|a: &MbAbility| a.rank()),
                _ => rows(&ProofDelegationSemantics {}, "prf", caps, &nm, rng, &prf_scope, &prf_ability, &prf_path, &|_: &ProofAction| 0),
            }
        }
        "text" => texts(s(scen, "text"), rng),
        "texts" => arr(scen, "texts").iter().flat_map(|t| texts(t.as_str().unwrap(), rng)).collect(),
        _ => map_events(scen, rng),
    };
    let caps = scen.get("caps").cloned().unwrap_or(json!([]));
    json!({"ev": ev, "conc": conc, "caps": caps})
}
