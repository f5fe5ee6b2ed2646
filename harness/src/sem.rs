//! Application semantics used by the harness, and the abstraction of capabilities.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use ucan::capability::*;
use url::Url;

/// `fs:/a/b`: a path contains everything below it
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct FsScope(pub Vec<String>);
impl Scope for FsScope {
    fn contains(&self, other: &Self) -> bool {
        other.0.len() >= self.0.len() && other.0[..self.0.len()] == self.0[..]
    }
}
impl ToString for FsScope {
    fn to_string(&self) -> String {
        format!("fs:/{}", self.0.join("/"))
    }
}
impl TryFrom<Url> for FsScope {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, Self::Error> {
        if u.scheme() != "fs" || u.has_host() {
            anyhow::bail!("not a file scope")
        }
        let p = u.path();
        let p = p.strip_prefix('/').ok_or_else(|| anyhow::anyhow!("relative path"))?;
        Ok(FsScope(p.split('/').filter(|x| !x.is_empty()).map(String::from).collect()))
    }
}

/// `mb:name`: mailboxes, contained only in themselves
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MbScope(pub String);
impl Scope for MbScope {
    fn contains(&self, other: &Self) -> bool {
        self == other
    }
}
impl ToString for MbScope {
    fn to_string(&self) -> String {
        format!("mb:{}", self.0)
    }
}
impl TryFrom<Url> for MbScope {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, Self::Error> {
        if u.scheme() != "mb" || u.has_host() || u.path().is_empty() || u.path().contains([':', '/']) {
            anyhow::bail!("not a mailbox")
        }
        Ok(MbScope(u.path().to_string()))
    }
}

macro_rules! ability {
    ($name:ident, $($v:ident = $t:literal),*) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
        pub enum $name { $($v),* }
        impl Ability for $name {}
        impl ToString for $name {
            fn to_string(&self) -> String { match self { $($name::$v => $t.to_string()),* } }
        }
        impl TryFrom<String> for $name {
            type Error = anyhow::Error;
            fn try_from(s: String) -> Result<Self, Self::Error> {
                match s.as_str() { $($t => Ok($name::$v),)* _ => anyhow::bail!("unknown ability") }
            }
        }
        impl $name { pub fn rank(&self) -> i64 { self.clone() as i64 } }
    };
}
// the order of the names is deliberately not alphabetical
ability!(FsAbility, Read = "fs/read", Append = "fs/append", Admin = "fs/admin");
ability!(MbAbility, Send = "mb/send", Own = "mb/own");

pub struct FsSem;
impl CapabilitySemantics<FsScope, FsAbility> for FsSem {}
pub struct MbSem;
impl CapabilitySemantics<MbScope, MbAbility> for MbSem {}

pub const FS_ABILITIES: [&str; 3] = ["fs/read", "fs/append", "fs/admin"];
pub const MB_ABILITIES: [&str; 2] = ["mb/send", "mb/own"];

/// How abstract names are made concrete in one scenario
#[derive(Clone, Default)]
pub struct Names {
    /// abstract caveat key -> concrete
    pub keys: BTreeMap<String, String>,
    /// abstract caveat value -> concrete
    pub vals: BTreeMap<String, Value>,
    /// principal -> DID
    pub dids: BTreeMap<String, String>,
}

impl Names {
    pub fn did(&self, p: &str) -> String {
        self.dids.get(p).cloned().unwrap_or_else(|| p.to_string())
    }
    pub fn principal(&self, did: &str) -> String {
        self.dids
            .iter()
            .find(|(_, d)| d.as_str() == did)
            .map(|(p, _)| p.clone())
            .unwrap_or_else(|| format!("?{did}"))
    }
    pub fn key(&self, k: &str) -> String {
        self.keys.get(k).cloned().unwrap_or_else(|| k.to_string())
    }
    pub fn val(&self, v: &str) -> Value {
        self.vals.get(v).cloned().unwrap_or_else(|| json!(v))
    }
    pub fn caveat(&self, cav: &[Value]) -> Value {
        let mut m = Map::new();
        for e in cav {
            m.insert(self.key(e[0].as_str().unwrap()), self.val(e[1].as_str().unwrap()));
        }
        Value::Object(m)
    }
    pub fn abs_caveat(&self, v: &Value) -> (bool, Value) {
        match v {
            Value::Object(m) => (
                false,
                Value::Array(
                    m.iter()
                        .map(|(k, v)| {
                            let ak = self
                                .keys
                                .iter()
                                .find(|(_, c)| *c == k)
                                .map(|(a, _)| a.clone())
                                .unwrap_or_else(|| format!("?{k}"));
                            let av = self
                                .vals
                                .iter()
                                .find(|(_, c)| *c == v)
                                .map(|(a, _)| a.clone())
                                .unwrap_or_else(|| format!("?{v}"));
                            json!([ak, av])
                        })
                        .collect(),
                ),
            ),
            _ => (true, json!([])),
        }
    }
    /// Text of an abstract capability's resource and ability, and its caveat
    pub fn text(&self, c: &Value) -> (String, String, Value) {
        let fam = c["fam"].as_str().unwrap();
        let path: Vec<&str> = c["path"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let wild = c["wild"].as_bool().unwrap();
        let form = c["form"].as_str().unwrap();
        let inner = match (fam, wild) {
            ("fs", false) => format!("fs:/{}", path.join("/")),
            ("mb", false) => format!("mb:{}", path[0]),
            (_, true) if form == "res" => format!("{fam}:*"),
            (_, true) => "*".to_string(),
            _ => unreachable!(),
        };
        let res = match form {
            "my" => format!("my:{inner}"),
            "as" => format!("as:{}:{inner}", self.did(c["did"].as_str().unwrap())),
            _ => inner,
        };
        let ab = c["ab"].as_u64().unwrap() as usize;
        let ability = if fam == "fs" { FS_ABILITIES[ab] } else { MB_ABILITIES[ab] };
        (res, ability.to_string(), self.caveat(c["cav"].as_array().unwrap()))
    }
    fn abs<S: Scope, A: Ability>(
        &self,
        fam: &str,
        v: &CapabilityView<S, A>,
        path: impl Fn(&S) -> Vec<String>,
        rank: impl Fn(&A) -> i64,
    ) -> Value {
        let (form, did, kind) = match &v.resource {
            Resource::Resource { kind } => ("res", String::new(), kind),
            Resource::My { kind } => ("my", String::new(), kind),
            Resource::As { did, kind } => ("as", self.principal(did), kind),
        };
        let (wild, p) = match kind {
            ResourceUri::Unscoped => (true, vec![]),
            ResourceUri::Scoped(s) => (false, path(s)),
        };
        let (bad, cav) = self.abs_caveat(&v.caveat);
        json!({"fam": fam, "form": form, "did": did, "wild": wild, "path": p,
               "ab": rank(&v.ability), "bad": bad, "cav": cav})
    }
    pub fn abs_fs(&self, v: &CapabilityView<FsScope, FsAbility>) -> Value {
        self.abs("fs", v, |s| s.0.clone(), |a| a.rank())
    }
    pub fn abs_mb(&self, v: &CapabilityView<MbScope, MbAbility>) -> Value {
        self.abs("mb", v, |s| vec![s.0.clone()], |a| a.rank())
    }
}
