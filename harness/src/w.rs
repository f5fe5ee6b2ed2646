//! Engine W: token text.
use crate::{json::*, mint::*, util::*};
use cid::multihash::Code;
use cid::Cid;
use futures::executor::block_on;
use serde_json::{json, Map, Value};
use std::str::FromStr;
use ucan::Ucan;

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn text_of(rng: &mut Rng) -> String {
    if rng.chance(20) {
        return rand_text(rng);
    }
    rng.pick(&[
        "x", "", "did:key:z6MkX", "did:web:e.com", "0.10.0-canary", "JWT", "é\u{1F600}", "a\"b\\c/d\n\t\u{0}\u{7f}", "null", "EdDSA", " ", "e\u{301}",
        "\u{2028}", "\u{feff}", "a.b",
    ])
    .to_string()
}

/// a JSON value of a kind
fn of_kind(k: &str, rng: &mut Rng) -> Option<Value> {
    let big = |t: &str| serde_json::from_str::<Value>(t).unwrap();
    Some(match k {
        "missing" => return None,
        "null" => Value::Null,
        "str" => json!(text_of(rng)),
        "uint" => json!(*rng.pick(&[0u64, 1, 9, 1_700_000_000, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX])),
        "neg" => json!(*rng.pick(&[-1i64, i64::MIN, -1_700_000_000])),
        "big" => big(*rng.pick(&["18446744073709551616", "100000000000000000000000", "-9223372036854775809"])),
        "float" => big(*rng.pick(&["1.5", "1.0", "1e3", "0.0", "-1.5", "1e30", "6.934698245112694e+276", "0.1000000000000000055511151231257827", "8.383658838626809e-78"])),
        "bool" => json!(rng.chance(50)),
        "strs" => json!((0..rng.below(4)).map(|_| text_of(rng)).collect::<Vec<_>>()),
        "mixed" => json!(rng.pick(&[json!(["x", 1]), json!([null]), json!([["x"]]), json!([true, "x"])])),
        "objs" => json!([{}, {"a": "b"}]),
        "obj" => {
            let mut m = Map::new();
            for _ in 0..rng.below(4) {
                m.insert(rand_key(rng), different_values(1, rng).remove(0));
            }
            Value::Object(m)
        }
        // capability maps
        "empty" => json!({}),
        "two" => {
            let v = |rng: &mut Rng| json!({rand_key(rng): different_values(1, rng).remove(0)});
            json!({"mailto:a": {"msg/send": [{}, v(rng)], "msg/recv": [v(rng)]}, rand_key(rng): {rand_key(rng): [v(rng), {}]}})
        }
        "noabilities" => json!({"mailto:a": {"msg/send": [{}]}, "mailto:b": {}}),
        "nolist" => json!({"mailto:a": {"msg/send": *rng.pick(&[&json!({}), &json!("x"), &json!(null), &json!(1)])}}),
        "badcav" => json!({"mailto:a": {"msg/send": [{}, *rng.pick(&[&json!("x"), &json!(1), &json!([]), &json!([{}]), &json!(true)])]}}),
        "nullcav" => json!({"mailto:a": {"msg/send": [null]}}),
        "badab" => json!({"mailto:a": *rng.pick(&[&json!([]), &json!("x"), &json!(null), &json!([{"msg/send": [{}]}])])}),
        "emptylist" => json!({"mailto:a": {"msg/send": []}}),
        other => panic!("harness: unknown kind {other}"),
    })
}

struct Parts {
    h: Vec<u8>,
    p: Vec<u8>,
    sig: Vec<u8>,
}

fn base(dev: &[Value], rng: &mut Rng) -> Parts {
    let key = principal_key(rng.pick(&["A", "B", "C"]), rng.pick(&["ed", "p256", "rsa", "ed"]));
    let mut h = json!({"alg": key.alg(), "typ": "JWT"});
    let mut p = json!({"ucv": "0.10.0-canary", "iss": key.did(), "aud": "did:key:z6MkAud", "exp": null, "cap": {}});
    if !rng.chance(40) {
        p["cap"] = of_kind("two", rng).unwrap();
    }
    for d in dev {
        let (doc, f) = d[0].as_str().unwrap().split_once('.').unwrap();
        let m = if doc == "h" { &mut h } else { &mut p }.as_object_mut().unwrap();
        match of_kind(d[1].as_str().unwrap(), rng) {
            None => {
                m.remove(f);
            }
            // keep good values meaningful
            Some(Value::String(_)) if ["iss", "alg"].contains(&f) && rng.chance(50) => {}
            Some(v) => {
                m.insert(f.into(), v);
            }
        }
    }
    let lay = if dev.is_empty() || h["alg"].is_string() { *rng.pick(&["canon", "pretty", "reorder", "extra", "escaped", "header"]) } else { "canon" };
    let (h, p) = layout(&h, &p, lay);
    let sig = if rng.chance(20) { { let n = *rng.pick(&[0usize, 1, 2, 3, 63, 64, 65, 72, 96, 128, 256, 257, 512, 513, 1024, 1025, 4097, 20000]); rng.bytes(n) } } else { key.sign(format!("{}.{}", b64(&h), b64(&p)).as_bytes()) };
    Parts { h: h.into(), p: p.into(), sig }
}

fn framed(mut t: Parts, frame: &str, rng: &mut Rng) -> String {
    let n = frame.bytes().last().unwrap_or(0).wrapping_sub(b'1') as usize;
    let name = if n < 3 { &frame[..frame.len() - 1] } else { frame };
    // what happens to a document
    {
        let d = if n == 0 { &mut t.h } else { &mut t.p };
        let other = *rng.pick(&[&b"{}"[..], b"null", b"1", b"[]", b"\"x\""]);
        match name {
            "ws" => *d = [b" \t\r\n".as_slice(), d, b"\n\n "].concat(),
            "twodocs" => *d = if rng.chance(50) { [d.as_slice(), rng.pick(&[&b""[..], b" ", b"\n"]), other].concat() } else { [other, b" ", d].concat() },
            "garbage" => d.extend(*rng.pick(&[&b"x"[..], b"}", b"]", b"\0", b"\xff", b"//", b"\"", b"\x0b", b"\xc2\xa0"])),
            "comma" => {
                if rng.chance(50) {
                    d.push(b',')
                } else {
                    d.pop();
                    d.extend(b",}");
                }
            }
            "bom" => *d = [b"\xef\xbb\xbf", d.as_slice()].concat(),
            "array" => *d = [b"[", d.as_slice(), b"]"].concat(),
            // the values of the fields in order, as some readers would take for the object
            "seq" => {
                *d = if n == 0 {
                    b"[\"EdDSA\",\"JWT\"]".to_vec()
                } else {
                    b"[\"0.10.0-canary\",\"did:key:z6MkI\",\"did:key:z6MkA\",null,null,null,{},null,null]".to_vec()
                }
            }
            "string" => *d = serde_json::to_vec(&String::from_utf8_lossy(d)).unwrap(),
            "null" => *d = other.to_vec(),
            "cut" => {
                let k = 1 + rng.below(d.len() - 1);
                d.truncate(k)
            }
            "utf8" => {
                let k = d.iter().position(|c| *c == b'J' || *c == b'0').unwrap_or(2);
                d[k] = *rng.pick(&[0x80, 0xff, 0xc0, 0xed]);
            }
            "empty" if n < 2 => d.clear(),
            _ => {}
        }
    }
    if frame == "empty3" {
        t.sig.clear();
    }
    let mut segs = vec![b64(&t.h), b64(&t.p), b64(&t.sig)];
    // what happens to the base64 text
    if n < 3 {
        let sg = &mut segs[n];
        match name {
            "pad" => {
                // as other encoders would pad it, or more
                let k = if sg.len() % 4 == 0 { 4 } else { 4 - sg.len() % 4 };
                sg.push_str(&"====="[..if rng.chance(70) { k } else { 1 + rng.below(4) }]);
            }
            "std" => {
                let k = rng.below(sg.len().max(1));
                let c = *rng.pick(&["+", "/", "=", "%", "!", "é", "\u{0}"]);
                if let Some(j) = sg.find(['-', '_']) {
                    let to = if sg.as_bytes()[j] == b'-' { "+" } else { "/" };
                    sg.replace_range(j..j + 1, to);
                } else if sg.is_empty() {
                    sg.push_str(c);
                } else {
                    sg.replace_range(k..k + 1, c);
                }
            }
            "spare" => {
                if sg.len() % 4 < 2 {
                    // one byte more makes room for spare bits, in white space or in the signature
                    let x = [unb64(sg).unwrap(), b" ".to_vec()].concat();
                    *sg = b64(x);
                }
                if sg.len() % 4 >= 2 {
                    let last = B64.iter().position(|c| *c == *sg.as_bytes().last().unwrap()).unwrap();
                    sg.pop();
                    let free = if sg.len() % 4 == 1 { 15 } else { 3 };
                    sg.push(B64[last | (1 + rng.below(free))] as char);
                }
            }
            "space" => {
                let k = rng.below(sg.len() + 1);
                sg.insert_str(k, rng.pick(&[" ", "\n", "\t", "\r\n"]));
            }
            _ => {}
        }
    }
    let all = segs.join(".");
    match frame {
        "one" => segs[rng.below(3)].clone(),
        "two" => segs[rng.below(2)..].iter().take(2).cloned().collect::<Vec<_>>().join("."),
        "four" => {
            let k = rng.below(4);
            segs.insert(k, rng.pick(&["", "AA", "e30"]).to_string());
            segs.join(".")
        }
        "five" => format!("{all}.{all}"),
        "trail" => all + ".",
        "lead" => format!(".{all}"),
        "swap" => {
            segs.swap(0, 1);
            segs.join(".")
        }
        // as it may be handed over
        "wrapa" | "wrapb" | "wrapc" | "wrapd" => {
            let pre = *rng.pick(&["Bearer ", "bearer ", "Bearer:", "UCAN ", "ucan:", "jwt:", "JWT ", "ucan=", "token=", "data:,", "ipfs://", "urn:ucan:", "u", "z", "f", "\u{feff}", "0x"]);
            let post = *rng.pick(&["?", "#", "&", "=", ";", ",", "/", "==", " ", "\0", "#sig", "?x=y", ".#", "~"]);
            match rng.below(5) {
                0 | 1 => format!("{pre}{all}"),
                2 => format!("{all}{post}"),
                3 => format!("\"{all}\""),
                _ => { let (a, z) = *rng.pick(&[("<", ">"), ("(", ")"), ("'", "'"), ("[", "]"), (" ", " "), ("..", ".."), ("\"", "\"\n")]); format!("{a}{all}{z}") }
            }
        }
        "dots" => all + &".".repeat(1 + rng.below(5)),
        "nl" => all + *rng.pick(&["\n", "\r\n", " "]),
        "latin" => all.replace('.', "\u{b7}"),
        "single" => rng.pick(&["", ".", "..", "...", " ", "a", "a.b", "a.b.c", "e30.e30.", "bnVsbA.bnVsbA."]).to_string(),
        "upper" => all.to_uppercase(),
        "nul" => {
            let k = rng.below(all.len());
            format!("{}\0{}", &all[..k], &all[k..])
        }
        _ => all,
    }
}

fn edit_bytes(v: &mut Vec<u8>, how: &str, text: bool, rng: &mut Rng) {
    if v.is_empty() {
        return v.push(b'e');
    }
    let k = rng.below(v.len());
    let lex: &[&[u8]] = &[
        b"{", b"}", b"[", b"]", b":", b",", b"\"", b"\\", b"null", b"true", b"0", b"-", b"1e5", b"1e999", b".5", b"01", b"\"iss\":\"x\",", b"\"/\":\"x\",", b"\"exp\":1,",
        b"\\u0000", b"\\ud800", b"\\ud83d\\ude00", b"\\x", b"\xc2\xa0", b"\xef\xbb\xbf", b"/**/", b"'", b"\xff", b"\0", b"\x01", b"NaN", b"\"a\":{\"b\":[1,2.50,-3]},",
    ];
    match how {
        "flip" => v[k] ^= 1 << rng.below(if text { 7 } else { 8 }),
        "del" => {
            v.remove(k);
        }
        "ins" => {
            let c = if text { *rng.pick(b"ABab09-_.=+/ ") } else { rng.next() as u8 };
            v.insert(k, c)
        }
        "dup" => {
            let e = (k + 1 + rng.below(8)).min(v.len());
            let x = v[k..e].to_vec();
            v.splice(k..k, x);
        }
        "cut" => v.truncate(k),
        "swap" => {
            let j = rng.below(v.len());
            v.swap(j, k)
        }
        "ws" => {
            let c = *rng.pick(b" \n\t\r");
            v.insert(k, c)
        }
        "case" => v[k] = if v[k].is_ascii_lowercase() { v[k].to_ascii_uppercase() } else { v[k].to_ascii_lowercase() },
        "lex" => {
            // where a lexeme starts, mostly
            let at: Vec<usize> = (0..=v.len()).filter(|i| *i == 0 || b"{}[]:,\"".contains(&v[*i - 1])).collect();
            let k = if rng.chance(80) { *rng.pick(&at) } else { k };
            if text {
                v.splice(k..k, b"..".to_vec());
            } else {
                let l = rng.pick(lex).to_vec();
                v.splice(k..k, l);
            }
        }
        other => panic!("harness: unknown edit {other}"),
    }
}

/// What the segments of a text are, by the harness's own reading
fn describe(text: &str) -> (Vec<Value>, bool, [Option<J>; 2]) {
    let mut out = vec![];
    let mut odd = false;
    let mut docs = [None, None];
    for (i, sg) in text.split('.').enumerate() {
        let alpha = sg.bytes().all(|c| B64.contains(&c));
        let (mut bits, mut have, mut bytes) = (0u32, 0, vec![]);
        if alpha {
            for c in sg.bytes() {
                bits = (bits << 6 | B64.iter().position(|x| *x == c).unwrap() as u32) & 0xffff;
                have += 6;
                if have >= 8 {
                    have -= 8;
                    bytes.push((bits >> have) as u8);
                }
            }
        }
        let spare = if alpha { bits & ((1 << have) - 1) } else { 0 };
        let mut d = json!({"n": sg.len(), "alpha": alpha, "spare": spare});
        if i < 2 {
            let good = alpha && sg.len() % 4 != 1 && spare == 0;
            let doc = if good { read(&bytes) } else { None };
            odd |= doc.as_ref().is_some_and(|x| x.1);
            let doc = doc.map(|x| x.0);
            let fields: &[&str] = if i == 0 { &["alg", "typ"] } else { &["ucv", "iss", "aud", "exp", "nbf", "nnc", "fct", "prf", "cap"] };
            let kinds: Map<String, Value> = fields.iter().map(|f| (f.to_string(), json!(J::kind(doc.as_ref().and_then(|d| d.get(f)))))).collect();
            d["doc"] = json!(match &doc {
                None => "none",
                Some(J::Obj(_)) => "obj",
                Some(_) => "value",
            });
            d["f"] = Value::Object(kinds);
            d["cap"] = doc.as_ref().and_then(|d| d.get("cap")).map(|c| c.node(0)).unwrap_or(json!({"k":"other"}));
            docs[i] = doc;
        }
        out.push(d);
    }
    (out, odd, docs)
}

pub fn short(t: &str) -> String {
    if t.len() < 300 {
        t.to_string()
    } else {
        format!("#{}", raw_cid(t.as_bytes(), Code::Sha2_256))
    }
}

#[allow(deprecated)]
pub fn accessors(u: &Ucan) -> Value {
    let o = |v: Option<Value>| J::from(&v.unwrap_or(Value::Null)).canon();
    let mut caps = Map::new();
    for (r, abs) in std::ops::Deref::deref(u.capabilities()) {
        let mut m = Map::new();
        for (a, cs) in abs {
            m.insert(a.clone(), Value::Array(cs.clone()));
        }
        caps.insert(r.clone(), Value::Object(m));
    }
    if u.attenuation() != u.capabilities() {
        caps.insert("attenuation() differs".into(), Value::Null);
    }
    json!({
        "alg": o(Some(json!(u.algorithm()))), "ucv": o(Some(json!(u.version()))), "iss": o(Some(json!(u.issuer()))),
        "aud": o(Some(json!(u.audience()))), "exp": o(u.expires_at().map(|x| json!(x))), "nbf": o(u.not_before().map(|x| json!(x))),
        "nnc": o(u.nonce().clone().map(|x| json!(x))), "cap": o(Some(Value::Object(caps))),
        "fct": o(u.facts().clone().map(|x| json!(x))), "prf": o(u.proofs().clone().map(|x| json!(x))),
    })
}

fn sigverdict(u: &Ucan) -> &'static str {
    let mut p = new_parser();
    verdict(&guard(|| block_on(u.check_signature(&mut p))))
}

pub fn observe(text: &str) -> Value {
    let (w, odd, docs) = describe(text);
    let rs = [
        guard(|| Ucan::from_str(text)),
        guard(|| Ucan::try_from(text)),
        guard(|| Ucan::try_from(text.to_string())),
    ];
    let mut res: Vec<&str> = rs.iter().map(verdict).collect();
    let us: Vec<&Ucan> = rs.iter().filter_map(|r| r.as_ref()?.as_ref().ok()).collect();
    if us.windows(2).any(|p| p[0] != p[1]) {
        res.push("unequal");
    }
    let mut e = json!({"e":"parse","w":w,"odd":odd,"res":res});
    if let Some(u) = us.first() {
        let enc = guard(|| u.encode()).and_then(|x| x.ok()).unwrap_or("?".into());
        let again = guard(|| Ucan::from_str(&enc)).and_then(|x| x.ok());
        e["text"] = json!(short(text));
        e["enc"] = json!(short(&enc));
        e["again"] = json!(if again.as_ref() == Some(*u) { "equal" } else { "unequal" });
        e["cids"] = json!(HASHES
            .iter()
            .map(|(n, c)| json!([n, raw_cid(text.as_bytes(), *c).to_string(), guard(|| u.to_cid(*c)).and_then(|x| x.ok()).map(|x: Cid| x.to_string()).unwrap_or("?".into())]))
            .collect::<Vec<_>>());
        e["data"] = json!(short(&String::from_utf8_lossy(u.signed_data())));
        e["text2"] = json!(short(&text[..text.rfind('.').unwrap_or(0)]));
        e["sig"] = json!([sigverdict(u), again.map(|a| sigverdict(&a)).unwrap_or("?")]);
        e["acc"] = accessors(u);
        let f = |i: usize, k: &str| docs[i].as_ref().and_then(|d| d.get(k)).unwrap_or(&J::Null).canon();
        e["want"] = json!({"alg": f(0, "alg")});
        for k in ["ucv", "iss", "aud", "exp", "nbf", "nnc", "cap", "fct", "prf"] {
            e["want"][k] = json!(f(1, k));
        }
    }
    e
}

pub fn run(scen: &Value, rng: &mut Rng) -> Value {
    let mut ev = vec![];
    let mut conc = vec![];
    match s(scen, "kind") {
        "dev" => {
            let t = base(arr(scen, "dev"), rng);
            let text = framed(t, s(scen, "frame"), rng);
            ev.push(observe(&text));
            conc.push(text);
        }
        "edits" => {
            for tok in arr(scen, "toks") {
                let mut t = base(arr(tok, "opt"), rng);
                let (mut pre, mut post) = (vec![], vec![]);
                for e in arr(tok, "edits") {
                    match s(e, "at") {
                        "h" => edit_bytes(&mut t.h, s(e, "how"), false, rng),
                        "p" => edit_bytes(&mut t.p, s(e, "how"), false, rng),
                        "sig" => edit_bytes(&mut t.sig, s(e, "how"), false, rng),
                        "b1" | "b2" => pre.push(e),
                        _ => post.push(e),
                    }
                }
                let mut segs = [b64(&t.h), b64(&t.p), b64(&t.sig)];
                for e in pre {
                    let k = if s(e, "at") == "b1" { 0 } else { 1 };
                    let mut v = std::mem::take(&mut segs[k]).into_bytes();
                    edit_bytes(&mut v, s(e, "how"), true, rng);
                    segs[k] = String::from_utf8_lossy(&v).to_string();
                }
                let mut v = segs.join(".").into_bytes();
                for e in post {
                    edit_bytes(&mut v, s(e, "how"), true, rng);
                }
                let text = String::from_utf8_lossy(&v).to_string();
                ev.push(observe(&text));
                conc.push(text);
            }
        }
        other => panic!("harness: unknown kind {other}"),
    }
    json!({"ev": ev, "conc": conc})
}
