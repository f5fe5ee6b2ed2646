//! Makes token texts without going through the library under test.
use crate::util::*;
use serde_json::{Map, Value};

/// JSON text of `v`; `escape` writes every string with \u escapes, `rev`
/// writes keys in reverse order, `pretty` adds whitespace everywhere
pub fn write_json(v: &Value, escape: bool, rev: bool, pretty: bool, out: &mut String) {
    let sp = if pretty { "\n\t " } else { "" };
    let string = |s: &str, out: &mut String| {
        if escape {
            out.push('"');
            for u in s.encode_utf16() {
                out.push_str(&format!("\\u{u:04x}"));
            }
            out.push('"');
        } else {
            out.push_str(&serde_json::to_string(s).unwrap());
        }
    };
    match v {
        Value::String(s) => string(s, out),
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(sp);
                write_json(x, escape, rev, pretty, out);
            }
            out.push_str(sp);
            out.push(']');
        }
        Value::Object(m) => {
            out.push('{');
            let mut ks: Vec<_> = m.iter().collect();
            if rev {
                ks.reverse();
            }
            for (i, (k, x)) in ks.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(sp);
                string(k, out);
                out.push_str(sp);
                out.push(':');
                out.push_str(sp);
                write_json(x, escape, rev, pretty, out);
            }
            out.push_str(sp);
            out.push('}');
        }
        other => out.push_str(&other.to_string()),
    }
}

pub fn json_text(v: &Value, escape: bool, rev: bool, pretty: bool) -> String {
    let mut s = String::new();
    write_json(v, escape, rev, pretty, &mut s);
    s
}

/// Header and payload JSON texts under a layout
pub fn layout(header: &Value, payload: &Value, lay: &str) -> (String, String) {
    let h = json_text(header, false, false, false);
    let p = json_text(payload, false, false, false);
    match lay {
        "pretty" => (json_text(header, false, false, true), format!(" {}\n", json_text(payload, false, false, true))),
        "reorder" => (json_text(header, false, true, false), json_text(payload, false, true, false)),
        "extra" => {
            let mut m: Map<String, Value> = payload.as_object().unwrap().clone();
            m.insert("zzz".into(), serde_json::json!([1, {"y": null}, "x"]));
            m.insert("AAA".into(), serde_json::json!({"iss": "did:key:zNobody"}));
            (h, Value::Object(m).to_string())
        }
        // longer than any buffer someone may have thought large enough
        "long" => {
            let mut m: Map<String, Value> = payload.as_object().unwrap().clone();
            let size = [600, 1500, 5000, 9000, 20000, 70000][p.len() % 6];
            m.insert("zzz".into(), Value::String("long ".repeat(size / 5)));
            (h, Value::Object(m).to_string())
        }
        "escaped" => (json_text(header, true, false, false), json_text(payload, true, false, false)),
        "header" => {
            let alg = header["alg"].to_string();
            (format!("{{ \"typ\":\"JWT\",\"kid\":\"k\", \"alg\":{alg},\"crit\":null}}"), p)
        }
        _ => (h, p),
    }
}

fn der_len(n: usize) -> Vec<u8> {
    match n {
        0..=127 => vec![n as u8],
        128..=255 => vec![0x81, n as u8],
        _ => vec![0x82, (n >> 8) as u8, n as u8],
    }
}

pub fn damage(sig: &[u8], how: &str, rng: &mut Rng) -> Vec<u8> {
    let mut v = sig.to_vec();
    match how {
        "flip" => {
            let i = rng.below(v.len());
            v[i] ^= 1 << rng.below(8);
        }
        "flip2" => {
            let i = rng.below(v.len() / 2);
            v[i] ^= 1 << rng.below(8);
            let i = v.len() / 2 + rng.below(v.len() / 2);
            v[i] ^= 1 << rng.below(8);
        }
        "cut" => {
            v.pop();
        }
        "cuthead" => {
            v.remove(0);
        }
        "extend" => v.push(rng.next() as u8),
        "prepend" => v.insert(0, 0),
        "empty" => v.clear(),
        "zero" => v.iter_mut().for_each(|b| *b = 0),
        "doubled" => v = [v.clone(), v].concat(),
        "random" => v = rng.bytes(sig.len()),
        "half" => v.truncate(sig.len() / 2),
        "reverse" => v.reverse(),
        // the same numbers written another way
        "der" => {
            let int = |x: &[u8]| {
                let mut x: Vec<u8> = x.iter().skip_while(|b| **b == 0).cloned().collect();
                if x.first().map(|b| *b >= 128).unwrap_or(true) {
                    x.insert(0, 0);
                }
                [vec![2], der_len(x.len()), x].concat()
            };
            let both = [int(&v[..v.len() / 2]), int(&v[v.len() / 2..])].concat();
            v = [vec![0x30], der_len(both.len()), both].concat();
        }
        "hex" => v = v.iter().map(|b| format!("{b:02x}")).collect::<String>().into_bytes(),
        "text" => v = b64(&v).into_bytes(),
        "little" => {
            let k = v.len() / 2;
            v[..k].reverse();
            v[k..].reverse();
        }
        "swap" => {
            let k = v.len() / 2;
            v.rotate_left(k);
        }
        "wrapped" => v = [vec![if rng.chance(50) { 4 } else { 3 }], der_len(v.len()), v].concat(),
        "recovery" => v.push(*rng.pick(&[0, 1, 27, 28])),
        "intact" => {}
        other => panic!("harness: unknown damage {other}"),
    }
    v
}

/// Signs per `over` with `key`, and damages per `raw`.  `iss2` is another DID.
#[allow(clippy::too_many_arguments)]
pub fn mint(header: &Value, payload: &Value, lay: &str, key: &Key, over: &str, raw: &str, iss2: &str, rng: &mut Rng) -> String {
    let (h, p) = layout(header, payload, lay);
    let (hb, pb) = (b64(&h), b64(&p));
    let self_text = format!("{hb}.{pb}");
    let with = |f: &dyn Fn(&mut Map<String, Value>)| {
        let mut m = payload.as_object().unwrap().clone();
        f(&mut m);
        let (h, p) = layout(header, &Value::Object(m), lay);
        format!("{}.{}", b64(h), b64(p))
    };
    let signed = match over {
        "self" => self_text.clone().into_bytes(),
        // the payload was different when it was signed
        "payload" => match rng.below(3) {
            0 => with(&|m| {
                m.insert("exp".into(), serde_json::json!(7));
            }),
            1 => with(&|m| {
                m.insert("cap".into(), serde_json::json!({}));
                m.insert("nnc".into(), serde_json::json!("n"));
            }),
            _ => with(&|m| {
                m.insert("aud".into(), serde_json::json!("did:key:zSomeoneElse"));
            }),
        }
        .into_bytes(),
        "swap" => with(&|m| {
            m.insert("iss".into(), serde_json::json!(iss2));
        })
        .into_bytes(),
        "header" => {
            let mut hm = header.as_object().unwrap().clone();
            hm.insert("typ".into(), serde_json::json!("JWS"));
            format!("{}.{}", b64(Value::Object(hm).to_string()), pb).into_bytes()
        }
        "other" => with(&|m| {
            m.insert("nnc".into(), serde_json::json!("another token"));
        })
        .into_bytes(),
        // what the canonical encoding of the same content would be
        "canon" => {
            let (h, p) = layout(header, payload, "canon");
            format!("{}.{}", b64(h), b64(p)).into_bytes()
        }
        // only so many bytes of the beginning, or of the end, of the text
        o if o.starts_with("head") || o.starts_with("tail") => {
            let t = self_text.as_bytes();
            let n = match o[4..].parse::<usize>() {
                Ok(n) => n,
                Err(_) => *rng.pick(&[t.len() - 1, t.len() / 2, hb.len(), hb.len() + 1, 32]),
            }
            .min(t.len() - 1);
            if o.starts_with("head") { t[..n].to_vec() } else { t[t.len() - n..].to_vec() }
        }
        "hash" => {
            use sha2::Digest;
            sha2::Sha256::digest(self_text.as_bytes()).to_vec()
        }
        "all" => format!("{self_text}.").into_bytes(),
        "noheader" => pb.clone().into_bytes(),
        "nodot" => format!("{hb}{pb}").into_bytes(),
        "decoded" => format!("{h}.{p}").into_bytes(),
        other => panic!("harness: unknown over {other}"),
    };
    let sig = damage(&key.sign(&signed), raw, rng);
    format!("{self_text}.{}", b64(sig))
}
