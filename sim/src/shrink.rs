//! Generic minimisation over the JSON form of a trace.

use crate::trace::Trace;
use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone)]
enum Key {
    F(String),
    I(usize),
}

fn at<'a>(v: &'a mut Value, p: &[Key]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match k {
            Key::F(f) => v.get_mut(f)?,
            Key::I(i) => v.get_mut(i)?,
        };
    }
    Some(v)
}

fn walk(v: &Value, p: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
    out.push(p.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(Key::I(i));
                walk(x, p, out);
                p.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                if k == "prop" {
                    continue;
                }
                p.push(Key::F(k.clone()));
                walk(x, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}

pub fn shrink(t: &Trace, limit: Duration, fails: &mut dyn FnMut(&Trace) -> bool) -> Trace {
    let start = Instant::now();
    let mut best = serde_json::to_value(t).unwrap();
    let mut seen: std::collections::HashSet<String> = Default::default();
    let mut attempt = |c: &Value, seen: &mut std::collections::HashSet<String>| -> bool {
        if start.elapsed() > limit {
            return false;
        }
        let s = c.to_string();
        if !seen.insert(s) {
            return false;
        }
        match serde_json::from_value::<Trace>(c.clone()) {
            Ok(t) => fails(&t),
            Err(_) => false,
        }
    };
    loop {
        let before = best.clone();
        // Arrays: delete runs of elements, long ones first.
        let mut paths = vec![];
        walk(&best, &mut vec![], &mut paths);
        for p in paths {
            let len = match at(&mut best.clone(), &p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut size = len;
            while size > 0 {
                let mut i = 0;
                while let Some(Value::Array(a)) = at(&mut best.clone(), &p) {
                    if i >= a.len() {
                        break;
                    }
                    let mut c = best.clone();
                    if let Some(Value::Array(a)) = at(&mut c, &p) {
                        let e = (i + size).min(a.len());
                        a.drain(i..e);
                    }
                    if attempt(&c, &mut seen) {
                        best = c;
                    } else {
                        i += size;
                    }
                    if start.elapsed() > limit {
                        break;
                    }
                }
                size /= 2;
            }
            if start.elapsed() > limit {
                break;
            }
        }
        // Scalars: simpler values.
        let mut paths = vec![];
        walk(&best, &mut vec![], &mut paths);
        for p in paths {
            loop {
                let cur = match at(&mut best.clone(), &p) {
                    Some(v) => v.clone(),
                    None => break,
                };
                let cands: Vec<Value> = match &cur {
                    Value::Number(n) => match n.as_u64() {
                        Some(0) | None => vec![],
                        Some(n) => vec![0.into(), 1.into(), (n % 256).into(), (n / 2).into(), (n - 1).into()].into_iter().filter(|v: &Value| v.as_u64() < Some(n)).collect(),
                    },
                    Value::Bool(true) => vec![false.into()],
                    Value::String(s) if !s.is_empty() => vec!["a".into(), "b".into(), "0".into(), s.chars().take(s.chars().count() / 2).collect::<String>().into()]
                        .into_iter()
                        .filter(|v: &Value| v.as_str().map(|x| x.len() < s.len() || (x.len() == 1 && s.len() == 1 && x < s.as_str())).unwrap_or(false))
                        .collect(),
                    Value::Object(o) if o.len() == 1 && (o.contains_key("Num") || o.contains_key("Long") || o.contains_key("Str")) => vec!["Void".into()],
                    _ => vec![],
                };
                let mut hit = false;
                for v in cands {
                    let mut c = best.clone();
                    if let Some(x) = at(&mut c, &p) {
                        *x = v;
                    }
                    if attempt(&c, &mut seen) {
                        best = c;
                        hit = true;
                        break;
                    }
                }
                if !hit || start.elapsed() > limit {
                    break;
                }
            }
            if start.elapsed() > limit {
                break;
            }
        }
        if best == before || start.elapsed() > limit {
            break;
        }
    }
    serde_json::from_value(best).unwrap()
}
