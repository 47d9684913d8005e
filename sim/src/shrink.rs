//! Generic minimiser over scenario data: delta debugging on arrays, hoisting of sub-structures,
//! smaller numbers and strings. A candidate is kept if it still fails with the same class.

use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone)]
enum Seg {
    I(usize),
    K(String),
}

fn get<'a>(v: &'a Value, p: &[Seg]) -> Option<&'a Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Seg::I(i) => v.get(i)?,
            Seg::K(k) => v.get(k)?,
        };
    }
    Some(v)
}

fn set(v: &mut Value, p: &[Seg], x: Value) {
    let mut v = v;
    for s in p {
        v = match s {
            Seg::I(i) => &mut v[*i],
            Seg::K(k) => &mut v[k.as_str()],
        };
    }
    *v = x;
}

fn paths(v: &Value, cur: &mut Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(Seg::I(i));
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(Seg::K(k.clone()));
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => (),
    }
}

fn candidates(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => {
            let mut c = Vec::new();
            let mut n = a.len();
            while n >= 1 {
                let mut i = 0;
                while i < a.len() {
                    let mut b = a.clone();
                    b.drain(i..(i + n).min(a.len()));
                    c.push(Value::Array(b));
                    i += n;
                }
                n /= 2;
            }
            // hoist: an element of the array in place of the array
            for x in a {
                if x.is_object() || x.is_array() {
                    c.push(x.clone());
                }
            }
            c
        }
        Value::Object(o) => {
            let mut c = vec![Value::String("Empty".into())];
            // tree nodes: replace by a child
            if let Some(Value::Array(k)) = o.get("k") {
                c.extend(k.iter().cloned());
            }
            if o.len() == 1 {
                for x in o.values() {
                    match x {
                        Value::Array(a) => c.extend(
                            a.iter()
                                .filter(|x| x.is_object() || x.is_string())
                                .cloned(),
                        ),
                        Value::Object(_) => c.push(x.clone()),
                        _ => (),
                    }
                }
            }
            for (k, x) in o {
                if x.is_null() {
                    continue;
                }
                let mut b = o.clone();
                b.remove(k);
                c.push(Value::Object(b));
            }
            c
        }
        Value::Number(n) => {
            let mut c = Vec::new();
            if let Some(u) = n.as_u64() {
                for x in [0, 1, 2, u / 16, u / 2, u.saturating_sub(1)] {
                    if x < u && !c.contains(&Value::from(x)) {
                        c.push(Value::from(x));
                    }
                }
            } else if let Some(i) = n.as_i64() {
                c.push(Value::from(i + 1));
                c.push(Value::from(0));
            } else if let Some(f) = n.as_f64() {
                if f != 0.0 {
                    c.push(Value::from(0.0));
                    if f != 1.0 {
                        c.push(Value::from(1.0));
                    }
                }
            }
            c
        }
        Value::String(s) => {
            let mut c = Vec::new();
            let n = s.chars().count();
            if n > 0 {
                for m in [0, 1, n / 2, n - 1] {
                    if m < n {
                        c.push(Value::String(s.chars().take(m).collect()));
                    }
                }
                if n == 1 && s != "a" {
                    c.push(Value::String("a".into()));
                }
            }
            c
        }
        Value::Bool(true) => vec![Value::Bool(false)],
        _ => vec![],
    }
}

fn size(v: &Value) -> usize {
    v.to_string().len()
}

/// `test` says whether a candidate still fails the same way.
pub fn shrink(v: &Value, budget: Duration, mut test: impl FnMut(&Value) -> bool) -> (Value, usize) {
    let t0 = Instant::now();
    let mut best = v.clone();
    let mut tries = 0;
    loop {
        let before = best.to_string();
        let mut ps = Vec::new();
        paths(&best, &mut Vec::new(), &mut ps);
        // big structures first
        ps.sort_by_key(|p| std::cmp::Reverse(get(&best, p).map_or(0, size)));
        for p in ps {
            'again: loop {
                if t0.elapsed() > budget {
                    return (best, tries);
                }
                let Some(x) = get(&best, &p) else {
                    break;
                };
                for c in candidates(x) {
                    if t0.elapsed() > budget {
                        return (best, tries);
                    }
                    let mut w = best.clone();
                    set(&mut w, &p, c);
                    if size(&w) > size(&best) {
                        continue;
                    }
                    tries += 1;
                    if test(&w) {
                        best = w;
                        continue 'again;
                    }
                }
                break;
            }
        }
        if best.to_string() == before {
            return (best, tries);
        }
    }
}
