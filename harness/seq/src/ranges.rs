//! Range managers: free ranges and queued writes.
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use craballoc::range::{IsRange, Range, RangeManager};
use craballoc::runtime::SlabUpdate;
use crabslab::Array;
use serde_json::{json, Value};

fn u(v: &Value) -> u32 {
    v.as_u64().unwrap() as u32
}
fn rg(a: u32, b: u32) -> Range {
    Range {
        first_index: a,
        last_index: b,
    }
}
/// Numbers are reported relative to where the program's numbers start.
fn rel(x: u32, off: u32) -> i64 {
    x as i64 - off as i64
}
fn held(m: &RangeManager<Range>, off: u32) -> Value {
    m.ranges
        .iter()
        .map(|r| json!([rel(r.first_index, off), rel(r.last_index, off)]))
        .collect()
}

/// {"p":1,"off":0,"ops":[[a,b] add | [n] take]}
fn free(p: &Value, out: &mut impl Write) {
    let off = p["off"].as_u64().unwrap_or(0) as u32;
    let mut m = RangeManager::<Range>::default();
    let mut taken: Vec<(u32, u32)> = vec![];
    // what was added and not taken: which block answers a request is the manager's choice
    let mut have: Vec<(u32, u32)> = vec![];
    writeln!(out, "{}", json!({"e":"reset","p":p["p"]})).unwrap();
    for op in p["ops"].as_array().unwrap() {
        let op = op.as_array().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut e = if op.len() == 3 {
                // give back what was taken, or a part of it
                if taken.is_empty() {
                    return Value::Null;
                }
                let (a, b) = taken.swap_remove(u(&op[0]) as usize % taken.len());
                let cut = u(&op[1]).min(b - a);
                let (a, b, rest) = if u(&op[2]) == 0 {
                    (a + cut, b, (a, (a + cut).wrapping_sub(1)))
                } else {
                    (a, b - cut, (b - cut + 1, b))
                };
                if cut > 0 {
                    taken.push(rest);
                }
                m.add_range(rg(a, b));
                have.push((a, b));
                json!({"e":"add","a":rel(a, off),"b":rel(b, off)})
            } else if op.len() == 2 {
                let (a, b) = (u(&op[0]) + off, u(&op[1]) + off);
                if have.iter().any(|&(c, d)| a <= d && c <= b) {
                    return Value::Null;
                }
                have.push((a, b));
                m.add_range(rg(a, b));
                json!({"e":"add","a":rel(a, off),"b":rel(b, off)})
            } else {
                let n = u(&op[0]);
                let r = m.remove(n);
                if let Some(r) = r {
                    let (a, b) = (r.first_index, r.last_index);
                    if a <= b {
                        taken.push((a, b));
                    }
                    for (c, d) in std::mem::take(&mut have) {
                        if b < c || d < a {
                            have.push((c, d));
                        } else {
                            if c < a {
                                have.push((c, a - 1));
                            }
                            if b < d {
                                have.push((b + 1, d));
                            }
                        }
                    }
                }
                json!({"e":"take","n":n,
                    "r": r.map(|r| vec![rel(r.first_index, off), rel(r.last_index, off)]).unwrap_or_default()})
            };
            e["o"] = held(&m, off);
            e["len"] = m.len().into();
            e["empty"] = m.is_empty().into();
            e
        }));
        match r {
            Ok(Value::Null) => {}
            Ok(e) => writeln!(out, "{e}").unwrap(),
            Err(_) => {
                writeln!(out, "{}", json!({"e":"panic","op":op})).unwrap();
                return;
            }
        }
    }
}

/// {"p":1,"rng":[a,b,c,d],"off":0,"sc":1}: the operations on single ranges, `sc` numbers to a unit
fn single(p: &Value, out: &mut impl Write) {
    let q: Vec<u32> = p["rng"].as_array().unwrap().iter().map(u).collect();
    let off = p["off"].as_u64().unwrap_or(0) as u32;
    let sc = p["sc"].as_u64().unwrap_or(1) as u32;
    let at = |x: u32| x * sc + off;
    let (a, b, c, d) = (at(q[0]), at(q[1] + 1) - 1, at(q[2]), at(q[3] + 1) - 1);
    // back to units; -7 for what is not one
    let un = |r: Range| {
        let (x, y) = (rel(r.first_index, off), rel(r.last_index, off) + 1);
        let s = sc as i64;
        if x % s == 0 && y % s == 0 {
            json!([x / s, y / s - 1])
        } else {
            json!([-7, -7])
        }
    };
    writeln!(out, "{}", json!({"e":"reset","p":p["p"]})).unwrap();
    let r = catch_unwind(|| {
        let (r, s) = (rg(a, b), rg(c, d));
        let inter = r.intersects(&s);
        let disjoint = b < c || d < a;
        let len = r.len();
        let len = if len % sc == 0 { (len / sc) as i64 } else { -7 };
        let mut e = json!({"e":"rng","a":q[0],"b":q[1],"c":q[2],"d":q[3],"len":len,"empty":r.is_empty(),
            "inter":inter, "eq": r == s, "disj": disjoint, "merge": false, "un": [0, 0], "from": [a, b]});
        if disjoint {
            let m = r.should_merge_with(&s);
            e["merge"] = m.into();
            if m {
                let mut x = r;
                x.union(s);
                e["un"] = un(x);
            }
        }
        e["from"] = un(Range::from(Array::<u32>::new(a, b + 1 - a)));
        // two words per item
        e["from2"] = un(Range::from(Array::<[u32; 2]>::new(a, b + 1 - a)));
        e["uinter"] = if sc == 1 { upd(a, b).intersects(&upd(c, d)) } else { inter }.into();
        e
    });
    match r {
        Ok(e) => writeln!(out, "{e}").unwrap(),
        Err(_) => writeln!(out, "{}", json!({"e":"panic","op":q})).unwrap(),
    }
}
fn upd(a: u32, b: u32) -> SlabUpdate {
    SlabUpdate {
        array: Array::new(a, b + 1 - a),
        elements: (a..=b).collect(),
    }
}

/// {"p":1,"off":0,"wr":[[a,n],..]}: write k (1-based) is n words k*1000+j from slot a
fn writes(p: &Value, out: &mut impl Write) {
    let off = p["off"].as_u64().unwrap_or(0) as u32;
    let mut m = RangeManager::<SlabUpdate>::default();
    writeln!(out, "{}", json!({"e":"reset","p":p["p"]})).unwrap();
    for (k, op) in p["wr"].as_array().unwrap().iter().enumerate() {
        let (a, n) = (u(&op[0]) + off, u(&op[1]));
        let words: Vec<u32> = (0..n).map(|j| (k as u32 + 1) * 1000 + j).collect();
        let r = catch_unwind(AssertUnwindSafe(|| {
            m.add_range(SlabUpdate {
                array: Array::new(a, n),
                elements: words.clone(),
            });
            let o: Value = m
                .ranges
                .iter()
                .map(|u| json!({"a":u.array.starting_index() as i64 - off as i64,"l":u.array.len(),"w":u.elements}))
                .collect();
            json!({"e":"w","a":rel(a, off),"w":words,"o":o})
        }));
        match r {
            Ok(e) => writeln!(out, "{e}").unwrap(),
            Err(_) => {
                writeln!(out, "{}", json!({"e":"panic","op":op})).unwrap();
                return;
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        out.flush().unwrap();
        let p: Value = serde_json::from_str(&line.unwrap()).unwrap();
        if p.get("ops").is_some() {
            free(&p, &mut out);
        } else if p.get("wr").is_some() {
            writes(&p, &mut out);
        } else {
            single(&p, &mut out);
        }
    }
    out.flush().unwrap();
}
