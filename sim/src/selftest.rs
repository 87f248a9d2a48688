//! Is the simulator repeatable, and does its oracle agree with itself?

use crate::check::Checker;
use crate::model::{self, COut};
use crate::rng::{mix, Rng};
use crate::{coord, gen, gread, worker};
use std::process::Command;

/// A hash over all that happens in the runs from..from+n of a property, for comparing processes.
pub fn digest(prop: &str, from: &str, n: &str) -> i32 {
    worker::prepare();
    let mut ck = Checker::new();
    worker::calibrate(&mut ck, prop);
    let (from, n): (u64, u64) = (from.parse().unwrap(), n.parse().unwrap());
    let mut o = String::new();
    for i in from..from + n {
        let p = worker::make(&mut ck, prop, worker::run_seed(coord::seed(), prop, i), false);
        let (v, res) = ck.check(&p);
        let mut t = String::new();
        crate::ser::Ser::ser(&p, &mut t);
        let h = mix(res.log_hash() ^ crate::rng::hash_bytes(3, t.as_bytes()) ^ v.is_some() as u64);
        o.push_str(&format!("{} {:x}\n", i, h));
    }
    print!("{}", o);
    0
}

fn notation_agrees(n: u64) -> Result<(), String> {
    let notation = model::notation();
    let mut bad = vec![];
    for i in 0..n {
        let mut r = Rng::new(mix(i));
        let (t, want) = gen::notation_text(&mut r);
        match model::compile(&notation, &t, 20_000_000).0 {
            COut::Ok(m) if m == want => {}
            COut::Fuel => {}
            COut::Ok(m) => bad.push(format!("{:?}\n printed from {}\n but read as {}", t, model::render_map(&want), model::render_map(&m))),
            COut::Err(e) => bad.push(format!("{:?}\n printed from {}\n but rejected: {}", t, model::render_map(&want), e.render())),
        }
        if bad.len() > 2 {
            break;
        }
    }
    if bad.is_empty() { Ok(()) } else { Err(bad.join("\n")) }
}

pub fn main() -> i32 {
    worker::prepare();
    if std::env::var_os("DYNSIM_AGAIN").is_none() {
        let e = std::env::current_exe().unwrap();
        let st = Command::new(e).arg("selftest").env("DYNSIM_AGAIN", "1").status();
        return st.ok().and_then(|s| s.code()).unwrap_or(2);
    }
    let mut fail = 0;
    match notation_agrees(3000) {
        Ok(()) => println!("notation printer and model compiler agree on 3000 grammars"),
        Err(e) => {
            println!("FAILED {}", e);
            fail += 1;
        }
    }
    let _ = gread::read("rules!{}");
    for prop in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14"] {
        // the same runs, in one process and in several, started at different points
        let go = |from: u64, n: u64| -> Vec<String> {
            let o = Command::new(std::env::current_exe().unwrap())
                .args(["digest", prop, &from.to_string(), &n.to_string()])
                .output()
                .unwrap();
            String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
        };
        let all = go(0, 24);
        let mut parts = go(0, 9);
        parts.extend(go(9, 3));
        parts.extend(go(12, 12));
        let same = all == parts && all.len() == 24;
        println!("{} {}", prop, if same { "repeatable" } else { "NOT REPEATABLE" });
        if !same {
            for (a, b) in all.iter().zip(&parts) {
                if a != b {
                    println!("  {} / {}", a, b);
                }
            }
            fail += 1;
        }
    }
    fail
}
