//! Runs the code of /repo against executable specifications, on concrete inputs: random histories,
//! limits and special values. Used to find concrete failing inputs for failed proof obligations,
//! and as the bounded stand-in for functions out of the verifiers' reach.
//!
//! shard-replay PROPERTY MILLISECONDS SEED [--trace HISTORY]
//! exit 0: nothing found; exit 3: found, a line FAIL ... on stdout.
mod alloc;
#[macro_use]
mod comp;
#[macro_use]
mod util;
mod parts;
mod sim;
use sim::*;
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static ALLOC: alloc::Checking = alloc::Checking;

thread_local! {
    pub static CURRENT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// One random history. The flavour varies what is exercised.
fn history(seed: u64, prop: &str, trace: bool) -> (R, u64) {
    let mut s = Sim::new(seed, trace);
    let r = run(&mut s, prop);
    let ops = s.ops;
    if r.is_err() {
        // The state may be corrupt: leave it alone.
        std::mem::forget(std::mem::take(&mut s.reg));
        return (r, ops);
    }
    (s.finish(), ops)
}
fn run(s: &mut Sim, prop: &str) -> R {
    let gs = groups();
    let cs = comps();
    // A few groups and components per history, so that archetypes are shared.
    let ng = 1 + s.rng.below(6);
    let mut mine: Vec<usize> = (0..ng).map(|_| s.rng.below(gs.len())).collect();
    // Relatives: permutations and subsets of those.
    for i in 0..ng {
        let a = &gs[mine[i]];
        let rel: Vec<usize> = (0..gs.len()).filter(|j| gs[*j].ids.iter().all(|x| a.ids.contains(x))).collect();
        if s.rng.chance(1, 2) {
            mine.push(rel[s.rng.below(rel.len())]);
        }
    }
    if s.rng.chance(1, 5) {
        for (i, g) in gs.iter().enumerate() {
            if g.name.starts_with("(X") && s.rng.chance(1, 2) || g.name.starts_with("(Y") && s.rng.chance(1, 3) {
                mine.push(i);
            }
        }
    }
    let mut ids: Vec<u16> = mine.iter().flat_map(|g| gs[*g].ids.clone()).collect();
    for _ in 0..s.rng.below(3) {
        ids.push(cs[s.rng.below(cs.len())].id);
    }
    let mut my_cs: Vec<&CompVt> = cs.iter().filter(|c| ids.contains(&c.id)).collect();
    if my_cs.is_empty() {
        my_cs.push(&cs[0]);
    }
    let big = s.rng.chance(1, 12); // many entities, to grow storage
    let len = if big { 300 + s.rng.below(500) } else { 1 + s.rng.below(60) };
    let special = s.rng.below(5); // bias
    let mut w = [10, 6, 3, 8, 8, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 3];
    match prop {
        "C01" | "C02" => { w[0] += 8; w[1] += 8; w[16] += 10; w[2] += 4 }
        "C05" => w[3] += 20,
        "C06" => { w[4] += 15; w[3] += 10 }
        "C07" => w[2] += 15,
        "C08" => { w[1] += 5; w[2] += 5; w[3] += 5; w[4] += 5 }
        "C09" => { w[9] += 10; w[10] += 5; w[3] += 5; w[4] += 5 }
        "C10" => { w[11] += 10; w[12] += 10 }
        "C11" => { w[13] += 10; w[14] += 10 }
        "C12" => { w[15] += 15; w[1] += 5; w[2] += 3 }
        "C13" => { w[0] += 10; w[1] += 3 }
        "C19" => w[5] += 15,
        "C20" => { w[6] += 10; w[7] += 10; w[10] += 5; w[12] += 5; w[14] += 5 }
        _ => {}
    }
    if special == 0 { w[0] += 20 }
    if special == 1 { w[1] += 10; w[2] += 10; w[0] += 15 }
    if special == 2 { w[3] += 15; w[4] += 15 }
    let total: usize = w.iter().sum();
    for step in 0..len {
        let g = &gs[mine[s.rng.below(mine.len())]];
        let c = my_cs[s.rng.below(my_cs.len())];
        let mut k = s.rng.below(total);
        let mut op = 0;
        while k >= w[op] {
            k -= w[op];
            op += 1;
        }
        if big && step < 290 {
            op = 0;
        }
        if big && step < 290 && step > 3 {
            // one archetype
            let g = &gs[mine[0]];
            CURRENT.with(|c| *c.borrow_mut() = "C04,C13".into());
            if s.trace.is_some() {
                eprintln!("TAGS C04,C13");
            }
            (g.create)(s)?;
            continue;
        }
        let e = s.pick();
        let tags = ["C04", "C03", "C07", "C05", "C06", "C19", "C20", "C20", "C19", "C09", "C09,C20", "C10", "C10,C20", "C11", "C11,C20", "C12", "C02"][op];
        CURRENT.with(|c| *c.borrow_mut() = tags.into());
        if s.trace.is_some() {
            eprintln!("TAGS {}", tags);
        }
        match (op, e) {
            (0, _) => (g.create)(s)?,
            (1, Some(e)) => s.destroy(e)?,
            (2, Some(e)) => {
                // mostly a group that fits
                let row = s.model[&e.raw()].clone();
                let fits: Vec<&GroupVt> = gs.iter().filter(|g| g.ids.len() == row.len() && g.ids.iter().all(|i| row.contains_key(i))).collect();
                if !fits.is_empty() && s.rng.chance(2, 3) {
                    (fits[s.rng.below(fits.len())].remove)(s, e)?
                } else {
                    (g.remove)(s, e)?
                }
            }
            (3, Some(e)) => (c.add)(s, e)?,
            (4, Some(e)) => {
                let row = s.model[&e.raw()].clone();
                let has: Vec<&CompVt> = cs.iter().filter(|c| row.contains_key(&c.id)).collect();
                if s.rng.chance(2, 3) {
                    (has[s.rng.below(has.len())].remove)(s, e)?
                } else {
                    (c.remove)(s, e)?
                }
            }
            (5, Some(e)) => {
                if s.rng.chance(1, 2) {
                    let row = s.model[&e.raw()].clone();
                    for g in gs.iter().filter(|g| g.ids.iter().all(|i| row.contains_key(i))).take(12) {
                        (g.read)(s, e)?;
                    }
                }
                (g.read)(s, e)?
            }
            (6, Some(e)) => (c.write)(s, e)?,
            (7, Some(e)) => {
                let row = s.model[&e.raw()].clone();
                let fits: Vec<&GroupVt> = gs.iter().filter(|g| g.ids.iter().all(|i| row.contains_key(i))).collect();
                if !fits.is_empty() && s.rng.chance(2, 3) {
                    (fits[s.rng.below(fits.len())].write)(s, e)?
                } else {
                    (g.write)(s, e)?
                }
            }
            (8, Some(e)) => s.check_all(Some(e), &["C03", "C19"])?,
            (9, _) => {
                (g.exact)(s)?;
                if s.rng.chance(1, 4) {
                    for g in gs.iter() {
                        (g.exact)(s)?;
                    }
                }
            }
            (10, _) => (g.exact_mut)(s)?,
            (11, _) => {
                (g.iterate)(s)?;
                if s.rng.chance(1, 4) {
                    for g in gs.iter() {
                        (g.iterate)(s)?;
                    }
                }
            }
            (12, _) => (g.iterate_mut)(s)?,
            (13, _) => (g.filtered)(s)?,
            (14, _) => (g.filtered_mut)(s)?,
            (15, _) => s.check_entities_iter()?,
            (16, _) => {
                if let Some(e) = s.pick_stale() {
                    match s.rng.below(8) {
                        0 => s.destroy(e)?,
                        1 => (g.remove)(s, e)?,
                        2 => (c.add)(s, e)?,
                        3 => (c.remove)(s, e)?,
                        4 => (g.read)(s, e)?,
                        5 => (c.write)(s, e)?,
                        6 => (g.write)(s, e)?,
                        _ => s.check_entity(e, &["C02"])?,
                    }
                }
            }
            _ => {}
        }
    }
    s.check_entities_iter()?;
    for g in mine {
        (gs[g].iterate)(s)?;
        (gs[g].exact)(s)?;
    }
    Ok(())
}

fn guarded(f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let t = CURRENT.with(|c| c.borrow().clone());
            let t: Vec<&str> = t.split(',').chain(["C13", "C03"]).collect();
            fail(&t, format!("panic: {}", m))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let ms: u64 = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    let trace = a.iter().position(|x| x == "--trace").map(|i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::var_os("SOFT").is_some() {
        SOFT.set(prop.clone()).unwrap();
    }
    let start = Instant::now();
    let (mut others, mut n, mut ops) = (0u64, 0u64, 0u64);
    let report = |what: String, f: &Fail| {
        println!("FAIL {} {} :: {}", what, f.tags.join(","), f.msg);
        std::process::exit(3);
    };
    let mut done: Vec<(&str, u64)> = vec![];
    for (name, props, part) in parts::all() {
        if props.contains(&prop.as_str()) && trace.as_ref().map_or(true, |t| t == name) {
            println!("START {}", name);
            CURRENT.with(|c| *c.borrow_mut() = prop.clone());
            let mut cases = 0;
            if let Err(f) = guarded(|| part(seed, &mut cases)) {
                if f.tags.iter().any(|t| *t == prop) {
                    report(name.to_string(), &f);
                }
                others += 1;
            }
            done.push((name, cases));
        }
    }
    let histories = !["C14", "C15", "C16", "C17"].contains(&prop.as_str());
    if histories {
        println!("START history");
        if let Some(Ok(h)) = trace.as_ref().map(|t| t.parse::<u64>()) {
            let (mut r, _) = (Ok(()), 0);
            if let Err(f) = guarded(|| {
                let x = history(h, &prop, true);
                x.0
            }) {
                r = Err(f);
            }
            if let Err(f) = r {
                report(format!("history {}", h), &f);
            }
            return;
        }
        if trace.is_none() {
            while start.elapsed() < Duration::from_millis(ms) && others < 200 {
                let h = seed.wrapping_mul(1_000_003).wrapping_add(n);
                n += 1;
                if n % 64 == 1 {
                    // The last line printed tells which histories were running when a crash occurs.
                    println!("AT {}", h);
                }
                let mut o = 0;
                let r = guarded(|| {
                    let (r, k) = history(h, &prop, false);
                    o = k;
                    r
                });
                ops += o;
                if let Err(f) = r {
                    let _ = take_alloc_error();
                    if f.tags.iter().any(|t| *t == prop) {
                        report(format!("history {}", h), &f);
                    }
                    others += 1;
                }
            }
        }
    }
    println!(
        "OK histories={} operations={} other_failures={} parts={}",
        n,
        ops,
        others,
        done.iter().map(|(n, c)| format!("{}:{}", n, c)).collect::<Vec<_>>().join(",")
    );
}
