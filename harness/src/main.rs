//! vp_harness FAMILY SEED COUNT OUT DIR [SCRIPTS]
//! Drives the real library and records what it did, one trace per line.
mod ctx;
mod fam;
mod gen;
mod json;
mod nets;
mod ops;
mod script;
mod tens;

use ctx::Ctx;
use json::J;
use tens::Rng;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (family, seed, count) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    let mut c = Ctx::new(&a[4], &a[5]);
    std::panic::set_hook(Box::new(|i| if !ctx::inside() { eprintln!("harness: {}", i) }));
    // a run that died in a call is continued behind the trace that killed it
    let from = std::env::var("VP_START").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    if family == "script" {
        nets::calibrate(&mut c);
        let text = std::fs::read_to_string(&a[6]).unwrap();
        for (n, line) in text.lines().enumerate().skip(from as usize) {
            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n as u64) ^ fam_hash(family));
            c.survive(|c| script::script(c, &mut r, format!("{}-{}-{}", family, seed, n), line));
        }
        println!("{} traces {} events", c.traces, c.events);
        return;
    }
    let g: Option<fn(&mut Ctx, &mut Rng, String)> = match family {
        "lfc" => Some(fam::lfc),
        "lconv" => Some(fam::lconv),
        "lpool" => Some(fam::lpool),
        "lsoft" => Some(fam::lsoft),
        "accum" => Some(fam::accum),
        "calls" => Some(fam::calls_exact),
        "callssoft" => Some(fam::calls_soft),
        "accumsoft" => Some(fam::accum_soft),
        "construct" => Some(fam::construct_exact),
        "constructsoft" => Some(fam::construct_soft),
        "lord" => Some(fam::lord),
        "netord" => Some(fam::net_ord),
        "lsat" => Some(fam::lsat),
        "lopaque" => Some(fam::lopaque),
        "modes" => Some(fam::modes_exact),
        "modessoft" => Some(fam::modes_soft),
        "records" => Some(fam::records_exact),
        "recordssoft" => Some(fam::records_soft),
        "net" => Some(fam::net_exact),
        "netwrong" => Some(fam::net_wrong),
        "netmodes" => Some(fam::net_modes),
        "netsoft" => Some(fam::net_soft),
        "netfiles" => Some(fam::net_files),
        "netcut" => Some(fam::net_cut),
        "netbad" => Some(fam::net_bad),
        "netmemo" => Some(fam::net_memo),
        _ => None,
    };
    if let Some(g) = g {
        nets::calibrate(&mut c);
        for n in from..count {
            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n) ^ fam_hash(family));
            c.survive(|c| g(c, &mut r, format!("{}-{}-{}", family, seed, n)));
        }
        println!("{} traces {} events", c.traces, c.events);
        return;
    }
    if let "netpar" | "layerpar" | "stress" = family {
        parallel(family, seed, from, count, &a[4], &a[5]);
        return;
    }
    let f: Option<fn(&mut Ctx, &mut Rng)> = match family {
        "index" => Some(ops::index),
        "shapes" => Some(ops::shapes),
        "fills" => Some(ops::fills),
        "elem" => Some(ops::elem),
        "objects" => Some(ops::objects),
        "mat" => Some(ops::mat),
        "fused" => Some(ops::fused),
        "conv" => Some(ops::conv),
        "convin" => Some(ops::convin),
        "convker" => Some(ops::convker),
        "pool" => Some(ops::pool),
        "softmax" => Some(ops::softmax),
        "tfile" => Some(ops::tfile),
        _ => None,
    };
    match f {
        Some(f) => {
            for n in from..count {
                let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n) ^ fam_hash(family));
                c.survive(|c| {
                    c.begin(format!("{}-{}-{}", family, seed, n), J::obj());
                    f(c, &mut r);
                    c.end();
                });
            }
        }
        None => {
            eprintln!("unknown family {}", family);
            std::process::exit(3);
        }
    }
    println!("{} traces {} events", c.traces, c.events);
}
/// Histories of separate objects, recorded by threads that run at the same time: each must
/// look as if it had been alone.
fn parallel(family: &str, seed: u64, from: u64, count: u64, out: &str, dir: &str) {
    const THREADS: u64 = 6;
    let fs: &[fn(&mut Ctx, &mut Rng, String)] = if family == "netpar" {
        &[fam::net_exact, fam::net_modes, fam::net_memo, fam::net_files]
    } else if family == "stress" {
        &[fam::stress]
    } else {
        &[fam::lfc, fam::lconv, fam::lpool, fam::accum, fam::calls_exact, fam::lopaque, fam::lord]
    };
    // a run that dies ends all threads: nothing is left to continue
    let mut whole = Ctx::new(out, dir);
    whole.id = format!("{}-{}-{}", family, seed, count);
    whole.mark(if family == "layerpar" { "lfwd" } else { "ninfer" });
    if from >= count { return; }
    let together = std::sync::Barrier::new(THREADS as usize);
    let part = |k: u64| format!("{}.{}", out, k);
    let sums: Vec<(usize, usize)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS).map(|k| {
            let (part, d, together) = (part(k), format!("{}/t{}", dir, k), &together);
            s.spawn(move || {
                std::fs::create_dir_all(&d).unwrap();
                let mut c = Ctx::new(&part, &d);
                c.par = true;
                nets::calibrate(&mut c);
                for n in (k..(count + THREADS - 1) / THREADS * THREADS).step_by(THREADS as usize) {
                    together.wait();
                    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n) ^ fam_hash(family));
                    let g = fs[r.u(0, fs.len() as u32 - 1) as usize];
                    c.survive(|c| g(c, &mut r, format!("{}-{}-{}", family, seed, n)));
                }
                (c.traces, c.events)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (end, whole) in [("", out.to_string()), (".crashes", format!("{}.crashes", out))] {
        let mut all = vec![];
        for k in 0..THREADS {
            let f = format!("{}{}", part(k), end);
            if let Ok(b) = std::fs::read(&f) { all.extend(b); std::fs::remove_file(&f).unwrap(); }
        }
        if end.is_empty() || !all.is_empty() { std::fs::write(whole, all).unwrap(); }
    }
    for k in 0..THREADS { let _ = std::fs::remove_file(format!("{}.progress", part(k))); }
    whole.id = String::from("all");
    whole.mark("done");
    println!("{} traces {} events", sums.iter().map(|s| s.0).sum::<usize>(), sums.iter().map(|s| s.1).sum::<usize>());
}
fn fam_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}
