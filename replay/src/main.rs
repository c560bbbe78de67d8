//! replay run FILE..            run case files, print every property they break
//! replay search --props C01,C02 --seed N --secs S --out DIR [--tag T]   look for a failing history
//! Output: one JSON object on the last line.
mod builders;
mod case;
mod elf;
mod gen;
mod mach;
mod model;
mod run;
use case::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CUR: Mutex<Option<(Instant, String)>> = Mutex::new(None);

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn still(c: &Case, p: &str) -> Option<String> { run::run(c).into_iter().find(|x| x.0 == p).map(|x| x.1) }
fn shrink(c: &Case, p: &str, key: &dyn Fn(&Case) -> Option<String>) -> (Case, String) {
    let _ = p;
    let mut best = c.clone();
    let mut msg = key(&best).unwrap_or_default();
    let t0 = Instant::now();
    let mut again = true;
    while again && t0.elapsed() < Duration::from_secs(20) {
        again = false;
        let mut w = best.ops.len() / 2;
        while w > 1 && t0.elapsed() < Duration::from_secs(15) {
            let mut i = 0;
            while i < best.ops.len() && t0.elapsed() < Duration::from_secs(15) {
                let mut d = best.clone();
                d.ops.drain(i..(i + w).min(best.ops.len()));
                if let Some(m) = key(&d) { best = d; msg = m; again = true } else { i += w }
            }
            w /= 2;
        }
        let mut i = 0;
        while i < best.ops.len() && t0.elapsed() < Duration::from_secs(20) {
            let mut d = best.clone();
            d.ops.remove(i);
            if let Some(m) = key(&d) { best = d; msg = m; again = true } else { i += 1 }
        }
        for i in 0..best.ops.len() {
            if t0.elapsed() > Duration::from_secs(20) { break }
            let mut cands: Vec<Op> = vec![];
            match &best.ops[i] {
                Op::Define(n, b, s) => {
                    for k in 0..s.len() { let mut s2 = s.clone(); s2.remove(k); cands.push(Op::Define(n.clone(), b.clone(), s2)) }
                    match b { Bytes::Raw(v) if v.len() > 1 => cands.push(Op::Define(n.clone(), Bytes::Raw(v[..v.len() / 2].to_vec()), s.clone())), Bytes::Fill(x, l) if *l > 1 => cands.push(Op::Define(n.clone(), Bytes::Fill(*x, l / 2), s.clone())), Bytes::Zero(l) if *l > 1 => cands.push(Op::Define(n.clone(), Bytes::Zero(l / 2), s.clone())), _ => {} }
                }
                Op::Link(f, t, at, r) if *at > 0 => { cands.push(Op::Link(f.clone(), t.clone(), 0, *r)) }
                Op::Bulk(p, n) if *n > 1 => { for m in [n / 2, n * 3 / 4, n - 1] { cands.push(Op::Bulk(p.clone(), m)) } }
                Op::BulkSect(p, n) if *n > 1 => { for m in [n / 2, n * 3 / 4, n - 1] { cands.push(Op::BulkSect(p.clone(), m)) } }
                _ => {}
            }
            for o in cands { let mut d = best.clone(); d.ops[i] = o; if let Some(m) = key(&d) { best = d; msg = m; again = true; break } }
        }
    }
    (best, msg)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let mut any = false;
            if args.iter().any(|a| a == "--known") { model::NO_DOMAIN.store(true, std::sync::atomic::Ordering::SeqCst) }
            for f in &args[2..] {
                if f.starts_with("--") { break }
                let text = std::fs::read_to_string(f).unwrap();
                let (bad, lbl) = if text.starts_with("builtin ") {
                    (match text.trim() { "builtin absorb" => builders::absorb_pairs().1, _ => builders::builders().1 }, "builtin".to_string())
                } else {
                    let c = Case::parse(&text);
                    let mut b = run::run(&c);
                    let dir = std::env::temp_dir().join(format!("faerie-replay-{}", std::process::id()));
                    let _ = std::fs::create_dir_all(&dir);
                    b.extend(run::file_check(&c, &dir));
                    let _ = std::fs::remove_dir_all(&dir);
                    (b, f.clone())
                };
                for (p, m) in &bad { println!("{} {} {}", p, lbl, m); any = true }
            }
            std::process::exit(any as i32)
        }
        Some("search") => {
            let props: Vec<String> = opt("--props").unwrap().split(',').map(|s| s.to_string()).collect();
            let seed: u64 = opt("--seed").unwrap_or("1".into()).parse().unwrap();
            let secs: f64 = opt("--secs").unwrap_or("3".into()).parse().unwrap();
            let out = opt("--out").unwrap_or(".".into());
            let tag = opt("--tag").unwrap_or("case".into());
            std::fs::create_dir_all(&out).unwrap();
            let want = |p: &str| props.iter().any(|x| x == p);
            let mut profiles: Vec<gen::Profile> = vec![];
            use gen::Profile::*;
            if ["C01", "C02", "C03", "C04", "C05"].iter().any(|p| want(p)) { profiles.extend([Api, Api, Elf, Macho]) }
            if run::ELF_PROPS.iter().any(|p| want(p)) { profiles.push(Elf) }
            if run::MAC_PROPS.iter().any(|p| want(p)) { profiles.push(Macho) }
            let mut bigp: Vec<gen::Profile> = vec![];
            if run::ELF_PROPS.iter().any(|p| want(p)) || want("C05") { bigp.push(ElfBig) }
            if !want("C14") && (run::MAC_PROPS.iter().any(|p| want(p)) || want("C05")) { bigp.push(MachoBig) }
            let share = if want("C14") { 0.5 } else { 0.2 };
            let mut bigt = 0.0;
            let mut found: BTreeMap<String, (String, String)> = BTreeMap::new(); // prop -> (file, msg)
            let t0 = Instant::now();
            let (mut evals, mut emitted) = (0u64, 0u64);
            let mut samples: Vec<String> = vec![];
            let mut seen: HashSet<u64> = HashSet::new();
            // watchdog: a history the code does not finish within 60 s is a failing input too
            { let props = props.clone(); let out = out.clone(); let tag = tag.clone();
              std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                let g = CUR.lock().unwrap();
                if let Some((t, text)) = &*g { if t.elapsed() > Duration::from_secs(60) {
                    let f = format!("{}/{}-hang.case", out, tag);
                    let _ = std::fs::write(&f, text);
                    let v: Vec<String> = props.iter().map(|p| format!("{}:{{\"file\":{},\"msg\":\"the call does not return within 60 s\"}}", js(p), js(&f))).collect();
                    println!("{{\"evaluations\":0,\"distinct\":0,\"emitted\":0,\"samples\":[],\"found\":{{{}}}}}", v.join(","));
                    std::process::exit(0)
                } }
            }); }
            if want("C01") { let (n, b) = builders::absorb_pairs(); evals += n; if let Some((p, m)) = b.into_iter().next() { let f = format!("{}/{}-{}.case", out, tag, p); std::fs::write(&f, "builtin absorb\n").unwrap(); found.insert(p.into(), (f, m)); } }
            if want("C23") { let (n, b) = builders::builders(); evals += n; if let Some((p, m)) = b.into_iter().next() { let f = format!("{}/{}-{}.case", out, tag, p); std::fs::write(&f, "builtin builders\n").unwrap(); found.insert(p.into(), (f, m)); } }
            let dir = std::env::temp_dir().join(format!("faerie-replay-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let mut rng = gen::Rng(seed.wrapping_mul(0x1234_5678_9abc_def1));
            let mut k = 0usize;
            let mut bigs = 0;
            while !profiles.is_empty() && t0.elapsed().as_secs_f64() < secs && !props.iter().all(|p| found.contains_key(p)) {
                k += 1;
                let p = if !bigp.is_empty() && bigt < share * t0.elapsed().as_secs_f64() - 0.1 { bigs += 1; bigp[bigs % bigp.len()] } else { profiles[k % profiles.len()] };
                let isbig = matches!(p, ElfBig | MachoBig);
                let tb = Instant::now();
                let c = gen::case(&mut rng, p);
                let text = c.to_text();
                { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); text.hash(&mut h); if !seen.insert(h.finish()) { continue } }
                *CUR.lock().unwrap() = Some((Instant::now(), text.clone()));
                let mut bad = run::run(&c);
                evals += 1;
                if matches!(c.ops.last(), Some(Op::Emit)) { emitted += 1 }
                if want("C05") && k % 16 == 0 && !isbig { bad.extend(run::file_check(&c, &dir)) }
                if samples.len() < 3 && k % 7 == 3 && text.len() < 1500 { samples.push(text.clone()) }
                let mut done: HashSet<&str> = HashSet::new();
                for (pr, m) in &bad {
                    if !want(pr) || found.contains_key(*pr) || !done.insert(pr) { continue }
                    *CUR.lock().unwrap() = Some((Instant::now(), text.clone()));
                    let (sc, sm) = if isbig { if still(&c, pr).is_some() { let r = shrink(&c, pr, &|d| still(d, pr)); (r.0, r.1) } else { (c.clone(), m.clone()) } } else if still(&c, pr).is_some() { shrink(&c, pr, &|d| still(d, pr)) } else { (c.clone(), m.clone()) };
                    let f = format!("{}/{}-{}.case", out, tag, pr);
                    std::fs::write(&f, format!("# property {}: {}\n# reproduce: replay run <this file>\n{}", pr, sm.replace('\n', " "), sc.to_text())).unwrap();
                    found.insert(pr.to_string(), (f, sm));
                }
                *CUR.lock().unwrap() = None;
                if isbig { bigt += tb.elapsed().as_secs_f64() }
            }
            let _ = std::fs::remove_dir_all(&dir);
            let v: Vec<String> = found.iter().map(|(p, (f, m))| format!("{}:{{\"file\":{},\"msg\":{}}}", js(p), js(f), js(m))).collect();
            println!("{{\"evaluations\":{},\"distinct\":{},\"emitted\":{},\"big\":{},\"secs\":{:.2},\"samples\":[{}],\"found\":{{{}}}}}", evals, seen.len(), emitted, bigs, t0.elapsed().as_secs_f64(), samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), v.join(","));
        }
        Some("gen") => { let mut r = gen::Rng(opt("--seed").unwrap().parse().unwrap()); let p = match opt("--profile").unwrap().as_str() { "api" => gen::Profile::Api, "elf" => gen::Profile::Elf, "big" => gen::Profile::ElfBig, "mbig" => gen::Profile::MachoBig, _ => gen::Profile::Macho }; print!("{}", gen::case(&mut r, p).to_text()) }
        _ => { eprintln!("usage: replay run FILE.. | search --props .. --seed .. --secs .. --out DIR"); std::process::exit(2) }
    }
}
