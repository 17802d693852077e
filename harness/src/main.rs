#![allow(unused_imports)]
#![allow(clippy::all)]
#![allow(dead_code)]
mod model;
mod pbt;
mod gen;
mod props;
mod read;

use pbt::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::time::{Duration, Instant};

pub struct Sub {
    pub name: &'static str,
    pub f: PropFn,
    pub quick: u64,
    pub thorough: u64,
}
pub struct Known {
    pub id: &'static str,
    /// Some(text) when the recorded finding still reproduces
    pub f: fn() -> Option<String>,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub known: Vec<Known>,
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)) ^ hash_str(sub).rotate_left(17) ^ mix(idx))
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn worker(prop: &Prop, tier: &str, seed: u64, w: u64, nw: u64, out: &str, only: Option<&str>, maxfail: usize, scale: f64, skip: &HashSet<(u64, u64)>) {
    let cur = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(format!("{out}.cur"))
        .unwrap();
    let mut subs_json = vec![];
    let mut failures: Vec<Value> = vec![];
    for (si, sub) in prop.subs.iter().enumerate() {
        if let Some(o) = only {
            if sub.name != o {
                continue;
            }
        }
        let total = ((if tier == "thorough" { sub.thorough } else { sub.quick }) as f64 * scale) as u64;
        let mut evals = 0u64;
        let mut nontrivial: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut excluded = 0u64;
        let mut samples: Vec<Value> = vec![];
        let mut subfails = 0usize;
        let mut idx = w;
        let t0 = Instant::now();
        while idx < total {
            if skip.contains(&(si as u64, idx)) {
                idx += nw;
                continue;
            }
            let mut rec = [0u8; 16];
            rec[..8].copy_from_slice(&(si as u64).to_le_bytes());
            rec[8..].copy_from_slice(&idx.to_le_bytes());
            let _ = cur.write_all_at(&rec, 0);
            let mut g = G::random(case_seed(seed, prop.id, sub.name, idx));
            let o = run_case(sub.f, &mut g);
            evals += 1;
            excluded += g.excluded;
            for l in &g.labels {
                *labels.entry(l.clone()).or_default() += 1;
            }
            if g.nontrivial {
                let mut h = 7u64;
                for x in g.consumed() {
                    h = mix(h ^ x);
                }
                if nontrivial.insert(h) && w == 0 && samples.len() < 3 && o.is_pass() {
                    let mut g2 = G::replay(g.consumed());
                    g2.verbose = true;
                    let _ = run_case(sub.f, &mut g2);
                    let s: String = g2.notes.join("; ").chars().take(900).collect();
                    samples.push(json!({"sub": sub.name, "case": idx, "case_text": s}));
                }
            }
            if let Outcome::Fail(m) = o {
                subfails += 1;
                failures.push(json!({"sub": sub.name, "idx": idx, "msg": m, "tape": g.consumed()}));
                if subfails >= maxfail {
                    break;
                }
            }
            idx += nw;
        }
        subs_json.push(json!({"sub": sub.name, "evals": evals, "nontrivial": nontrivial.into_iter().collect::<Vec<_>>(),
            "labels": labels, "excluded": excluded, "samples": samples, "secs": t0.elapsed().as_secs_f64()}));
    }
    let v = json!({"subs": subs_json, "failures": failures});
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    let _ = cur.write_all_at(&[0xffu8; 16], 0);
}

impl Outcome {
    fn is_pass(&self) -> bool {
        matches!(self, Outcome::Pass)
    }
}

/// runs one tape in a child process; used when the failure kills the process
fn try_in_child(prop: &str, sub: &str, tape: &[u64], tmp: &str) -> (i32, Option<i32>, String, Vec<u64>) {
    let f = format!("{tmp}/child.json");
    std::fs::write(&f, serde_json::to_vec(&json!({"property": prop, "sub": sub, "tape": tape})).unwrap()).unwrap();
    let _ = std::fs::remove_file(format!("{f}.used"));
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["replay", &f, "--quiet"])
        .env("VX_USED", format!("{f}.used"))
        .stderr(std::process::Stdio::null())
        .output()
        .unwrap();
    let used: Vec<u64> = std::fs::read(format!("{f}.used"))
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or_else(|| tape.to_vec());
    (
        o.status.code().unwrap_or(-1),
        o.status.signal(),
        String::from_utf8_lossy(&o.stdout).into_owned(),
        used,
    )
}

/// waits; true when the child had to be stopped
fn wait_limited(mut c: std::process::Child, secs: u64) -> bool {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(_)) = c.try_wait() {
            return false;
        }
        if t0.elapsed().as_secs() > secs {
            let _ = c.kill();
            let _ = c.wait();
            return true;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

struct Args {
    maxfail: usize,
    only: Option<String>,
    scale: f64,
    dev: bool,
    shrink: bool,
    nw: u64,
}

fn check(prop: &Prop, tier: &str, seed: u64, a: &Args) -> i32 {
    let t0 = Instant::now();
    let vd = verif_dir();
    let tmp = format!("{vd}/target/run/{}-{}", prop.id, std::process::id());
    let _ = std::fs::remove_dir_all(&tmp);
    std::fs::create_dir_all(&tmp).unwrap();
    let nw = a.nw;
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    let mut crashes: Vec<(u64, u64, u64, String)> = vec![];
    let mut hangs: Vec<(u64, u64, String)> = vec![];
    let mut stop = false;
    let spawn = |w: u64, skip: &[(u64, u64)]| {
        let mut c = std::process::Command::new(&exe);
        c.args(["worker", prop.id, tier, &seed.to_string(), &w.to_string(), &nw.to_string(), &format!("{tmp}/w{w}.json")]);
        c.args(["--maxfail", &a.maxfail.to_string(), "--scale", &a.scale.to_string()]);
        if let Some(o) = &a.only {
            c.args(["--only", o]);
        }
        c.env("VX_TMP", &tmp);
        if !skip.is_empty() {
            c.args(["--skip", &skip.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(",")]);
        }
        c.stderr(std::fs::File::create(format!("{tmp}/w{w}.err")).unwrap());
        c.spawn().unwrap()
    };
    for w in 0..nw {
        kids.push((w, spawn(w, &[]), None::<std::process::ExitStatus>, ([0u8; 16], Instant::now())));
    }
    let mut inconclusive: Option<String> = None;
    let watchdog: u64 = std::env::var("VX_WATCHDOG").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    loop {
        let mut alive = 0;
        for (w, k, st, last) in kids.iter_mut() {
            if st.is_none() {
                if let Ok(Some(s)) = k.try_wait() {
                    // a crashing case: remember it and carry on with the other cases of this worker
                    let mut b = [0u8; 16];
                    let _ = std::fs::File::open(format!("{tmp}/w{w}.json.cur")).map(|f| f.read_exact_at(&mut b, 0));
                    let (si, idx) = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()));
                    let err = std::fs::read_to_string(format!("{tmp}/w{w}.err")).unwrap_or_default();
                    let tail: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
                    let mine = crashes.iter().filter(|c| c.0 == *w).count();
                    if matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11)) && (si as usize) < prop.subs.len()
                        && mine < if a.dev { 40 } else { 2 } {
                        crashes.push((*w, si, idx, format!("process killed by signal {} | stderr: {tail}", s.signal().unwrap())));
                        let skip: Vec<(u64, u64)> = crashes.iter().filter(|c| c.0 == *w).map(|c| (c.1, c.2)).collect();
                        *k = spawn(*w, &skip);
                        last.1 = Instant::now();
                        alive += 1;
                        continue;
                    }
                    *st = Some(s);
                } else {
                    alive += 1;
                    let mut b = [0u8; 16];
                    if let Ok(f) = std::fs::File::open(format!("{tmp}/w{w}.json.cur")) {
                        let _ = f.read_exact_at(&mut b, 0);
                    }
                    if b != last.0 {
                        *last = (b, Instant::now());
                    } else if last.1.elapsed().as_secs() > watchdog {
                        // a case that does not end: confirm it alone, then carry on without it
                        let (si, idx) = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()));
                        let _ = k.kill();
                        let _ = k.wait();
                        if (si as usize) >= prop.subs.len() {
                            inconclusive = Some(format!("worker {w} made no progress for {watchdog}s between cases"));
                            break;
                        }
                        let f = format!("{tmp}/hang{w}.json");
                        let sub = prop.subs[si as usize].name;
                        let rec = json!({"property": prop.id, "sub": sub, "seed_case": case_seed(seed, prop.id, sub, idx), "tape": Value::Null});
                        std::fs::write(&f, serde_json::to_vec(&rec).unwrap()).unwrap();
                        let c = std::process::Command::new(&exe)
                            .args(["replay", &f, "--quiet"])
                            .env("VX_TMP", &tmp)
                            .stdout(std::process::Stdio::null())
                            .stderr(std::process::Stdio::null())
                            .spawn()
                            .unwrap();
                        let hung = wait_limited(c, watchdog);
                        if !hung {
                            inconclusive = Some(format!("worker {w} made no progress for {watchdog}s in sub {sub} case {idx}, but the case ends on its own"));
                            break;
                        }
                        hangs.push((si, idx, format!("no answer within {watchdog} s (twice)")));
                        if hangs.len() >= 2 {
                            *st = Some(std::process::ExitStatus::from_raw(0));
                            stop = true;
                            break;
                        }
                        let mut skip: Vec<(u64, u64)> = crashes.iter().filter(|c| c.0 == *w).map(|c| (c.1, c.2)).collect();
                        skip.extend(hangs.iter().map(|h| (h.0, h.1)));
                        *k = spawn(*w, &skip);
                        last.1 = Instant::now();
                    }
                }
            }
        }
        if alive == 0 || inconclusive.is_some() || stop {
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    if inconclusive.is_some() || stop {
        for (_, k, _, _) in kids.iter_mut() {
            let _ = k.kill();
            let _ = k.wait();
        }
    }
    if let Some(m) = inconclusive {
        println!("INCONCLUSIVE property={} {m}", prop.id);
        return 3;
    }
    let mut failures: Vec<(String, u64, String, Vec<u64>, bool)> = vec![];
    let mut evals = 0u64;
    let mut excluded = 0u64;
    let mut nontrivial: HashSet<(String, u64)> = HashSet::new();
    let mut labels: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut sub_evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut secs: BTreeMap<String, f64> = BTreeMap::new();
    for (_, si, idx, m) in &crashes {
        failures.push((prop.subs[*si as usize].name.to_string(), *idx, m.clone(), vec![], true));
    }
    for (si, idx, m) in &hangs {
        failures.push((prop.subs[*si as usize].name.to_string(), *idx, m.clone(), vec![], true));
    }
    for (w, _, st, _) in &kids {
        if stop {
            break;
        }
        let st = st.unwrap();
        if !st.success() {
            let mut b = [0u8; 16];
            let f = std::fs::File::open(format!("{tmp}/w{w}.json.cur")).unwrap();
            let _ = f.read_exact_at(&mut b, 0);
            let si = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
            let idx = u64::from_le_bytes(b[8..].try_into().unwrap());
            let err = std::fs::read_to_string(format!("{tmp}/w{w}.err")).unwrap_or_default();
            let tail: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
            match st.signal() {
                Some(sig @ (4 | 6 | 7 | 8 | 11)) if si < prop.subs.len() => {
                    let m = format!("process killed by signal {sig} | stderr: {tail}");
                    // the tape of the crashing case: regenerate by running it in a child that logs the tape
                    failures.push((prop.subs[si].name.to_string(), idx, m, vec![], true));
                }
                s => {
                    println!("INCONCLUSIVE property={} worker {w} ended with {:?} {:?}: {tail}", prop.id, st.code(), s);
                    return 4;
                }
            }
            continue;
        }
        let v: Value = serde_json::from_slice(&std::fs::read(format!("{tmp}/w{w}.json")).unwrap()).unwrap();
        for s in v["subs"].as_array().unwrap() {
            let name = s["sub"].as_str().unwrap().to_string();
            let e = s["evals"].as_u64().unwrap();
            evals += e;
            *sub_evals.entry(name.clone()).or_default() += e;
            excluded += s["excluded"].as_u64().unwrap();
            *secs.entry(name.clone()).or_default() += s["secs"].as_f64().unwrap();
            for h in s["nontrivial"].as_array().unwrap() {
                nontrivial.insert((name.clone(), h.as_u64().unwrap()));
            }
            let l = labels.entry(name.clone()).or_default();
            for (k, n) in s["labels"].as_object().unwrap() {
                *l.entry(k.clone()).or_default() += n.as_u64().unwrap();
            }
            for x in s["samples"].as_array().unwrap() {
                samples.push(x.clone());
            }
        }
        for f in v["failures"].as_array().unwrap() {
            failures.push((
                f["sub"].as_str().unwrap().into(),
                f["idx"].as_u64().unwrap(),
                f["msg"].as_str().unwrap().into(),
                f["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                false,
            ));
        }
    }
    // order by sub order then case index
    let order = |n: &str| prop.subs.iter().position(|s| s.name == n).unwrap_or(0);
    failures.sort_by(|a, b| (order(&a.0), a.1).cmp(&(order(&b.0), b.1)));
    // one per signature
    let mut seen: BTreeMap<(String, String), u64> = BTreeMap::new();
    let mut uniq = vec![];
    for f in failures {
        let k = (f.0.clone(), signature(&f.2));
        let n = seen.entry(k).or_default();
        *n += 1;
        if *n == 1 {
            uniq.push(f);
        }
    }
    let n_violations = uniq.len();
    let limit = if a.dev { 200 } else { 3 };
    let replay_dir = format!("{vd}/replays");
    // shrink ordinary failures in child processes, several at a time
    let mut shrunk: Vec<Value> = vec![Value::Null; uniq.len().min(limit)];
    {
        let ts = Instant::now();
        let mut running: Vec<(usize, std::process::Child)> = vec![];
        let mut queue: Vec<usize> = (0..uniq.len().min(limit)).filter(|k| !uniq[*k].4).rev().collect();
        loop {
            while running.len() < 8 {
                let Some(k) = queue.pop() else { break };
                let f = format!("{tmp}/shrink{k}.json");
                std::fs::write(&f, serde_json::to_vec(&json!({"property": prop.id, "sub": uniq[k].0, "tape": uniq[k].3, "msg": uniq[k].2, "shrink": a.shrink})).unwrap()).unwrap();
                let c = std::process::Command::new(&exe).args(["shrink", &f]).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null()).spawn().unwrap();
                running.push((k, c));
            }
            if running.is_empty() {
                break;
            }
            let mut still = vec![];
            for (k, mut c) in running {
                if !a.dev && ts.elapsed().as_secs() > 60 {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                match c.try_wait() {
                    Ok(None) => still.push((k, c)),
                    _ => {
                        if let Ok(b) = std::fs::read(format!("{tmp}/shrink{k}.json.out")) {
                            if let Ok(v) = serde_json::from_slice(&b) {
                                shrunk[k] = v;
                            }
                        }
                    }
                }
            }
            running = still;
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    for (k, (sub, idx, msg, tape, crash)) in uniq.iter().take(limit).enumerate() {
        let s = prop.subs.iter().find(|s| s.name == sub).unwrap();
        std::fs::create_dir_all(&replay_dir).unwrap();
        let path = format!("{replay_dir}/{}-{}-{}-{}.json", prop.id, sub, seed, idx);
        let (stape, smsg, runs, notes);
        if *crash {
            let base = json!({"property": prop.id, "sub": sub, "seed_case": case_seed(seed, prop.id, sub, *idx), "tape": Value::Null});
            std::fs::write(&path, serde_json::to_vec_pretty(&base).unwrap()).unwrap();
            // obtain the tape draws made before the crash
            let tf = format!("{tmp}/tape.txt");
            let c = std::process::Command::new(&exe)
                .args(["tape", &path])
                .stderr(std::process::Stdio::null())
                .stdout(std::fs::File::create(&tf).unwrap())
                .spawn()
                .unwrap();
            wait_limited(c, watchdog);
            let t: Vec<u64> = String::from_utf8_lossy(&std::fs::read(&tf).unwrap_or_default())
                .lines()
                .filter_map(|l| l.trim().parse().ok())
                .collect();
            if !t.is_empty() && !msg.starts_with("no answer") {
                let ts = Instant::now();
                let (a1, b1, c1) = shrink(t, msg.clone(), 250, |c| {
                    if ts.elapsed().as_secs() > 40 {
                        return None;
                    }
                    let (_, sig, _, used) = try_in_child(prop.id, sub, c, &tmp);
                    sig.map(|x| (used, format!("process killed by signal {x}")))
                });
                stape = json!(a1);
                smsg = b1;
                runs = c1;
            } else {
                stape = if t.is_empty() { Value::Null } else { json!(t) };
                smsg = msg.clone();
                runs = 0;
            }
            notes = vec![];
        } else {
            let v: Value = shrunk[k].clone();
            if v.is_null() {
                stape = json!(tape);
                smsg = msg.clone();
                runs = 0;
                notes = vec![];
            } else {
                stape = v["tape"].clone();
                smsg = v["message"].as_str().unwrap_or("").to_string();
                runs = v["runs"].as_u64().unwrap_or(0) as usize;
                notes = v["notes"].as_array().map(|x| x.iter().map(|y| y.as_str().unwrap_or("").to_string()).collect::<Vec<String>>()).unwrap_or_default();
            }
        }
        let rec = json!({"property": prop.id, "sub": sub, "seed": seed, "case": idx,
            "seed_case": case_seed(seed, prop.id, sub, *idx),
            "tape": stape, "shrink_runs": runs, "message": smsg, "original_message": msg, "case_text": notes});
        std::fs::write(&path, serde_json::to_vec_pretty(&rec).unwrap()).unwrap();
        let cnt = seen.get(&(sub.clone(), signature(msg))).copied().unwrap_or(1);
        if a.dev {
            println!("--- [{k}] {sub} case {idx} (x{cnt})\n    {}", smsg.chars().take(500).collect::<String>());
            for n in notes.iter() {
                println!("      . {}", n.chars().take(260).collect::<String>());
            }
            println!("    replay {path}");
        } else {
            println!("# {} case {}: {}", sub, idx, smsg.chars().take(1500).collect::<String>().replace('\n', " "));
            for n in notes.iter() {
                println!("#   {}", n.chars().take(500).collect::<String>().replace('\n', " "));
            }
            println!("VIOLATION property={} replay={}", prop.id, path);
        }
    }
    // recorded findings
    let listed = std::fs::read_to_string(format!("{vd}/known_findings.txt")).unwrap_or_default();
    let mut kf = vec![];
    for k in &prop.known {
        let is_listed = listed.lines().any(|l| l.starts_with("finding:") && l.contains(&format!("property={} ", prop.id)) && l.contains(&format!("id={} ", k.id)));
        match guard(k.f) {
            Ok(Some(t)) => {
                if is_listed {
                    println!("KNOWN-FINDING: property={} {} {}", prop.id, k.id, t.replace('\n', " "));
                    kf.push(json!({"id": k.id, "what": t}));
                } else {
                    println!("# unlisted pinned finding {}: {}", k.id, t.replace('\n', " "));
                    println!("VIOLATION property={} replay={}/known_findings.txt#{}", prop.id, vd, k.id);
                    return 1;
                }
            }
            Ok(None) => {}
            Err(e) => {
                println!("harness error in pinned finding {}: {e}", k.id);
                return 5;
            }
        }
    }
    let cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": nontrivial.len(),
        "rule": prop.rule,
        "samples": samples.into_iter().take(20).collect::<Vec<_>>(),
        "evaluations_per_subproperty": sub_evals,
        "excluded_by_known_findings": excluded,
        "labels": labels,
        "cpu_seconds_per_subproperty": secs,
        "known_findings": kf,
    });
    let ev = json!({"property": prop.id, "tier": if tier=="thorough" {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": n_violations});
    if !a.dev {
        std::fs::create_dir_all(format!("{vd}/evidence")).unwrap();
        std::fs::write(format!("{vd}/evidence/{}.json", prop.id), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    } else {
        for (s, l) in &labels {
            println!("labels {s}: {} evals {:.1} cpu s", sub_evals[s], secs[s]);
            for (k, n) in l {
                println!("    {k}: {n}");
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    println!(
        "property={} evaluations={} distinct_nontrivial={} violations={} excluded={} wall={:.1}s",
        prop.id,
        evals,
        nontrivial.len(),
        n_violations,
        excluded,
        t0.elapsed().as_secs_f64()
    );
    if n_violations > 0 {
        1
    } else {
        0
    }
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn real_main() -> i32 {
    install_hook();
    let argv: Vec<String> = std::env::args().collect();
    let flag = |n: &str| argv.iter().position(|a| a == n).and_then(|i| argv.get(i + 1).cloned());
    let has = |n: &str| argv.iter().any(|a| a == n);
    let props = props::all();
    match argv.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {:?}", p.id, p.subs.iter().map(|s| (s.name, s.quick, s.thorough)).collect::<Vec<_>>());
            }
            0
        }
        Some("check") => {
            let p = find(&props, &argv[2]);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let dev = has("--dev");
            let a = Args {
                maxfail: flag("--maxfail").and_then(|s| s.parse().ok()).unwrap_or(if dev { 40 } else { 3 }),
                only: flag("--only"),
                scale: flag("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                dev,
                shrink: !has("--no-shrink"),
                nw: flag("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
            };
            check(p, &tier, seed, &a)
        }
        Some("worker") => {
            let p = find(&props, &argv[2]);
            worker(
                p,
                &argv[3],
                argv[4].parse().unwrap(),
                argv[5].parse().unwrap(),
                argv[6].parse().unwrap(),
                &argv[7],
                flag("--only").as_deref(),
                flag("--maxfail").unwrap().parse().unwrap(),
                flag("--scale").unwrap().parse().unwrap(),
                &flag("--skip")
                    .map(|s| {
                        s.split(',')
                            .map(|x| {
                                let (a, b) = x.split_once(':').unwrap();
                                (a.parse().unwrap(), b.parse().unwrap())
                            })
                            .collect()
                    })
                    .unwrap_or_default(),
            );
            0
        }
        Some("shrink") => {
            let v: Value = serde_json::from_slice(&std::fs::read(&argv[2]).unwrap()).unwrap();
            let p = find(&props, v["property"].as_str().unwrap());
            let s = p.subs.iter().find(|s| s.name == v["sub"].as_str().unwrap()).unwrap();
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let msg = v["msg"].as_str().unwrap().to_string();
            let tag = coarse(&msg);
            let save = |t: &[u64], m: &str, r: usize, notes: &[String]| {
                let f = format!("{}.out", argv[2]);
                std::fs::write(format!("{f}.t"), serde_json::to_vec(&json!({"tape": t, "message": m, "runs": r, "notes": notes})).unwrap()).unwrap();
                std::fs::rename(format!("{f}.t"), f).unwrap();
            };
            let mut nsave = Instant::now();
            let (t, m, r) = if v["shrink"].as_bool().unwrap() {
                shrink(tape.clone(), msg.clone(), 3000, |c| {
                    let mut g = G::replay(c.to_vec());
                    g.verbose = true;
                    match run_case(s.f, &mut g) {
                        Outcome::Fail(m) if coarse(&m) == tag => {
                            if nsave.elapsed().as_millis() > 50 {
                                save(&g.consumed(), &m, 0, &g.notes);
                                nsave = Instant::now();
                            }
                            Some((g.consumed(), m))
                        }
                        _ => None,
                    }
                })
            } else {
                (tape.clone(), msg.clone(), 0)
            };
            let mut g = G::replay(t.clone());
            g.verbose = true;
            let _ = run_case(s.f, &mut g);
            save(&t, &m, r, &g.notes);
            0
        }
        Some("replay") | Some("tape") => {
            let v: Value = serde_json::from_slice(&std::fs::read(&argv[2]).unwrap()).unwrap();
            let p = find(&props, v["property"].as_str().unwrap());
            let s = p.subs.iter().find(|s| s.name == v["sub"].as_str().unwrap()).unwrap();
            let mut g = match v["tape"].as_array() {
                Some(t) => G::replay(t.iter().map(|x| x.as_u64().unwrap()).collect()),
                None => G::random(v["seed_case"].as_u64().unwrap()),
            };
            if argv[1] == "tape" {
                // print draws as they are made (the case may kill the process)
                g = G::random(v["seed_case"].as_u64().unwrap());
                g.echo(true);
            }
            g.verbose = true;
            let quiet = has("--quiet");
            g.eager = !quiet && argv[1] == "replay";
            let o = run_case(s.f, &mut g);
            if let Ok(u) = std::env::var("VX_USED") {
                let _ = std::fs::write(u, serde_json::to_vec(&g.consumed()).unwrap());
            }
            if !quiet {
                println!("labels: {:?}", g.labels);
            }
            match o {
                Outcome::Pass => {
                    println!("PASS");
                    0
                }
                Outcome::Fail(m) => {
                    println!("FAIL {m}");
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: vxcheck check|replay|list");
            2
        }
    }
}

fn main() {
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(real_main)
        .unwrap()
        .join()
        .unwrap_or(70);
    std::process::exit(code);
}
