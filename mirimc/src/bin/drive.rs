//! drive --property M04 --tier T --evidence FILE --replays DIR [--replay FILE]
//! Enumerates the cases and has the worker perform them under Miri, the Rust interpreter that
//! checks every single step for undefined behaviour.
use mirimc::explore::*;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

fn esc(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => "\\\"".into(),
            '\\' => "\\\\".into(),
            '\n' => "\\n".into(),
            c if (c as u32) < 32 => " ".into(),
            c => c.to_string(),
        })
        .collect()
}

enum Res {
    /// Cases performed.
    Held(usize),
    /// Index of the case, what Miri says.
    Bad(usize, String),
    NoAnswer(String),
}

fn miri(job: usize, tier: &str, list: &str) -> Res {
    let out = Command::new("cargo")
        .current_dir(std::env::current_exe().unwrap().ancestors().nth(3).unwrap())
        .args(["miri", "run", "--offline", "-q", "--bin", "worker", "--", &job.to_string(), tier, list])
        .env("MIRIFLAGS", "-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks")
        .stdin(Stdio::null())
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => return Res::NoAnswer(format!("cannot run Miri: {}", e)),
    };
    let (so, se) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
    let last = so.lines().filter_map(|l| l.parse::<usize>().ok()).last();
    if let Some(b) = so.lines().find(|l| l.starts_with("BAD ")) {
        return Res::Bad(last.unwrap_or(0), b[4..].to_string());
    }
    if out.status.success() && so.lines().last() == Some("DONE") {
        return Res::Held(last.map_or(0, |l| l + 1));
    }
    match se.find("error: Undefined Behavior") {
        Some(at) if last.is_some() => Res::Bad(last.unwrap(), se[at..].lines().take(14).collect::<Vec<_>>().join("\n")),
        _ => Res::NoAnswer(se.lines().rev().take(12).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n")),
    }
}

fn code(p: &[Op]) -> String {
    p.iter().map(|o| o.code()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    if let Some(f) = arg("--replay") {
        let t = std::fs::read_to_string(f).expect("replay file");
        let w: Vec<&str> = t.lines().next().unwrap().split(' ').collect();
        match miri(w[1].parse().unwrap(), w[2], w[3]) {
            Res::Held(_) => println!("held"),
            Res::Bad(_, m) => {
                println!("{}", m);
                std::process::exit(1)
            }
            Res::NoAnswer(m) => {
                println!("{}", m);
                std::process::exit(2)
            }
        }
        return;
    }
    let tier = arg("--tier").unwrap_or("quick".into());
    let th = tier == "thorough";
    let dir = arg("--replays").unwrap_or("replays".into());
    let start = Instant::now();
    let budget = if th { 3000 } else { 400 };
    let jobs: Vec<Cases> = (0..JOBS).map(|i| job_cases(i, th)).collect();
    // the long cases first
    let mut work: Vec<(usize, usize, usize)> = vec![];
    for (j, c) in jobs.iter().enumerate() {
        let mut at = 0;
        while at < c.cases.len() {
            let n = (c.cases.len() - at).min(if th { 150 } else { 50 });
            work.push((j, at, at + n));
            at += n;
        }
    }
    work.sort_by_key(|w| std::cmp::Reverse(jobs[w.0].cases[w.1..w.2].iter().map(|p| p.len()).sum::<usize>()));
    let next = AtomicUsize::new(0);
    let done = AtomicU64::new(0);
    let ops = AtomicU64::new(0);
    let skipped = AtomicUsize::new(0);
    let bad: Mutex<Vec<(usize, usize, String)>> = Mutex::new(vec![]);
    let none: Mutex<Vec<String>> = Mutex::new(vec![]);
    let per: Vec<AtomicU64> = (0..JOBS).map(|_| AtomicU64::new(0)).collect();
    // builds, so that the others do not wait for each other
    let first = miri(work[0].0, &tier, &code(&jobs[work[0].0].cases[0]));
    if let Res::NoAnswer(m) = first {
        eprintln!("{}", m);
        std::process::exit(2)
    }
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= work.len() || !bad.lock().unwrap().is_empty() {
                    return;
                }
                if start.elapsed().as_secs() > budget {
                    skipped.fetch_add(1, Ordering::SeqCst);
                    continue;
                }
                let (j, from, to) = work[i];
                let list: Vec<String> = jobs[j].cases[from..to].iter().map(|p| code(p)).collect();
                match miri(j, &tier, &list.join(",")) {
                    Res::Held(n) => {
                        done.fetch_add(n as u64, Ordering::SeqCst);
                        per[j].fetch_add(n as u64, Ordering::SeqCst);
                        let l: usize = jobs[j].cases[from..to].iter().map(|p| p.len()).sum();
                        ops.fetch_add(l as u64, Ordering::SeqCst);
                    }
                    Res::Bad(k, m) => bad.lock().unwrap().push((j, from + k, m)),
                    Res::NoAnswer(m) => none.lock().unwrap().push(format!("{}: {}", jobs[j].name, m)),
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    let none = none.into_inner().unwrap();
    let worst = bad.iter().min_by_key(|b| (jobs[b.0].cases[b.1].len(), b.0, b.1));
    if let Some((j, k, m)) = worst {
        let p = &jobs[*j].cases[*k];
        let f = format!("{}/M04-{}-{}.txt", dir, j, k);
        let text = format!("case {} {} {}\n{}: {:?}\nthen everything is looked at and dropped\n{}\n", j, tier, code(p), jobs[*j].name, p, m);
        std::fs::write(&f, &text).expect("replay file");
        println!("{}", text);
        println!("VIOLATION property=M04 replay={}", f);
    }
    for m in &none {
        eprintln!("no answer: {}", m);
    }
    let exhausted = skipped.load(Ordering::SeqCst) == 0 && bad.is_empty() && none.is_empty();
    let done = done.load(Ordering::SeqCst);
    let states: u64 = jobs.iter().map(|c| c.states).sum();
    let runs: Vec<String> = jobs
        .iter()
        .enumerate()
        .map(|(j, c)| {
            let n = per[j].load(Ordering::SeqCst);
            format!(
                "{{\"scenario\":\"{}\",\"what\":\"every operation in every reachable state, under Miri\",\"states\":{},\"transitions\":{},\"completed\":{}}}",
                esc(&c.name), c.states, n, n as usize == c.cases.len()
            )
        })
        .collect();
    let samples: Vec<String> = [2, 9, 19]
        .iter()
        .map(|j| format!("\"{}: {}\"", esc(&jobs[*j].name), esc(&format!("{:?}", jobs[*j].cases[jobs[*j].cases.len() / 2]))))
        .collect();
    let ev = format!(
        "{{\"property\":\"M04\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"operations_executed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":\"A case is a reachable state (contents and heights of two collections), reached by the shortest sequence of operations, and one operation in it, performed on the real collection under Miri, after which everything is looked at and dropped. Enumerated, not drawn. Distinct: element types, state and operation; non-trivial: all.\",\"exhaustive\":{},\"runs\":[{}],\"samples\":[{}]}},\"assumptions\":[\"undefined behaviour is what Miri detects without an aliasing model: access out of bounds, dangling, misaligned, uninitialised, invalid values and references\",\"random choices come from rand::XorShiftRng; every outcome of the stated set is tried for every choice\",\"a skiplist is determined by its contents and the heights of its nodes\"],\"wall_s\":{:.1}}}\n",
        tier,
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        states, done, done, ops.load(Ordering::SeqCst), done, done, exhausted,
        runs.join(","), samples.join(","), start.elapsed().as_secs_f64()
    );
    if let Some(f) = arg("--evidence") {
        std::fs::write(f, ev).expect("evidence");
    }
    if !bad.is_empty() {
        std::process::exit(1)
    }
    if !none.is_empty() {
        std::process::exit(2)
    }
    println!("M04 {}: held on {} cases in {} states, {:.0} s{}", tier, done, states, start.elapsed().as_secs_f64(), if exhausted { "" } else { " (not all: out of time)" });
}
