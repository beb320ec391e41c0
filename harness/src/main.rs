use treena_monitor::{inter, ops, rng, run, world};

use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use run::{Case, Source, Stats, Verdict};

static CASE_NO: AtomicU64 = AtomicU64::new(0);

/// CPU seconds used by this process.
fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0)
        + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
    t as f64 / 100.0
}

/// Ends the process with status 42 if one case uses far too much CPU time.
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut no = u64::MAX;
        let mut start = 0.0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CASE_NO.load(Ordering::Relaxed);
            let cpu = cpu_seconds();
            if cur != no {
                no = cur;
                start = cpu;
            } else if cpu - start > limit {
                eprintln!("watchdog: case {cur} used more than {limit} s of CPU time");
                std::process::exit(42);
            }
        }
    });
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        let i = self.0.iter().position(|x| x == k)?;
        self.0.get(i + 1).map(|x| x.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

fn main() {
    let args = Args(std::env::args().skip(1).collect());
    world::install_hook();
    let code = match args.0.first().map(|x| x.as_str()) {
        Some("run") => cmd_run(&args),
        Some("replay") => cmd_replay(&args),
        Some("inter") => cmd_inter(&args),
        _ => {
            eprintln!("usage: treena-monitor run|replay ...");
            2
        }
    };
    std::process::exit(code);
}

/// Deterministic case list of a worker: exhaustive histories, then random ones.
fn cmd_run(a: &Args) -> i32 {
    let pid = a.0.get(1).cloned().unwrap_or_default();
    let p = match run::prop(&pid) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {pid}");
            return 2;
        }
    };
    let seed = a.num("--seed", 1);
    let (worker, workers) = (a.num("--worker", 0), a.num("--workers", 1).max(1));
    let cases = a.num("--cases", 1000);
    let level = a.num("--level", 4) as usize;
    let only = a.get("--only").map(|x| x.parse::<u64>().unwrap_or(0));
    let out = a.get("--out").unwrap_or("/dev/null").to_string();
    let replay = a.get("--replay").unwrap_or("/dev/null").to_string();
    let wall = a.num("--wall", 600);
    let cpu_limit = a.num("--case-cpu", 30);
    let miri = a.get("--no-watchdog").is_some();
    let mut cur = a.get("--cur").and_then(|f| std::fs::File::create(f).ok());
    if !miri {
        watchdog(cpu_limit as f64);
    }
    let start = Instant::now();
    let mut st = Stats::default();
    let mut found: Option<(Case, Vec<ops::Op>, String)> = None;
    let mut no = 0u64;
    let mut timed_out = false;
    let mut exh_cases = 0u64;
    let mut begin = |no: u64| {
        CASE_NO.store(no + 1, Ordering::Relaxed);
        if let Some(f) = cur.as_mut() {
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(format!("{no:020}\n").as_bytes());
        }
    };
    let mut oplog = only.and_then(|_| std::fs::File::create(&replay).ok());
    let mut exec = |c: Case, src: Source, no: u64, st: &mut Stats| -> Option<(Case, Vec<ops::Op>, String)> {
        begin(no);
        let mut trail = vec![];
        if let Some(f) = oplog.as_mut() {
            let _ = write!(
                f,
                "# case {no}: the process did not survive this history\nprop {pid}\nkind {}\nobs_seed {}\nstart_val {}\n",
                c.kind, c.obs_seed, c.start_val
            );
        }
        let v = run::run_case(&p, &c, src, st, &mut trail, oplog.as_mut());
        if st.samples.len() < 2 && no % 97 == worker % 97 && trail.len() > 3 && trail.len() < 80 {
            st.samples.push(format!(
                "{} ids; {}",
                run::kind_name(c.kind),
                trail.iter().map(|o| o.encode()).collect::<Vec<_>>().join("; ")
            ));
        }
        match v {
            Verdict::Violated { msg, .. } => Some((c, trail, msg)),
            _ => None,
        }
    };
    let ex = run::Exhaust::new(p.id, level);
    ex.each(p.id, &mut |h, base_len| {
        let mine = no % workers == worker && only.map_or(true, |o| o == no);
        if mine {
            exh_cases += 1;
            let c = Case {
                kind: (no % run::KINDS as u64) as u8,
                obs_seed: rng::hash2(seed, no),
                start_val: no % 64,
            };
            found = exec(c, Source::Tail(h.to_vec(), base_len), no, &mut st);
            if no % 256 == worker && start.elapsed().as_secs() > wall {
                timed_out = true;
            }
        }
        no += 1;
        found.is_none() && !timed_out
    });
    let base = no;
    if found.is_none() && !timed_out {
        for k in 0..cases {
            let no = base + k;
            if no % workers != worker || only.map_or(false, |o| o != no) {
                continue;
            }
            let (c, src) = run::random_case(&p, seed, k);
            found = exec(c, src, no, &mut st);
            if found.is_some() {
                break;
            }
            if start.elapsed().as_secs() > wall {
                timed_out = true;
                break;
            }
        }
    }
    let mut code = 0;
    if let Some((c, trail, msg)) = found {
        let budget = if only.is_some() { 0 } else { 3000 };
        CASE_NO.store(u64::MAX - 1, Ordering::Relaxed);
        // The unshrunk history first: shrinking might not survive.
        let _ = run::write_replay(&replay, p.id, &c, &trail, &msg);
        let (small, m) = run::shrink(&p, &c, trail.clone(), budget);
        let (ops, m) = if m.is_empty() { (trail, msg) } else { (small, m) };
        let _ = run::write_replay(&replay, p.id, &c, &ops, &m);
        println!("VIOLATED {}", m.chars().take(1500).collect::<String>());
        code = 1;
    }
    let body = st.json();
    let _ = std::fs::write(
        &out,
        format!(
            "{{\"exhaustive_cases\":{exh_cases},\"timed_out\":{timed_out},\"wall\":{:.3},{}",
            start.elapsed().as_secs_f64(),
            &body[1..]
        ),
    );
    code
}

fn cmd_replay(a: &Args) -> i32 {
    let file = a.0.get(1).cloned().unwrap_or_default();
    let (pid, c, ops) = match run::read_replay(&file) {
        Some(x) => x,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let p = match run::prop(&pid) {
        Some(p) => p,
        None => return 2,
    };
    watchdog(60.0);
    let mut st = Stats::default();
    match run::run_case(&p, &c, Source::List(ops), &mut st, &mut vec![], None) {
        Verdict::Held => {
            println!("held");
            0
        }
        Verdict::Abandoned(m) => {
            println!("not decided: {m}");
            0
        }
        Verdict::Violated { msg, .. } => {
            println!("VIOLATED {}", msg.chars().take(1500).collect::<String>());
            1
        }
    }
}

/// All interleavings of both ends, on all small trees.
fn cmd_inter(a: &Args) -> i32 {
    let pid = a.0.get(1).cloned().unwrap_or_default();
    watchdog(600.0);
    let (worker, workers) = (a.num("--worker", 0), a.num("--workers", 1).max(1));
    let start = Instant::now();
    let r = inter::run(
        &pid,
        a.num("--level", 5) as usize,
        a.num("--maxlen", 12) as usize,
        worker,
        workers,
        &|n| CASE_NO.store(n, Ordering::Relaxed),
    );
    let _ = std::fs::write(
        a.get("--out").unwrap_or("/dev/null"),
        format!(
            "{{\"trees\":{},\"sequences\":{},\"interleavings\":{},\"steps\":{},\"wall\":{:.3}}}",
            r.trees,
            r.sequences,
            r.interleavings,
            r.steps,
            start.elapsed().as_secs_f64()
        ),
    );
    match r.bad {
        None => 0,
        Some(m) => {
            let _ = std::fs::write(
                a.get("--replay").unwrap_or("/dev/null"),
                format!("interleaving {pid}\n{m}\n"),
            );
            println!("VIOLATED {m}");
            1
        }
    }
}
