//! C01: the documented settings of the public VM take effect, and the timings it prints are true.
//!
//! Every setting is tried in a process of its own (`run`), whose standard output, number of worker
//! threads and duration are observed from outside.
use crate::{
    elf::{text, Image, Seg, R, W},
    progen::{generate_with, Spec},
    report::{parallel, Report},
    rng::Rng,
    rv::{RAM_BASE, RV32I},
};
use compiler::Phantom;
use std::{
    collections::BTreeMap,
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

const CALLS: usize = 2;

/// One VM: `CALLS` calls of `cycles` cycles. What was seen goes to standard error.
pub fn run(rep: &Report) {
    let cycles: usize = rep.only.as_ref().unwrap().parse().unwrap();
    let mut r = Rng::new(rep.seed, "c01");
    let c = loop {
        let c = generate_with(
            &Spec { rom_size: 20, ram_size: 1024, base: RAM_BASE, cycles: CALLS * cycles, ops: &RV32I, zero_regs: true },
            &[],
            &mut r,
        );
        if c.cycles == CALLS * cycles {
            break c;
        }
    };
    let image = Image {
        segs: vec![text(&c.rom), Seg::load(R | W, RAM_BASE, c.ram.iter().flat_map(|w| w.to_le_bytes()).collect(), 4096)],
        sections: vec![
            (".text".into(), 0, 4 * c.rom.len() as u32),
            (".inpdata".into(), RAM_BASE, 4),
            (".outdata".into(), RAM_BASE + 8, 4),
        ],
        padding: 0,
    }
    .build();
    let p = Phantom::from_elf(image);
    let mut vm = p.encrypted_vm(&c.ram[0].to_le_bytes(), cycles);
    let threads = vm.verif_parts().3.threads();
    let done = AtomicBool::new(false);
    let peak = AtomicUsize::new(0);
    let tasks = || std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count());
    let (mut wall, mut base) = (vec![], 0);
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                peak.fetch_max(tasks(), Ordering::Relaxed);
                std::thread::sleep(Duration::from_micros(300));
            }
        });
        base = tasks();
        for _ in 0..CALLS {
            let t = Instant::now();
            vm.execute();
            wall.push(t.elapsed().as_secs_f64());
        }
        done.store(true, Ordering::Relaxed);
    });
    let workers = peak.load(Ordering::Relaxed).saturating_sub(base);
    eprintln!("\nC01: {threads} {workers} {}", wall.iter().sum::<f64>());
}

/// `1.5ms` and the like, as Rust prints durations.
fn duration(s: &str) -> Option<f64> {
    let at = s.find(|c: char| !c.is_ascii_digit() && c != '.')?;
    let v: f64 = s[..at].parse().ok()?;
    Some(v * match &s[at..] {
        "ns" => 1e-9,
        "µs" => 1e-6,
        "ms" => 1e-3,
        "s" => 1.0,
        _ => return None,
    })
}

struct Seen {
    threads: usize,
    workers: usize,
    wall: f64,
    /// Lines with a duration, lines without.
    timed: Vec<String>,
    other: usize,
}

/// The printed breakdown of each cycle: total, phases, steps of each phase.
type Cycle = (f64, Vec<(f64, Vec<f64>)>);
fn breakdown(lines: &[String]) -> Option<Vec<Cycle>> {
    let mut out: Vec<Cycle> = vec![];
    for l in lines {
        let d = duration(l.split_whitespace().last()?)?;
        let l = l.trim();
        if l.starts_with(|c: char| c.is_ascii_digit()) {
            out.last_mut()?.1.push((d, vec![]));
        } else if l.starts_with('-') {
            out.last_mut()?.1.last_mut()?.1.push(d);
        } else {
            out.push((d, vec![]));
        }
    }
    out.iter().all(|c| c.1.len() >= 5).then_some(out)
}

type Setting = Option<&'static str>;
fn on(v: Setting) -> bool {
    v.is_some_and(|v| v == "1" || v.eq_ignore_ascii_case("true"))
}

pub fn c01(rep: &Report) {
    rep.rule("each combination of the documented settings runs a program on the public encrypted VM in a process of its own; its standard output, its number of worker threads and its duration are observed. Debug and timing output appear exactly when asked for, the number of workers is the one asked for (and about as many threads are seen), and the printed breakdown of every cycle adds up. A case is one run or one printed cycle.");
    let th = rep.thorough();
    let cycles = if th { 6 } else { 2 };
    // (threads, debug, timings)
    let mut confs: Vec<(Setting, Setting, Setting)> = vec![
        (Some("4"), None, None),
        (Some("2"), None, Some("true")),
        (Some("2"), Some("true"), None),
        (Some("3"), Some("1"), Some("1")),
        (None, Some("false"), Some("false")),
        (Some("many"), Some("0"), Some("0")),
        (Some("5"), Some("TRUE"), Some("yes")),
        (Some("7"), Some("on"), Some("TRUE")),
        (Some("1"), Some(""), Some("1")),
        (Some("16"), Some("1"), Some("")),
        (Some("-3"), Some("2"), Some("True")),
        (Some("33"), Some("True"), Some("11")),
    ];
    if th {
        for t in ["1", "2", "6", "8", "9", "12", "24", "64", "100"] {
            for v in ["1", "true", "tRUE"] {
                confs.push((Some(t), Some(v), None));
                confs.push((Some(t), None, Some(v)));
                confs.push((Some(t), Some("truex"), Some(v)));
            }
        }
    }
    let seen: Mutex<BTreeMap<usize, Seen>> = Mutex::new(BTreeMap::new());
    let label = |i: usize| format!("PHANTOM_THREADS={:?} PHANTOM_DEBUG={:?} PHANTOM_VERBOSE_TIMINGS={:?}", confs[i].0, confs[i].1, confs[i].2);
    let ph = rep.phase(150, 2400);
    parallel(3, confs.len(), |i| {
        if ph.over(i, 10) {
            return;
        }
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.args(["C01-run", &cycles.to_string()]).stdin(Stdio::null());
        cmd.env("VERIF_SEED", (rep.seed + i as u64).to_string());
        for (k, v) in [("PHANTOM_THREADS", confs[i].0), ("PHANTOM_DEBUG", confs[i].1), ("PHANTOM_VERBOSE_TIMINGS", confs[i].2)] {
            match v {
                Some(v) => cmd.env(k, v),
                None => cmd.env_remove(k),
            };
        }
        let o = match cmd.output() {
            Ok(o) => o,
            Err(e) => return rep.inconclusive(format!("cannot start a run: {e}")),
        };
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let report = err.lines().rev().find_map(|l| l.strip_prefix("C01: ").map(str::to_owned));
        let Some(report) = report else {
            let tail: Vec<&str> = err.lines().rev().filter(|l| !l.contains("it/s")).take(4).collect();
            return rep.violation("run", format!("{}: the run failed ({}): {tail:?}", label(i), o.status));
        };
        let f: Vec<&str> = report.split(' ').collect();
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let lines: Vec<&str> = out.lines().filter(|l| !l.trim().is_empty()).collect();
        let timed = |l: &&&str| l.split_whitespace().any(|w| duration(w).is_some());
        seen.lock().unwrap().insert(
            i,
            Seen {
                threads: f[0].parse().unwrap(),
                workers: f[1].parse().unwrap(),
                wall: f[2].parse().unwrap(),
                timed: lines.iter().filter(timed).map(|l| l.to_string()).collect(),
                other: lines.iter().filter(|l| !timed(l)).count(),
            },
        );
        rep.count("runs", 1);
        rep.eval(Some(&label(i)));
    });
    let seen = seen.into_inner().unwrap();
    let total = CALLS * cycles;
    // What timing alone prints besides the timings (headings).
    let heading = seen.iter().filter(|(i, _)| !on(confs[**i].1) && on(confs[**i].2)).map(|(_, s)| s.other).max().unwrap_or(0);
    let cpus = std::thread::available_parallelism().map_or(1, |n| n.get());
    let mut default = None;
    for (&i, s) in &seen {
        let (threads, debug, timings) = (confs[i].0, on(confs[i].1), on(confs[i].2));
        let l = label(i);
        rep.sample(format!("{l}: {} workers of {}, {} timing lines, {} others", s.workers, s.threads, s.timed.len(), s.other));
        match threads.and_then(|t| t.parse::<usize>().ok()) {
            Some(t) if s.threads != t => rep.violation("threads", format!("{l}: {} threads", s.threads)),
            Some(_) => {}
            None if s.threads == 0 || s.threads > 1024.max(cpus) || *default.get_or_insert(s.threads) != s.threads => {
                rep.violation("threads:default", format!("{l}: {} threads, elsewhere {default:?}", s.threads))
            }
            None => {}
        }
        rep.gauge_max("workers_seen", s.workers as f64);
        // Threads that are ending, and the progress bar's, are seen too; no operation has more
        // than 32 independent parts, and not every number divides them evenly.
        if s.workers > 2 * s.threads + 6 || s.workers < s.threads.min(32) / 3 {
            rep.violation("workers", format!("{l}: {} worker threads at a time", s.workers));
        }
        if timings != (s.timed.len() >= total) || (!timings && !s.timed.is_empty()) {
            rep.violation("timings", format!("{l}: {} lines of timings for {total} cycles", s.timed.len()));
        }
        // Debug output: at least one line per cycle beyond the headings of the timings.
        let extra = s.other.saturating_sub(if timings { heading } else { 0 });
        if debug != (extra >= total) || (!debug && extra > 0) {
            rep.violation("debug", format!("{l}: {extra} lines of debug output for {total} cycles"));
        }
        rep.count(&format!("debug_{debug}"), 1);
        rep.count(&format!("timings_{timings}"), 1);
        if !timings {
            continue;
        }
        let Some(cs) = breakdown(&s.timed) else {
            rep.count("breakdowns_of_another_form", 1);
            continue;
        };
        if cs.len() != total {
            rep.violation("cycles", format!("{l}: timings of {} cycles, {total} were run", cs.len()));
            continue;
        }
        // Printed durations are rounded to the nanosecond at worst.
        let tol = 1e-6;
        for (k, (d, phases)) in cs.iter().enumerate() {
            rep.count("printed_cycles", 1);
            rep.eval(Some(&format!("{l}/{k}")));
            let parts: f64 = phases.iter().map(|p| p.0).sum();
            if *d <= 0.0 || parts > d + tol {
                rep.violation("phases", format!("{l}: cycle {k} took {d} s, its phases {parts} s"));
            }
            // Nothing else of weight happens in a cycle (debug mode decrypts in between).
            if !debug && parts < 0.6 * d {
                rep.violation("unaccounted", format!("{l}: cycle {k} took {d} s, its phases only {parts} s"));
            }
            for (j, (p, steps)) in phases.iter().enumerate() {
                let sum: f64 = steps.iter().sum();
                if sum > p + tol || (!steps.is_empty() && !debug && sum < 0.4 * p) {
                    rep.violation("steps", format!("{l}: phase {} of cycle {k} took {p} s, its steps {sum} s", j + 1));
                }
                // The program counter needs no preparation in the very first cycle.
                if (*p <= 0.0 && !(j == 0 && k == 0)) || steps.iter().any(|s| *s <= 0.0) {
                    rep.violation("zero", format!("{l}: phase {} of cycle {k} took no time: {p} {steps:?}", j + 1));
                }
            }
        }
        let sum: f64 = cs.iter().map(|c| c.0).sum();
        if sum > s.wall + tol * total as f64 || sum < 0.3 * s.wall {
            rep.violation("total", format!("{l}: the cycles took {sum} s, the calls {} s", s.wall));
        }
    }
    rep.require("runs", 10.min(confs.len() as u64));
}
