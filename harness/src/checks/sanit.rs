//! M01: the real code under AddressSanitizer and ThreadSanitizer.
//!
//! `workload` runs inside the sanitized builds of this harness; `m01` starts them and judges the
//! sanitizers' reports. What the workload computes is judged by the other checks, not here.
use crate::{
    checks::{global::case, plain::layout},
    ctx::{dec, enc, enc_prep, scratch, Ctx, Src},
    encvm::EncVm,
    report::{catch, parallel, Report},
    rng::Rng,
};
use compiler::Phantom;
use fhevm::verif_hooks as h;
use poulpy_hal::api::ScratchOwnedBorrow;
use std::{
    fs,
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

/// One memory: encryption and a history at boundary addresses.
fn memory(rep: &Report, ctx: &Ctx, k: usize, words: usize, threads: usize, steps: usize) {
    let mut r = Rng::new(rep.seed, &format!("m01/m/{k}/{words}/{threads}"));
    let mut src = Src::new(rep.seed, 100 + k as u64);
    let mut sc = scratch(threads);
    let mut mem = h::Mem::new(&ctx.params, 32, words);
    let data: Vec<u32> = (0..if k % 3 == 2 { words.div_ceil(2) } else { words }).map(|_| r.word()).collect();
    let (m, keys) = (ctx.module(), &ctx.keys);
    let done = catch(|| {
        mem.encrypt(m, &data, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
        for step in 0..steps {
            let a = [words - 1, words / 2, 0, r.below(words as u32) as usize][(step + k) % 4];
            let pa = enc_prep(ctx, a as u32, &mut src, &mut sc);
            let cv = enc(ctx, r.u32(), &mut src, &mut sc);
            let mut res = ctx.ct();
            match (step + k) % 4 {
                0 => mem.read_stateless(threads, m, &mut res, &pa, 0, keys, sc.borrow()),
                1 => mem.write(threads, m, &cv, &pa, 0, keys, sc.borrow()),
                2 => {
                    mem.read_statefull(threads, m, &mut res, &pa, 0, keys, sc.borrow());
                    mem.read_statefull_rev(threads, m, &cv, &pa, 0, keys, sc.borrow());
                }
                _ => mem.zero(threads, m, a, keys, sc.borrow()),
            }
            rep.count("memory_operations", 1);
            rep.eval(Some(&format!("m/{words}/{threads}/{}/{a}", (step + k) % 4)));
        }
        mem.decrypt(m, &ctx.sk, sc.borrow()).len()
    });
    rep.count(if done.is_ok() { "memories" } else { "panicked" }, 1);
}

/// Every unit on its own.
fn units(rep: &Report, ctx: &Ctx, k: usize, threads: usize, few: bool) {
    let rd = h::rd_ops(false);
    let (ramops, pcops) = (h::ram_ops(), h::pc_ops());
    let mut r = Rng::new(rep.seed, &format!("m01/u/{k}"));
    let mut src = Src::new(rep.seed, 500 + k as u64);
    let mut sc = scratch(threads);
    let done = catch(|| {
        let p: Vec<_> = (0..5).map(|_| enc_prep(ctx, r.word(), &mut src, &mut sc)).collect();
        let ct: Vec<_> = (0..2).map(|_| enc(ctx, r.word(), &mut src, &mut sc)).collect();
        let sel = enc_prep(ctx, pcops[k % pcops.len()].0, &mut src, &mut sc);
        let (m, keys) = (ctx.module(), &ctx.keys);
        let mut res = ctx.ct();
        h::pc_update_enc(threads, m, &mut res, &p[0], &p[1], &p[2], &p[3], &sel, keys, sc.borrow());
        h::ram_offset_enc(threads, m, &mut res, &p[0], &p[1], keys, sc.borrow());
        let mut n = 2;
        for (id, _) in &ramops {
            h::ram_eval_enc(*id, threads, m, &mut res, &ct[0], &ct[1], &p[2], keys, sc.borrow());
            n += 1;
        }
        for (i, (id, _)) in rd.iter().enumerate() {
            if !few || i % 6 == k % 6 {
                h::rd_eval_enc(*id, threads, m, &mut res, &p[0], &p[1], &p[3], &p[2], &ct[1], keys, sc.borrow());
                n += 1;
            }
        }
        dec(ctx, &res, &mut sc);
        n
    });
    match done {
        Ok(n) => {
            rep.count("unit_evaluations", n);
            rep.evals(n, [crate::report::hash(&format!("u/{k}/{threads}"))]);
        }
        Err(_) => rep.count("panicked", 1),
    }
}

/// A whole VM for a few cycles.
fn vm(rep: &Report, ctx: &Ctx, k: usize, rom: usize, ram: usize, threads: usize, cycles: usize) {
    let debug = k % 3 == 1 && ram.is_power_of_two();
    let c = case(rep.seed, &format!("m01/vm/{k}"), rom, ram, cycles, false);
    let mut src = Src::new(rep.seed, 900 + k as u64);
    let done = catch(|| {
        let mut v = EncVm::new(ctx, &c.rom, &c.ram, Some(&c.regs), threads, debug, &mut src);
        for q in 0..c.cycles {
            if debug {
                v.cycle_debug();
            } else {
                v.cycle();
            }
            // The number of workers may change between cycles.
            if q == 0 && threads > 2 && k % 2 == 1 {
                v.vm.set_threads(threads - 1);
            }
            rep.count("cycles", 1);
            rep.eval(Some(&format!("vm/{rom}/{ram}/{threads}/{q}")));
        }
        v.snap().ram.len()
    });
    rep.count(if done.is_ok() { "vms" } else { "panicked" }, 1);
}

/// The loader and the plaintext VM on well-formed, spoiled and aimless executables.
fn plain(rep: &Report, n: usize) {
    parallel(8, n, |k| {
        let mut r = Rng::new(rep.seed, &format!("m01/p/{k}"));
        let l = layout(&mut r);
        let mut elf = l.image.build();
        let spoiled = k % 2 == 1;
        if spoiled {
            match r.below(3) {
                0 => elf.truncate(r.below(elf.len() as u32) as usize),
                _ => {
                    for _ in 0..1 + r.below(4) {
                        let at = if r.chance(2, 3) { r.below(200.min(elf.len() as u32)) } else { r.below(elf.len() as u32) } as usize;
                        elf[at] = r.u32() as u8;
                    }
                }
            }
        }
        let ran = catch(|| {
            let p = Phantom::from_elf(elf.clone());
            let mut t = p.test_vm(200);
            let input: Vec<u8> = (0..*p.input_info().size()).map(|_| r.u32() as u8).collect();
            t.read_input_tape(&input);
            let _ = catch(|| t.execute());
            t.output_tape().len()
        });
        rep.count(if spoiled { "spoiled_executables" } else { "executables" }, 1);
        rep.count(if ran.is_ok() { "executables_run" } else { "executables_refused" }, 1);
        rep.eval(Some(&format!("p/{k}")));
    });
}

pub fn workload(rep: &Report) {
    let race = rep.only.as_deref() == Some("thread");
    let th = rep.thorough();
    let ctx = Ctx::fast(rep.seed, 14);
    if !race {
        plain(rep, if th { 40_000 } else { 3_000 });
        let sizes = [1usize, 2, 3, 33, 1000, 1024, 1025, 1500, 2049, 3000, 5000];
        let threads = [1usize, 2, 3, 5, 7, 8, 11, 31, 32, 33, 64];
        let ph = rep.phase(40, 1200);
        parallel(4, if th { 400 } else { 44 }, |k| {
            if !ph.over(k, 11) {
                memory(rep, &ctx, k, sizes[k % 11], threads[(k + k / 11) % 11], 4);
            }
        });
        let ph = rep.phase(30, 900);
        parallel(4, if th { 60 } else { 11 }, |k| {
            if !ph.over(k, 4) {
                units(rep, &ctx, k, threads[k % 11], false);
            }
        });
        let ph = rep.phase(70, 2400);
        let shapes = [(1, 1), (16, 40), (1030, 64), (7, 1100), (40, 1024), (2100, 3), (33, 2500)];
        parallel(4, if th { 120 } else { 24 }, |k| {
            let (rom, ram) = shapes[k % 7];
            if !ph.over(k, 7) {
                vm(rep, &ctx, k, rom, ram, [3, 1, 2, 5, 8, 33, 7, 12][k % 8], 2);
            }
        });
    } else {
        let sizes = [40usize, 1500, 1024, 3, 2500];
        let threads = [5usize, 2, 3, 8, 7, 32, 12, 33, 31];
        let ph = rep.phase(60, 1500);
        for k in 0..if th { 90 } else { 18 } {
            if !ph.over(k, 5) {
                memory(rep, &ctx, k, sizes[k % 5], threads[(k + k / 9) % 9], 4);
            }
        }
        let ph = rep.phase(30, 900);
        for k in 0..if th { 40 } else { 6 } {
            if !ph.over(k, 2) {
                units(rep, &ctx, k, threads[k % 9], !th);
            }
        }
        let ph = rep.phase(90, 3000);
        let shapes = [(16, 40), (1030, 64), (7, 1100), (40, 1024)];
        for k in 0..if th { 60 } else { 10 } {
            if !ph.over(k, 4) {
                let (rom, ram) = shapes[k % 4];
                // Two VMs share keys and parameters.
                parallel(if k % 3 == 2 { 2 } else { 1 }, if k % 3 == 2 { 2 } else { 1 }, |j| {
                    vm(rep, &ctx, k + 100 * j, rom, ram, [3, 8, 5, 2, 7, 33, 4, 12][k % 8], 2)
                });
            }
        }
    }
}

struct Tmp(PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// The part of a sanitizer report a reader needs.
fn digest(text: &str) -> String {
    text.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("====")).take(14).map(str::trim).collect::<Vec<_>>().join(" | ")
}

/// What kind of error, and the first frame in the code under test.
fn signature(kind: &str, text: &str) -> String {
    let what = text.lines().find_map(|l| l.split("Sanitizer: ").nth(1)).and_then(|s| s.split(" (").next()).map(|s| s.split(" on ").next().unwrap_or(s)).unwrap_or("error");
    format!("{kind}:{}", what.trim().replace(' ', "-"))
}

pub fn m01(rep: &Report) {
    rep.rule("the harness built with AddressSanitizer and with ThreadSanitizer runs key generation, memories, units and whole VMs of many sizes and worker counts, and the loader and plaintext VM on well-formed and spoiled executables; every sanitizer report, failed unsafe precondition and fatal signal is a violation. A case is one operation, cycle or executable run under a sanitizer.");
    rep.assume("ThreadSanitizer builds use the installed `nightly` with an instrumented standard library; inline assembly is not instrumented");
    let dir = Tmp(std::env::temp_dir().join(format!("verif-m01-{}", std::process::id())));
    let _ = fs::create_dir_all(&dir.0);
    let base = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("target");
    let run = &|kind: &str| -> (Option<i32>, Option<i32>, String, Vec<String>) {
        use std::os::unix::process::ExitStatusExt;
        let bin = base.join(kind).join("x86_64-unknown-linux-gnu/debug/harness");
        let scratch = dir.0.join(kind);
        let _ = fs::create_dir_all(&scratch);
        let log = scratch.join("report");
        let out = Command::new(&bin)
            .args(["M01-workload", kind])
            .env("VERIF_DIR", &scratch)
            .env("ASAN_OPTIONS", format!("exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:log_path={}", log.display()))
            .env("TSAN_OPTIONS", format!("exitcode=99:halt_on_error=0:history_size=4:report_signal_unsafe=0:log_path={}", log.display()))
            .stdin(Stdio::null())
            .output();
        let Ok(out) = out else { return (None, None, format!("cannot start {}", bin.display()), vec![]) };
        let mut reports: Vec<PathBuf> = fs::read_dir(&scratch).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("report."))).collect()).unwrap_or_default();
        reports.sort();
        let texts = reports.iter().filter_map(|p: &PathBuf| fs::read_to_string(p as &Path).ok()).collect();
        (out.status.code(), out.status.signal(), String::from_utf8_lossy(&out.stdout).into_owned() + &String::from_utf8_lossy(&out.stderr), texts)
    };
    let with_threads = base.join("thread/x86_64-unknown-linux-gnu/debug/harness").exists();
    if !with_threads {
        rep.assume("ThreadSanitizer was not used: its toolchain could not build the tree");
    }
    let kinds = if with_threads { vec!["address", "thread"] } else { vec!["address"] };
    let results: Vec<_> = std::thread::scope(|s| {
        let jobs: Vec<_> = kinds.iter().map(|k| s.spawn(move || run(k))).collect();
        jobs.into_iter().map(|j| j.join().unwrap()).collect()
    });
    for (kind, (code, signal, text, reports)) in kinds.iter().zip(results) {
        for r in &reports {
            // One file per process; each report in it starts with a WARNING or ERROR line.
            let parts: Vec<&str> = r.split("==================").filter(|p| p.contains("Sanitizer: ")).collect();
            for p in if parts.is_empty() { vec![r.as_str()] } else { parts }.into_iter().take(5) {
                if p.contains("Sanitizer: ") {
                    rep.violation(&signature(kind, p), digest(p));
                }
            }
        }
        if let Some(l) = text.lines().find(|l| l.contains("unsafe precondition(s) violated")) {
            rep.violation(&format!("{kind}:precondition"), l.to_string());
        }
        if let Some(s) = signal.filter(|s| [4, 7, 8, 11].contains(s)) {
            rep.violation(&format!("{kind}:signal"), format!("the run ended with signal {s}: {}", text.lines().last().unwrap_or("")));
        }
        // Counters of what ran.
        let line = text.lines().find(|l| l.starts_with("M01-workload ")).unwrap_or("");
        for (k, v) in line.split_whitespace().filter_map(|w| w.split_once('=')) {
            if let Ok(v) = v.parse::<u64>() {
                match k {
                    "evaluations" => rep.evals(v, []),
                    "distinct" => rep.evals(0, (0..v).map(|i| crate::report::hash(&format!("{kind}/{i}")))),
                    "seed" => {}
                    _ => rep.count(&format!("{kind}.{k}"), v),
                }
            }
        }
        if line.is_empty() && !rep.failed() {
            rep.inconclusive(format!("the {kind} run gave no result (exit {code:?}, signal {signal:?}): {}", text.lines().last().unwrap_or("")));
        }
        rep.sample(line.to_string());
    }
    if !rep.failed() {
        for (c, n) in [("address.memory_operations", 40), ("address.cycles", 10), ("address.unit_evaluations", 60), ("address.executables_run", 500), ("thread.memory_operations", 16), ("thread.cycles", 6), ("thread.unit_evaluations", 12)] {
            if with_threads || !c.starts_with("thread") {
                rep.require(c, n);
            }
        }
    }
}
