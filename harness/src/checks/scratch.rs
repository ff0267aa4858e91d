//! E11: what a scratch buffer or a result holds beforehand does not matter.
use crate::{
    checks::global::{case, fingerprint},
    ctx::{dec, enc, enc_prep, Ctx, Src},
    encvm::{diff, parser},
    report::{parallel, Report},
    rng::Rng,
    rv::{self, Machine},
};
use fhevm::{verif_hooks as h, Interpreter};
use poulpy_hal::{
    api::{ScratchOwnedAlloc, ScratchOwnedBorrow},
    layouts::ScratchOwned,
};

const PATTERNS: [&str; 5] = ["zero", "random", "ones", "small", "leftover"];

/// Overwrites a buffer: with zeros, random bytes, NaNs, or small integers.
fn stain(sc: &mut ScratchOwned<h::BE>, pat: usize, salt: u64) {
    if PATTERNS[pat] == "leftover" {
        return; // what the last call left behind
    }
    let mut x = salt.wrapping_mul(2).wrapping_add(0x9E37_79B9_7F4A_7C15);
    for b in sc.data.chunks_exact_mut(8) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let v: u64 = match PATTERNS[pat] {
            "zero" => 0,
            "random" => x,
            "ones" => u64::MAX,
            _ => ((x >> 40) as i64 % 4096 - 2048) as u64,
        };
        b.copy_from_slice(&v.to_le_bytes());
    }
}

fn buffer(mib: usize) -> ScratchOwned<h::BE> {
    ScratchOwned::alloc(mib << 20)
}

pub fn e11(rep: &Report) {
    rep.rule("the same encryptions, unit evaluations, memory histories and whole cycles (normal and debug) are carried out several times from identical inputs with the scratch buffer overwritten before every call (zeros, random bytes, NaN patterns, small integers, leftovers of the previous call; different buffer sizes) and with result ciphertexts, buffers and VMs holding other values beforehand: all resulting ciphertexts must be bit-identical and decrypt to the reference. A case is one call under one pattern compared with the clean one.");
    let th = rep.thorough();
    let ctx = Ctx::fast(rep.seed, 14);
    // Whole VMs.
    let runs = if th { 40 } else { 3 };
    let ph = rep.phase(60, 2400);
    for i in 0..runs {
        if rep.failed() || ph.over(i, 2) {
            break;
        }
        let (rom, ram) = [(20, 40), (1030, 1100), (64, 1024), (7, 2500)][(i + rep.seed as usize) % 4];
        let cycles = if th { 4 } else { 2 };
        let c = case(rep.seed, &format!("e11/{i}"), rom, ram, cycles, false);
        let threads = [1, 2, 3, 5][i % 4];
        let all: std::sync::Mutex<Vec<(usize, Vec<Vec<(String, u64)>>)>> = std::sync::Mutex::new(vec![]);
        parallel(5, PATTERNS.len(), |pat| {
            let label = format!("vm {i} rom={rom} ram={ram} threads={threads} scratch {}", PATTERNS[pat]);
            let mut src = Src::new(rep.seed, 100 + i as u64);
            // Different patterns also get differently sized buffers.
            let mut sc = buffer(16 * (threads + pat));
            let debug = pat == 1 || pat == 4;
            let mut out = vec![];
            let mut salt = pat as u64;
            let mut soil = |sc: &mut ScratchOwned<h::BE>| {
                salt += 1;
                stain(sc, pat, salt);
            };
            let _ = rep.guard("vm", &label, || {
                let mut vm = if debug {
                    Interpreter::<h::BE>::new_with_debug(&ctx.params, rom, ram)
                } else {
                    Interpreter::<h::BE>::new(&ctx.params, rom, ram)
                };
                vm.set_threads(threads);
                if pat > 0 {
                    // The VM held another program and other data before.
                    let mut old = Src::new(rep.seed, 300 + i as u64);
                    let prog: Vec<u32> = c.rom.iter().rev().copied().collect();
                    let data: Vec<u32> = c.ram.iter().map(|w| !w).collect();
                    vm.instructions_encrypt_sk(ctx.module(), &parser(&prog), &ctx.sk, &mut old.xa, &mut old.xe, sc.borrow());
                    vm.ram_encrypt_sk(ctx.module(), &data, &ctx.sk, &mut old.xa, &mut old.xe, sc.borrow());
                    vm.init_registers(ctx.module(), &[!0; 32], &ctx.sk, &mut old.xa, &mut old.xe, sc.borrow());
                    rep.count("vms_filled_twice", 1);
                }
                soil(&mut sc);
                vm.instructions_encrypt_sk(ctx.module(), &parser(&c.rom), &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
                soil(&mut sc);
                vm.ram_encrypt_sk(ctx.module(), &c.ram, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
                soil(&mut sc);
                vm.init_registers(ctx.module(), &c.regs, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
                out.push(fingerprint(&vm));
                let mut m: Machine = c.machine();
                for k in 0..c.cycles {
                    m.step().unwrap();
                    soil(&mut sc);
                    // A debug cycle on a RAM that is not a power of two can object (see E09).
                    if debug && ram.is_power_of_two() {
                        vm.cycle_debug(ctx.module(), &ctx.keys, &ctx.sk, sc.borrow());
                    } else {
                        vm.cycle(ctx.module(), &ctx.keys, sc.borrow());
                    }
                    rep.count("cycles", 1);
                    soil(&mut sc);
                    let s = h::snapshot(&vm, ctx.module(), &ctx.sk, sc.borrow());
                    if let Some((comp, d)) = diff(&s, &m) {
                        rep.violation(&format!("scratch:{comp}"), format!("{label} cycle {k}: {d}"));
                        return;
                    }
                    soil(&mut sc);
                    // Decryption into a buffer that held something else.
                    let mut words = vec![[0, !0, 0x5555_5555, 0xDEAD_BEEF, 1][pat]; ram];
                    vm.ram_decrypt(ctx.module(), &mut words, &ctx.sk, sc.borrow());
                    rep.count("buffers_decrypted_into", 1);
                    if words != m.ram_words() {
                        rep.violation("buffer:ram", format!("{label} cycle {k}: decrypting RAM into a buffer that held {:#x} everywhere gives something else", [0u32, !0, 0x5555_5555, 0xDEAD_BEEF, 1][pat]));
                        return;
                    }
                    soil(&mut sc);
                    let n = h::noise(&vm, &s, ctx.module(), &ctx.sk, sc.borrow());
                    if !(n.ram < -4.0 && n.registers < -4.0) {
                        rep.violation("scratch:noise", format!("{label} cycle {k}: the noise measurement of a correct state gives {n:?}"));
                        return;
                    }
                    out.push(fingerprint(&vm));
                }
            });
            all.lock().unwrap().push((pat, out));
        });
        let mut all = all.into_inner().unwrap();
        all.sort();
        let reference = all[0].1.clone();
        for (pat, out) in &all[1..] {
            for (k, (a, b)) in reference.iter().zip(out).enumerate() {
                rep.eval(Some(&format!("{i}/{pat}/{k}")));
                rep.count(&format!("states_compared.{}", PATTERNS[*pat]), 1);
                if a != b {
                    let which: Vec<&str> = a.iter().zip(b).filter(|(x, y)| x != y).map(|(x, _)| x.0.as_str()).collect();
                    let when = if k == 0 { "after encryption".into() } else { format!("after cycle {}", k - 1) };
                    rep.violation("scratch:bits", format!("vm {i} rom={rom} ram={ram} threads={threads} scratch {}: {when} the ciphertexts of {which:?} differ from a run with a clean scratch", PATTERNS[*pat]));
                    break;
                }
            }
        }
        rep.sample(format!("vm {i}: rom={rom} ram={ram} threads={threads} {} cycles, {} scratch patterns", c.cycles, PATTERNS.len()));
    }
    if rep.failed() {
        return;
    }
    // Units, with stale results.
    let rd: Vec<(u32, rv::Op)> = h::rd_ops(false).into_iter().filter_map(|(id, n)| rv::RV32I.iter().copied().find(|o| o.name() == n).map(|o| (id, o))).collect();
    let (ramops, pcops) = (h::ram_ops(), h::pc_ops());
    let n = if th { 400 } else { 24 };
    let ph = rep.phase(50, 1800);
    parallel(8, n, |k| {
        if rep.failed() || ph.over(k, 8) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e11/u/{k}"));
        let mut src = Src::new(rep.seed, 5000 + k as u64);
        let threads = [1usize, 2, 3, 8, 32, 33][k % 6];
        let mut clean = buffer(16 * threads.min(8).max(2));
        let v: Vec<u32> = (0..6).map(|_| r.word()).collect();
        let mut p: Vec<_> = v.iter().map(|x| enc_prep(&ctx, *x, &mut src, &mut clean)).collect();
        let ct: Vec<_> = v.iter().map(|x| enc(&ctx, *x, &mut src, &mut clean)).collect();
        let pcid = pcops[k % pcops.len()].0;
        p[5] = enc_prep(&ctx, pcid, &mut src, &mut clean);
        let (m, keys) = (ctx.module(), &ctx.keys);
        let jobs: Vec<(String, usize, u32)> = [
            ("pc".to_string(), 0, 0),
            ("address".to_string(), 1, 0),
            (format!("store {}", ramops[k % ramops.len()].1), 2, ramops[k % ramops.len()].0),
            ("prepare".to_string(), 4, 0),
        ]
        .into_iter()
        .chain((0..4).map(|q| rd[(4 * k + q) % rd.len()]).map(|(id, o)| (o.name(), 3, id)))
        .collect();
        for (name, kind, id) in jobs {
            let mut first: Option<(Vec<u8>, u32)> = None;
            for pat in 0..PATTERNS.len() {
                let mut sc = buffer(16 * (threads.min(8).max(2) + pat % 2));
                stain(&mut sc, pat, (k * 10 + pat) as u64);
                let mut res = enc(&ctx, if pat == 0 { 0 } else { r.u32() }, &mut src, &mut clean);
                let what = format!("{name} on {v:x?} threads={threads} scratch {}", PATTERNS[pat]);
                let ok = rep.guard(&format!("unit:{kind}"), &what, || match kind {
                    0 => h::pc_update_enc(threads, m, &mut res, &p[0], &p[1], &p[2], &p[3], &p[5], keys, sc.borrow()),
                    1 => h::ram_offset_enc(threads, m, &mut res, &p[0], &p[1], keys, sc.borrow()),
                    2 => h::ram_eval_enc(id, threads, m, &mut res, &ct[0], &ct[1], &p[2], keys, sc.borrow()),
                    3 => h::rd_eval_enc(id, threads, m, &mut res, &p[0], &p[1], &p[3], &p[2], &ct[4], keys, sc.borrow()),
                    _ => {
                        // Bootstrapping into a prepared value that held something else.
                        let mut q = enc_prep(&ctx, if pat == 0 { 0 } else { v[2] }, &mut src, &mut clean);
                        q.prepare_custom(m, &ct[0], 8 * (k % 4), 8, keys, sc.borrow());
                        stain(&mut sc, pat, (k * 10 + pat) as u64);
                        res.from_fhe_uint_prepared(m, &q, keys, sc.borrow());
                    }
                });
                if ok.is_none() {
                    return;
                }
                let x = (if kind == 4 { vec![] } else { h::ct_bytes(&res) }, if kind == 4 { dec(&ctx, &res, &mut sc) >> (8 * (k % 4)) & 0xFF } else { dec(&ctx, &res, &mut sc) });
                rep.eval(Some(&what));
                rep.count(&format!("unit.{}", ["pc", "address", "store", "register", "prepare"][kind]), 1);
                match &first {
                    None => first = Some(x),
                    Some(f) if *f == x => {}
                    Some(f) => {
                        rep.violation(&format!("unit:{kind}:bits"), format!("{what}: the result {} from the one with a clean scratch and result ({:#010x} and {:#010x})", if f.1 == x.1 { "differs in its ciphertext" } else { "differs" }, x.1, f.1));
                        return;
                    }
                }
            }
        }
        if k < 2 {
            rep.sample(format!("units on {v:x?} threads={threads}"));
        }
    });
    if rep.failed() {
        return;
    }
    // Memories.
    let n = if th { 200 } else { 24 };
    let ph = rep.phase(50, 1800);
    parallel(8, n, |k| {
        if rep.failed() || ph.over(k, 8) {
            return;
        }
        let words = [3usize, 33, 1024, 1025, 1500, 2500, 100, 3000][k % 8];
        let threads = [1usize, 2, 3, 7, 32][k % 5];
        let mut first: Vec<Vec<Vec<u8>>> = vec![];
        for pat in 0..PATTERNS.len() {
            let mut r = Rng::new(rep.seed, &format!("e11/m/{k}"));
            let mut src = Src::new(rep.seed, 9000 + k as u64);
            let mut sc = buffer(16 * threads.min(8).max(2));
            let mut mem = h::Mem::new(&ctx.params, 32, words);
            let data: Vec<u32> = (0..if k % 3 == 2 { words.div_ceil(2) } else { words }).map(|_| r.word()).collect();
            let label = format!("memory {k}: {words} words, {threads} threads, scratch {}", PATTERNS[pat]);
            let mut states = vec![];
            stain(&mut sc, pat, k as u64);
            if rep.guard("memory", &label, || mem.encrypt(ctx.module(), &data, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow())).is_none() {
                return;
            }
            states.push(mem.ciphertexts());
            for step in 0..4 {
                let a = if step == 0 { words - 1 } else { r.below(words as u32) as usize };
                let pa = enc_prep(&ctx, a as u32, &mut src, &mut sc);
                let cv = enc(&ctx, r.u32(), &mut src, &mut sc);
                let mut res = enc(&ctx, if pat == 0 { 0 } else { 0xAAAA_5555 }, &mut Src::new(rep.seed, 1), &mut sc);
                stain(&mut sc, pat, (k * 7 + step) as u64);
                let (m, keys) = (ctx.module(), &ctx.keys);
                let ok = rep.guard("memory", &label, || match (step + k) % 4 {
                    0 => mem.read_stateless(threads, m, &mut res, &pa, 0, keys, sc.borrow()),
                    1 => mem.write(threads, m, &cv, &pa, 0, keys, sc.borrow()),
                    2 => {
                        mem.read_statefull(threads, m, &mut res, &pa, 0, keys, sc.borrow());
                        stain(&mut sc, pat, step as u64);
                        mem.read_statefull_rev(threads, m, &cv, &pa, 0, keys, sc.borrow());
                    }
                    _ => {
                        res = enc(&ctx, 0, &mut Src::new(rep.seed, 1), &mut sc);
                        stain(&mut sc, pat, step as u64);
                        mem.zero(threads, m, a, keys, sc.borrow());
                    }
                });
                if ok.is_none() {
                    return;
                }
                let mut s = mem.ciphertexts();
                if matches!((step + k) % 4, 0 | 2) {
                    s.push(h::ct_bytes(&res));
                }
                states.push(s);
                rep.count("memory.operations", 1);
            }
            stain(&mut sc, pat, 3);
            let d = mem.decrypt(ctx.module(), &ctx.sk, sc.borrow());
            states.push(vec![d.iter().flat_map(|w| w.to_le_bytes()).collect()]);
            if pat == 0 {
                first = states;
                continue;
            }
            for (q, (a, b)) in first.iter().zip(&states).enumerate() {
                rep.eval(Some(&format!("m/{k}/{pat}/{q}")));
                if a != b {
                    rep.violation("memory:bits", format!("{label}: {} differs from the run with a clean scratch", if q == 0 { "the encrypted memory".into() } else if q == 5 { "the decrypted content".into() } else { format!("the memory or the value read after operation {}", q - 1) }));
                    return;
                }
            }
        }
    });
    for c in ["cycles", "states_compared.random", "states_compared.ones", "unit.pc", "unit.store", "unit.register", "unit.prepare", "memory.operations", "buffers_decrypted_into", "vms_filled_twice"] {
        rep.require(c, 4);
    }
}
