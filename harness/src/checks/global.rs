//! E07-E10: properties of whole encrypted executions.
use crate::{
    ctx::{scratch, seed32, Ctx, Src},
    encvm::{diff, parser, EncVm},
    progen::{default_base, generate_full, Case, Spec},
    report::{catch, parallel, Report},
    rng::Rng,
    rv::{encode, Inst, Op, RAM_BASE, RV32I},
};
use fhevm::verif_hooks as h;
use poulpy_hal::api::ScratchOwnedBorrow;
use std::sync::Mutex;

pub fn case(seed: u64, tag: &str, rom: usize, ram: usize, cycles: usize, zero: bool) -> Case {
    let mut r = Rng::new(seed, tag);
    generate_full(
        &Spec { rom_size: rom, ram_size: ram, base: default_base(), cycles, ops: RV32I, zero_regs: zero },
        &mut r,
    )
}

/// Bytes of every ciphertext of the state, hashed component by component.
pub fn fingerprint(vm: &fhevm::Interpreter<h::BE>) -> Vec<(String, u64)> {
    h::state_bytes(vm)
        .into_iter()
        .map(|(n, cts)| {
            let mut x = 0xcbf29ce484222325u64;
            for c in cts {
                for ch in c.chunks(8) {
                    let mut b = [0u8; 8];
                    b[..ch.len()].copy_from_slice(ch);
                    x = (x ^ u64::from_le_bytes(b)).wrapping_mul(0x100000001b3).rotate_left(29);
                }
            }
            (n.to_string(), x)
        })
        .collect()
}

pub fn e07(rep: &Report) {
    rep.rule("the same program, keys and initial ciphertexts are run with many worker-thread counts (and repeatedly with the same count), several VMs at a time so that the machine is oversubscribed; after every cycle the decrypted state is compared with the reference and every ciphertext of the state bit for bit with the single-threaded run. A case is one (program, thread count, cycle).");
    let th = rep.thorough();
    let ctx = Ctx::fast(rep.seed, 14);
    let progs = if th { 40 } else { 2 };
    // The first program meets every thread count, the others a selection for more cycles.
    let all: Vec<usize> = (2..=if th { 130 } else { 66 }).chain([96, 100, 128, 200]).chain([1]).collect();
    let some: Vec<usize> = vec![2, 3, 5, 6, 7, 8, 12, 16, 31, 32, 33, 40, 64, 1];
    let sizes = [(32, 64), (1100, 40), (20, 1030), (64, 1024)];
    let ph = rep.phase(110, 3000);
    for p in 0..progs {
        if rep.failed() || ph.over(p, 1) {
            break;
        }
        let cycles = match (p, th) {
            (0, false) => 1,
            (0, true) => 3,
            (_, false) => 3,
            (_, true) => 6,
        };
        let (rom, ram) = sizes[(p + rep.seed as usize) % sizes.len()];
        let c = case(rep.seed, &format!("e07/{p}"), rom, ram, cycles, false);
        let base: Mutex<Vec<(usize, Vec<Vec<(String, u64)>>)>> = Mutex::new(vec![]);
        // Entry 0 is the single-threaded run.
        let mut jobs = vec![1usize];
        jobs.extend_from_slice(if p == 0 { &all } else { &some });
        if p > 0 {
            // Zero: the thread count changes from cycle to cycle.
            jobs.push(0);
        }
        parallel(5, jobs.len(), |j| {
            if rep.failed() || ph.over(j, if p == 0 { 16 } else { 5 }) {
                return;
            }
            let threads = jobs[j];
            let mut src = Src::new(rep.seed, 100 + p as u64);
            let label = format!("program {p} rom={rom} ram={ram} threads={threads}");
            let Some(mut vm) = rep.guard("setup", &label, || EncVm::new(&ctx, &c.rom, &c.ram, Some(&c.regs), if threads == 0 { 8 } else { threads }, false, &mut src)) else { return };
            let mut m = c.machine();
            let mut prints = vec![fingerprint(&vm.vm)];
            for k in 0..c.cycles {
                m.step().unwrap();
                if threads == 0 {
                    vm.vm.set_threads([3, 1, 8, 2, 5, 7][k % 6]);
                }
                if rep.guard("cycle", &format!("{label} cycle {k}"), || vm.cycle()).is_none() {
                    return;
                }
                let s = vm.snap();
                if let Some((comp, d)) = diff(&s, &m) {
                    rep.violation(&format!("threads:{comp}"), format!("{label} cycle {k}: {d}"));
                    return;
                }
                prints.push(fingerprint(&vm.vm));
                rep.count(&format!("cycles.threads.{threads}"), 1);
            }
            rep.count("vms", 1);
            base.lock().unwrap().push((j, prints));
        });
        let mut all = base.into_inner().unwrap();
        all.sort();
        let Some((0, reference)) = all.first().cloned() else { continue };
        for (j, pr) in all.iter().skip(1) {
            for (k, (a, b)) in reference.iter().zip(pr).enumerate() {
                rep.eval(Some(&format!("{p}/{}/{k}", jobs[*j])));
                rep.count("states_compared_bitwise", 1);
                if a != b {
                    let which: Vec<&str> = a.iter().zip(b).filter(|(x, y)| x != y).map(|(x, _)| x.0.as_str()).collect();
                    rep.violation(
                        "threads:bits",
                        format!("program {p} rom={rom} ram={ram}: after cycle {k} the ciphertexts of {which:?} with {} threads differ from the single-threaded run", jobs[*j]),
                    );
                    break;
                }
            }
        }
        rep.sample(format!("program {p}: rom={rom} ram={ram} {} cycles, thread counts {jobs:?}", c.cycles));
    }
    rep.require("states_compared_bitwise", 20);
}

/// Largest acceptable log2 noise of a component after `k` cycles. The base is the level observed
/// with the production parameters in the first cycles plus more than a bit; state that is carried from cycle to
/// cycle (registers, RAM and what is read from them) may grow with the square root of the cycle
/// count. The narrowest use is the input of a bootstrapping, which decodes up to 2^-4 together with
/// the key-switching error (measured by `margin`).
fn limit(name: &str, k: usize) -> f64 {
    let growth = 0.5 * ((k + 1) as f64).log2();
    let v: f64 = match name {
        "ram" => -7.5 + growth,
        "registers" => -8.0 + growth,
        "rs1" | "rs2" => -8.0 + growth,
        "ram_val" => -16.5,
        "pc" | "ram_addr" => -7.5,
        "imm" => -9.0,
        "rd" => -16.0,
        _ => unreachable!(),
    };
    v.min(-5.0)
}

/// Error of fresh bits at the input of a bootstrapping, against what its lookup table tolerates.
fn margin(rep: &Report, ctx: &Ctx) {
    use poulpy_core::layouts::{Base2K, Degree, GGSWInfos, LWEInfos, TorusPrecision, LWE};
    use poulpy_hal::layouts::ZnxView;
    use poulpy_schemes::bin_fhe::bdd_arithmetic::BDDKeyHelper;
    // The lookup table holds one entry per gadget row of the prepared bit.
    let rows = usize::from(ctx.params.fhe_uint_prepared_infos().dnum()).next_power_of_two();
    let tolerance = 1.0 / (8.0 * rows as f64);
    let s: Vec<i64> = ctx.sk_lwe.raw().to_vec();
    let acc = Mutex::new((0f64, 0f64, 0f64, 0u64));
    let th = rep.thorough();
    let ph = rep.phase(40, 900);
    parallel(8, if th { 6000 } else { 400 }, |k| {
        if rep.failed() || ph.over(k, 100) {
            return;
        }
        let mut src = Src::new(rep.seed, 60_000 + k as u64);
        let mut sc = scratch(1);
        let mut r = Rng::new(rep.seed, &format!("e08/margin/{k}"));
        let v = r.u32();
        let c = crate::ctx::enc(ctx, v, &mut src, &mut sc);
        let (_, ksg, ksl) = ctx.keys.get_cbt_key();
        for b in 0..32 {
            let mut lwe = LWE::alloc(Degree(ctx.params.n_glwe().0 - 1), Base2K(15), TorusPrecision(30));
            c.get_bit_lwe(ctx.module(), b, &mut lwe, ksg, ksl, sc.borrow());
            let mut phase = 0f64;
            for i in 0..lwe.size() {
                let d = lwe.data().at(0, i);
                let x = d[0] + d[1..].iter().zip(&s).map(|(a, s)| a * s).sum::<i64>();
                phase += x as f64 * 2f64.powi(-15 * (i as i32 + 1));
            }
            let e = phase - ((v >> b & 1) as f64) / 4.0;
            let e = e - e.round();
            let mut g = acc.lock().unwrap();
            g.0 += e;
            g.1 += e * e;
            g.2 = g.2.max(e.abs());
            g.3 += 1;
        }
        if k % 25 == 0 {
            // The same bits, bootstrapped.
            let mut p = ctx.ct_prep();
            let mut o = ctx.ct();
            let b = (k / 25 * 4) % 32;
            let what = format!("fresh value {v:#010x}, bits {b} to {}", b + 3);
            if rep
                .guard("bootstrap", &what, || {
                    p.prepare_custom(ctx.module(), &c, b, 4, &ctx.keys, sc.borrow());
                    o.from_fhe_uint_prepared(ctx.module(), &p, &ctx.keys, sc.borrow());
                })
                .is_none()
            {
                return;
            }
            let have = crate::ctx::dec(ctx, &o, &mut sc);
            rep.count("bits_bootstrapped", 4);
            if have != v & (15 << b) {
                rep.violation("bootstrap:value", format!("{what}: bootstrapped to {have:#010x}"));
            }
        }
    });
    let (sum, sq, max, n) = acc.into_inner().unwrap();
    let std = (sq / n as f64).sqrt();
    rep.count("bootstrapping_inputs_measured", n);
    rep.evals(n, [n]);
    rep.gauge_max("bootstrapping_tolerance_in_sigma", tolerance / std);
    rep.gauge_max("bootstrapping_input_worst_share_of_tolerance", max / tolerance);
    rep.require("bootstrapping_inputs_measured", 3000);
    // Below seven sigma a wrong bit is expected within some thousand cycles at most.
    if !(std <= tolerance / 7.0) || max >= tolerance {
        rep.violation(
            "noise:bootstrapping_input",
            format!("{n} fresh bits: error {:.5} +- {std:.5}, largest {max:.5}; the lookup table tolerates {tolerance:.5}, {:.1} sigma", sum / n as f64, tolerance / std),
        );
    }
}

pub fn e08(rep: &Report) {
    rep.rule("production parameters: after every cycle of random programs the decrypted value and the noise of every state ciphertext (pc, operands, registers, all of RAM) are measured; values must match the reference and noise must stay well under the threshold of bootstrapping; the error that key switching adds at the input of a bootstrapping is measured on fresh bits against the tolerance of its lookup table, and fresh bits are bootstrapped and decrypted. A case is one measured ciphertext group in one cycle, or one measured bit.");
    let th = rep.thorough();
    let ctx = Ctx::new(rep.seed);
    margin(rep, &ctx);
    if rep.failed() {
        return;
    }
    let progs = if th { 3 } else { 1 };
    let cycles = if th { 120 } else { 8 };
    let ph = rep.phase(60, 3000);
    for p in 0..progs {
        if rep.failed() || ph.over(p, 1) {
            break;
        }
        let c = case(rep.seed, &format!("e08/{p}"), [64, 1500][p % 2], 1024, cycles, false);
        let mut src = Src::new(rep.seed, 300 + p as u64);
        let mut vm = EncVm::new(&ctx, &c.rom, &c.ram, Some(&c.regs), 8, false, &mut src);
        let mut m = c.machine();
        let s0 = vm.snap();
        for (n, v) in h::rom_noise(&vm.vm, ctx.module(), &ctx.sk, vm.sc.borrow()) {
            rep.gauge_max(&format!("log2_fresh.rom.{n}"), v);
        }
        let n0 = h::noise(&vm.vm, &s0, ctx.module(), &ctx.sk, vm.sc.borrow());
        rep.gauge_max("log2_fresh.ram", n0.ram);
        rep.gauge_max("log2_fresh.registers", n0.registers);
        for k in 0..c.cycles {
            if ph.over(k, 4) {
                break;
            }
            m.step().unwrap();
            if rep.guard("cycle", &format!("program {p} cycle {k}"), || vm.cycle()).is_none() {
                return;
            }
            let s = vm.snap();
            if let Some((comp, d)) = diff(&s, &m) {
                rep.violation(&format!("noise:{comp}"), format!("program {p} cycle {k}: {d}"));
                return;
            }
            let n = h::noise(&vm.vm, &s, ctx.module(), &ctx.sk, vm.sc.borrow());
            rep.count("cycles", 1);
            if std::env::var("E08_TRACE").is_ok() {
                eprintln!("{k} {n:?}");
            }
            for (name, v) in [
                ("pc", n.pc),
                ("imm", n.imm),
                ("rs1", n.rs1_val),
                ("rs2", n.rs2_val),
                ("ram_addr", n.ram_addr),
                ("ram_val", n.ram_val),
                ("rd", n.rd_val),
                ("registers", n.registers),
                ("ram", n.ram),
            ] {
                rep.eval(Some(&format!("{p}/{k}/{name}")));
                rep.gauge_max(&format!("log2_noise.{name}"), v);
                let limit = limit(name, k);
                rep.gauge_max(&format!("log2_margin_used.{name}"), v - limit);
                if !(v < limit) {
                    rep.violation(&format!("noise:{name}"), format!("program {p} cycle {k}: noise of {name} is 2^{v:.2}, limit 2^{limit:.2}"));
                    return;
                }
            }
        }
    }
    rep.require("cycles", 3);
}

pub fn e09(rep: &Report) {
    rep.rule("(a) one VM with debugging (and timing output) and one without are run from identical ciphertexts: all state ciphertexts must stay bit-identical and the debug run must not object; (b) the encrypted pc, one register or one RAM word is replaced behind the mirror's back: the debug run must object; (c) the mirror is compared with the reference over long random programs. A case is one cycle, one tampering or one mirror step.");
    let th = rep.thorough();
    // (c) mirror against the reference.
    let progs = if th { 40_000 } else { 4_000 };
    let ph = rep.phase(40, 900);
    parallel(8, progs, |i| {
        if rep.failed() || ph.over(i, 500) {
            return;
        }
        let (rom, ram) = [(16, 32), (100, 1024), (500, 77)][i % 3];
        let c = case(rep.seed, &format!("e09/mirror/{i}"), rom, ram, 100, true);
        let mut m = c.machine();
        let mut d = h::Mirror::new(rom, ram);
        d.set_instructions(&parser(&c.rom));
        d.set_ram(&c.ram);
        for k in 0..c.cycles {
            let inst = m.fetch().unwrap();
            m.step().unwrap();
            if rep.guard("mirror", &format!("program {i} cycle {k} {inst:?}"), || d.cycle()).is_none() {
                return;
            }
            if d.pc() != m.pc || *d.registers() != m.x || d.ram() != m.ram_words() {
                rep.violation(&format!("mirror:{}", inst.op.name()), format!("program {i} cycle {k} {inst:?}: mirror state differs from RV32I"));
                return;
            }
        }
        rep.count("mirror_cycles", c.cycles as u64);
        rep.evals(c.cycles as u64, [crate::report::hash(&format!("{i}/{}", c.cycles))]);
    });
    if rep.failed() {
        return;
    }
    let ctx = Ctx::fast(rep.seed, 14);
    // (a)
    let runs = if th { 60 } else { 6 };
    let ph = rep.phase(60, 2400);
    parallel(4, runs, |i| {
        if rep.failed() || ph.over(i, 4) {
            return;
        }
        // Power-of-two RAM sizes: see the directed case below for the others.
        let (rom, ram) = [(32, 64), (24, 1024), (1030, 32)][i % 3];
        let c = case(rep.seed, &format!("e09/{i}"), rom, ram, if th { 6 } else { 3 }, i % 2 == 1);
        // Shorter program and data than ROM and RAM, for some runs.
        let threads = 1 + i % 3;
        let mk = |debug: bool| {
            let mut src = Src::new(rep.seed, 500 + i as u64);
            EncVm::new(&ctx, &c.rom, &c.ram, (i % 2 == 0).then_some(&c.regs), threads, debug, &mut src)
        };
        let label = format!("run {i} rom={rom} ram={ram} threads={threads}");
        let Some((mut a, mut b)) = rep.guard("setup", &label, || (mk(false), mk(true))) else { return };
        b.vm.set_verbose_timings(i % 4 == 1);
        let mut m = c.machine();
        if i % 2 == 1 {
            m.x = [0; 32];
        }
        for k in 0..c.cycles {
            let inst = m.fetch().unwrap();
            m.step().unwrap();
            let what = format!("{label} cycle {k} {inst:?}");
            if rep.guard("plain_vm", &what, || a.cycle()).is_none() {
                return;
            }
            if rep.guard("objection", &what, || b.cycle_debug()).is_none() {
                return;
            }
            rep.eval(Some(&what));
            rep.count("twin_cycles", 1);
            if fingerprint(&a.vm) != fingerprint(&b.vm) {
                rep.violation("debug:state", format!("{what}: the debug VM's ciphertexts differ from the plain VM's"));
                return;
            }
            if let Some((comp, d)) = diff(&b.snap(), &m) {
                rep.violation(&format!("debug:{comp}"), format!("{what}: {d}"));
                return;
            }
        }
        if i < 2 {
            rep.sample(format!("{label}: {:?}", c.trace));
        }
        // Short program and data.
        if i < 3 {
            let mut src = Src::new(rep.seed, 900 + i as u64);
            let prog = vec![0x13, encode(&Inst { op: Op::Jal, rd: 1, rs1: 0, rs2: 0, imm: (-4i32) as u32 })];
            let r = catch(|| {
                let mut vm = fhevm::Interpreter::<h::BE>::new_with_debug(&ctx.params, 8, 16);
                let mut sc = scratch(1);
                vm.instructions_encrypt_sk(ctx.module(), &parser(&prog), &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
                vm.ram_encrypt_sk(ctx.module(), &[7, 8, 9], &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
                for _ in 0..2 {
                    vm.cycle_debug(ctx.module(), &ctx.keys, &ctx.sk, sc.borrow());
                }
            });
            rep.count("short_images", 1);
            if let Err(e) = r {
                rep.violation("debug:short", format!("a debug VM refuses a program and data shorter than its ROM and RAM: {e}"));
            }
            // A shorter program replaces a longer one; the slots behind it are empty again.
            let long: Vec<u32> = (0..8).map(|k| encode(&Inst { op: Op::Addi, rd: 1 + k, rs1: 0, rs2: 0, imm: 3 })).collect();
            let r = catch(|| {
                let mut vm = fhevm::Interpreter::<h::BE>::new_with_debug(&ctx.params, 8, 16);
                let mut sc = scratch(1);
                for (prog, data) in [(&long[..], &[5u32; 16][..]), (&[0x13][..], &[6; 2][..])] {
                    vm.instructions_encrypt_sk(ctx.module(), &parser(prog), &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
                    vm.ram_encrypt_sk(ctx.module(), data, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
                    vm.init_registers(ctx.module(), &data[..data.len().min(9)], &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow());
                }
                for _ in 0..2 {
                    vm.cycle_debug(ctx.module(), &ctx.keys, &ctx.sk, sc.borrow());
                }
            });
            rep.count("replaced_images", 1);
            if let Err(e) = r {
                rep.violation("debug:replaced", format!("a debug VM objects to a program that replaces a longer one: {e}"));
            }
        }
    });
    if rep.failed() {
        return;
    }
    // (b)
    let runs = if th { 240 } else { 24 };
    let ph = rep.phase(60, 1500);
    parallel(8, runs, |i| {
        if rep.failed() || ph.over(i, 16) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e09/t/{i}"));
        let mut src = Src::new(rep.seed, 700 + i as u64);
        let kind = ["pc", "register", "ram", "register", "pc", "register", "ram", "ram"][i % 8];
        let (rom, ram) = match kind {
            "pc" if i % 8 == 4 => (1500, 32),
            _ => [(16, 32), (24, 64), (16, 2048), (40, 8), (16, 1024)][(i / 2) % 5],
        };
        // Some cycles run clean before the fault.
        let before = (i / 8) % 2;
        let c = case(rep.seed, &format!("e09/tamper/{i}"), rom, ram, before + 1, false);
        if c.cycles != before + 1 {
            return;
        }
        let mut vm = EncVm::new(&ctx, &c.rom, &c.ram, Some(&c.regs), 1 + i % 2, true, &mut src);
        let mut m = c.machine();
        for k in 0..before {
            m.step().unwrap();
            if rep.guard("objection", &format!("tampering run {i} rom={rom} ram={ram}, clean cycle {k}"), || vm.cycle_debug()).is_none() {
                return;
            }
        }
        let mut t = m.clone();
        let at = m.fetch().unwrap();
        let what = match kind {
            "pc" => {
                // Any slot but the right one, or one wrong bit that still leads to a slot: 12
                // in the larger ROM, then any. (Bits no address has are not read by the cycle.)
                let to = match i / 8 {
                    _ if i % 8 == 0 => (m.pc / 4 + 1 + r.below(rom as u32 - 1)) % rom as u32 * 4,
                    0 if (m.pc ^ 0x1000) / 4 < rom as u32 => m.pc ^ 0x1000,
                    _ => (0..200).map(|_| m.pc ^ (4 << r.below(11))).find(|to| to / 4 < rom as u32).unwrap(),
                };
                t.pc = to;
                h::set_pc(&mut vm.vm, to, ctx.module(), &ctx.sk, &mut src.xa, &mut src.xe, vm.sc.borrow());
                format!("pc replaced by {to:#x}")
            }
            "register" => {
                let k = (1..200).map(|_| 1 + r.below(31)).find(|k| *k != at.rd).unwrap() as usize;
                let b = r.below(32);
                t.x[k] ^= 1 << b;
                let x = t.x;
                h::tamper(&mut vm.vm, Some(&x), None, ctx.module(), &ctx.sk, &mut src.xa, &mut src.xe, vm.sc.borrow());
                format!("bit {b} of x{k} flipped")
            }
            _ => {
                let k = match i % 3 {
                    0 => ram - 1,
                    1 => (ram - 1).min(1024),
                    _ => r.below(ram as u32) as usize,
                };
                let b = r.below(32) as usize;
                t.ram[4 * k + b / 8] ^= 1 << (b % 8);
                let w = t.ram_words();
                h::tamper(&mut vm.vm, None, Some(&w), ctx.module(), &ctx.sk, &mut src.xa, &mut src.xe, vm.sc.borrow());
                format!("bit {b} of RAM word {k} flipped")
            }
        };
        let what = format!("rom={rom} ram={ram} after {before} cycles {what}, then {at:?}");
        m.step().unwrap();
        // A fault the instruction happens to overwrite leaves nothing to object to.
        let gone = kind != "pc" && t.step().is_ok() && t.pc == m.pc && t.x == m.x && t.ram == m.ram;
        let objected = catch(|| vm.cycle_debug()).is_err();
        rep.eval(Some(&format!("{i}/{what}")));
        if gone {
            return;
        }
        rep.count(&format!("tampered.{kind}"), 1);
        if i < 2 {
            rep.sample(what.clone());
        }
        if !objected {
            rep.violation(&format!("silent:{kind}"), format!("{what}: the debug cycle did not object"));
        }
    });
    // A RAM whose size is not a power of two: ADDI computes an address nobody uses, whose word index
    // is beyond the RAM but within the next power of two.
    let r = catch(|| {
        let mut src = Src::new(rep.seed, 990);
        let rom = vec![encode(&Inst { op: Op::Addi, rd: 1, rs1: 0, rs2: 0, imm: 4 * 26 }), 0x13];
        let ram: Vec<u32> = (0..24).map(|k| 0x1000 + k).collect();
        let mut vm = EncVm::new(&ctx, &rom, &ram, None, 1, true, &mut src);
        vm.cycle_debug();
        vm.snap()
    });
    rep.eval(Some("npot_ram"));
    rep.count("npot_ram_cases", 1);
    match r {
        Ok(s) if s.registers[1] == 4 * 26 && s.pc == 4 => {}
        Ok(s) => rep.violation("debug:npot_ram", format!("ADDI x1, x0, 104 leaves x1={:#x} pc={:#x}", s.registers[1], s.pc)),
        Err(e) => rep.violation("objection:npot_ram", format!("debug VM with 24 words of RAM, ADDI x1, x0, 104: {e}")),
    }
    rep.require("mirror_cycles", 10_000);
    rep.require("twin_cycles", 3);
    rep.require("tampered.pc", 1);
    rep.require("tampered.register", 1);
    rep.require("tampered.ram", 1);
}

/// Share of equal 256-byte blocks at equal positions of two serialized ciphertexts.
fn overlap(a: &[u8], b: &[u8]) -> f64 {
    let a: Vec<&[u8]> = a.chunks_exact(256).skip(1).collect();
    let b: Vec<&[u8]> = b.chunks_exact(256).skip(1).collect();
    let n = a.len().min(b.len()).max(1);
    let same = a.iter().zip(&b).filter(|(x, y)| x == y).count();
    same as f64 / n as f64
}

/// Content blocks seen so far, wherever they stand.
#[derive(Default)]
struct Pool {
    seen: std::collections::HashMap<[u64; 2], usize>,
    names: Vec<String>,
}

impl Pool {
    /// Adds a ciphertext; returns the one that already had one of its (non-zero) blocks.
    fn add(&mut self, name: &str, c: &[u8]) -> Option<String> {
        self.names.push(name.into());
        let id = self.names.len() - 1;
        // The payload is a multiple of the block size; what is left in front is a header.
        for b in c[c.len() % 256..].chunks_exact(256) {
            if b.iter().all(|x| *x == 0) {
                continue;
            }
            let mut h = [0x9E37_79B9_7F4A_7C15u64, 0xC2B2_AE3D_27D4_EB4F];
            for w in b.chunks_exact(8) {
                let w = u64::from_le_bytes(w.try_into().unwrap());
                h[0] = (h[0] ^ w).wrapping_mul(0x100_0000_01b3).rotate_left(29);
                h[1] = (h[1].rotate_left(17) ^ w).wrapping_mul(0xFF51_AFD7_ED55_8CCD);
            }
            if let Some(o) = self.seen.insert(h, id) {
                return Some(self.names[o].clone());
            }
        }
        None
    }
}

/// Serialized memory-access keys, freshly made from `src`.
fn evk(ctx: &Ctx, src: &mut Src) -> Vec<(i64, Vec<u8>)> {
    use poulpy_core::layouts::GLWESecret;
    use poulpy_hal::{layouts::WriterTo, source::Source};
    use poulpy_schemes::bin_fhe::blind_rotation::CGGI;
    let mut sk = GLWESecret::alloc(ctx.params.n_glwe(), ctx.params.rank());
    sk.fill_ternary_prob(0.5, &mut Source::new(seed32(9, 9)));
    let keys: fhevm::keys::VMKeys<Vec<u8>, CGGI> = fhevm::keys::VMKeys::encrypt_sk(&ctx.params, &ctx.sk_lwe, &sk, &mut src.xa, &mut src.xe);
    let mut v: Vec<_> = keys
        .evk_ram()
        .iter()
        .map(|(g, k)| {
            let mut b = vec![];
            k.write_to(&mut b).unwrap();
            (*g, b)
        })
        .collect();
    v.sort();
    v
}

/// The low digits of the phase of a fresh ciphertext: its encryption errors.
fn errors(ctx: &Ctx, c: &[u8], sc: &mut poulpy_hal::layouts::ScratchOwned<h::BE>) -> Vec<u8> {
    use poulpy_core::layouts::{GLWEPlaintext, LWEInfos, GLWE};
    use poulpy_hal::layouts::{ReaderFrom, ZnxView};
    let infos = ctx.params.ram_infos();
    let mut ct = GLWE::alloc_from_infos(&infos);
    ct.read_from(&mut &c[..]).expect("a serialized ciphertext");
    let mut pt = GLWEPlaintext::alloc_from_infos(&infos);
    ct.decrypt(ctx.module(), &mut pt, &ctx.sk, sc.borrow());
    pt.data().at(0, pt.size() - 1).iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn e10(rep: &Report) {
    rep.rule("all ciphertexts a client produces (seven instruction ROMs, registers, RAM; repeated encryptions of equal data; two VMs) and memory-access keys made from the same sources are searched for repeated content (masks, wherever they stand) and repeated encryption errors, their fresh noise is measured, and they are decrypted with unrelated keys; the public entry point is observed for two different inputs. A case is one pair of ciphertexts, one noise measurement or one wrong-key decryption.");
    let th = rep.thorough();
    let rounds = if th { 60 } else { 4 };
    let ph = rep.phase(60, 1800);
    for round in 0..rounds {
        if rep.failed() || ph.over(round as usize, 2) {
            break;
        }
        let ctx = if round % 2 == 0 { Ctx::fast(rep.seed + 1000 * round, 70) } else { Ctx::new(rep.seed + 1000 * round) };
        let other = Ctx::fast(rep.seed + 1000 * round + 1, 70);
        let (rom, ram) = [(64, 64), (1100, 1030), (16, 1024), (5, 2)][round as usize % 4];
        // Equal data everywhere is the worst case for accidental reuse.
        let data = vec![0x5555_5555u32; ram];
        let prog = vec![0u32; 1].repeat(rom).iter().map(|_| 0x0010_0093u32).collect::<Vec<_>>();
        let mut src = Src::new(rep.seed, 40 + round);
        let regs = [0x5555_5555u32; 32];
        let mut a = EncVm::new(&ctx, &prog, &data, Some(&regs), 1, false, &mut src);
        let b = EncVm::new(&ctx, &prog, &data, Some(&regs), 1, false, &mut src);
        let mut all: Vec<(String, Vec<u8>)> = vec![];
        for (vm, tag) in [(&a, "first"), (&b, "second")] {
            for (n, cts) in h::state_bytes(&vm.vm) {
                if n == "pc" {
                    continue; // not produced by encryption: the boot pc is public
                }
                for (k, c) in cts.into_iter().enumerate() {
                    all.push((format!("{tag}.{n}[{k}]"), c));
                }
            }
        }
        // Evaluation keys made from the same sources belong to the same pool.
        for (g, k) in evk(&ctx, &mut src) {
            all.push((format!("key[{g}]"), k));
        }
        let mut pool = Pool::default();
        for (n, c) in &all {
            if let Some(o) = pool.add(n, c) {
                rep.violation("reuse", format!("{n} repeats a 256-byte block of {o} (round {round})"));
                break;
            }
        }
        // Errors: with equal plaintexts everywhere, equal low digits of the phase are equal errors.
        let mut errs = Pool::default();
        for (n, c) in all.iter().filter(|(n, _)| !n.starts_with("key")) {
            let e = errors(&ctx, c, &mut a.sc);
            if let Some(o) = errs.add(n, &e) {
                rep.violation("reuse:error", format!("32 consecutive encryption errors of {n} are those of {o} (round {round})"));
                break;
            }
        }
        rep.count("error_blocks", errs.seen.len() as u64);
        let pairs = all.len() as u64 * (all.len() as u64 - 1) / 2;
        rep.count("blocks", pool.seen.len() as u64);
        rep.evals(pairs, (0..all.len() as u64).map(|k| round << 32 | k));
        rep.count("ciphertexts", all.len() as u64);
        rep.count("pairs", pairs);
        // A ciphertext whose mask is not random would reveal its content.
        for (n, c) in &all {
            let blocks: Vec<&[u8]> = c.chunks_exact(256).skip(1).collect();
            let zero = blocks.iter().filter(|b| b.iter().all(|x| *x == 0)).count();
            if zero * 5 > blocks.len() {
                rep.violation("transparent", format!("{n}: {zero} of {} blocks of the ciphertext are zero (round {round})", blocks.len()));
                break;
            }
        }
        let s = a.snap();
        let n = h::noise(&a.vm, &s, ctx.module(), &ctx.sk, a.sc.borrow());
        let mut noises = h::rom_noise(&a.vm, ctx.module(), &ctx.sk, a.sc.borrow());
        noises.push(("registers", n.registers));
        noises.push(("ram", n.ram));
        for (name, v) in noises {
            rep.eval(Some(&format!("noise/{round}/{name}")));
            rep.count("noise_measurements", 1);
            rep.gauge_max(&format!("log2_fresh.{name}"), v);
            rep.gauge_max(&format!("neg_log2_fresh.{name}"), -v);
            if !(v < -25.2 && v > -27.4) {
                rep.violation(&format!("fresh_noise:{name}"), format!("round {round}: fresh noise of {name} is 2^{v:.2}, expected about 2^-26"));
            }
            if std::env::var("E08_TRACE").is_ok() {
                eprintln!("{round} {name} {v}");
            }
        }
        if s.ram != data || s.registers != regs {
            rep.violation("decrypt", format!("round {round}: fresh ciphertexts do not decrypt to what was encrypted"));
        }
        // Wrong key.
        let w = h::snapshot(&a.vm, ctx.module(), &other.sk, a.sc.borrow());
        let bits: u32 = w.ram.iter().zip(&data).map(|(x, y)| (x ^ y).count_ones()).sum();
        let share = bits as f64 / (32.0 * ram as f64);
        rep.eval(Some(&format!("wrong/{round}")));
        rep.count("wrong_key_bits", 32 * ram as u64);
        rep.gauge_max("wrong_key_bit_error_rate", share);
        if ram >= 64 && share < 0.25 {
            rep.violation("wrong_key", format!("round {round}: decrypting RAM with an unrelated key gets {:.0}% of the bits right", 100.0 * (1.0 - share)));
        }
        if round % 4 == 1 {
            // The secrets of the monitor itself calibrate the judgement of the public ones.
            super::secrets::judge_secret(rep, "monitor", &super::secrets::secret(&ctx.params, &ctx.sk));
            super::secrets::keys(rep, &ctx, rep.seed + round);
        }
    }
    // Evaluation keys and secret of the public entry point.
    let rom = vec![0x6Fu32; 4];
    let img = crate::elf::whole_ram(&rom, &[1u8; 4096], RAM_BASE);
    let r = catch(|| {
        let p = compiler::Phantom::from_elf(img);
        let x = p.encrypted_vm(&[3u8; 4096], 0);
        let y = p.encrypted_vm(&[4u8; 4096], 0);
        let get = |v: &compiler::interpreter::EncryptedVM| h::state_bytes(v.verif_parts().3);
        let (params, sk, keys, _) = x.verif_parts();
        super::secrets::judge_secret(rep, "public_api", &super::secrets::secret(params, sk));
        super::secrets::judge_small_key(rep, "public_api", params, sk, keys, rep.seed);
        (get(&x), get(&y))
    });
    match r {
        Ok((x, y)) => {
            rep.count("public_vms", 2);
            // The input differs, so RAM bodies differ; masks and ROMs do not have to.
            let mut worst: f64 = 0.0;
            for ((_, p), (_, q)) in x.iter().zip(&y).filter(|((n, _), _)| *n != "pc" && *n != "registers") {
                for (c, d) in p.iter().zip(q) {
                    worst = worst.max(overlap(c, d));
                }
            }
            rep.eval(Some("public/twice"));
            if worst > 0.2 {
                rep.violation("public_api:fixed_seeds", format!("two VMs created for different inputs share {:.0}% of a ciphertext: keys and encryption randomness are the same in every run", worst * 100.0));
            }
            // Within one VM nothing may repeat either.
            let mut cts: Vec<(String, &Vec<u8>)> = vec![];
            for (n, p) in &x {
                if *n != "pc" && *n != "registers" {
                    cts.extend(p.iter().enumerate().map(|(k, c)| (format!("{n}[{k}]"), c)));
                }
            }
            let mut pool = Pool::default();
            for (n, c) in &cts {
                if let Some(o) = pool.add(n, c) {
                    rep.violation("public_api:reuse", format!("{n} repeats a 256-byte block of {o} of the same VM"));
                    break;
                }
            }
            rep.count("blocks", pool.seen.len() as u64);
            rep.count("pairs", cts.len() as u64 * (cts.len() as u64 - 1) / 2);
            for (n, c) in &cts {
                let blocks: Vec<&[u8]> = c.chunks_exact(256).skip(1).collect();
                let zero = blocks.iter().filter(|b| b.iter().all(|x| *x == 0)).count();
                if zero * 5 > blocks.len() {
                    rep.violation("public_api:transparent", format!("{n}: {zero} of {} blocks of the ciphertext are zero", blocks.len()));
                    break;
                }
            }
        }
        Err(e) => rep.violation("public_api:panic", e),
    }
    rep.require("pairs", 10_000);
    rep.require("error_blocks", 10_000);
    rep.require("key_errors_measured", 10);
    rep.require("secret_coefficients", 2000);
    rep.require("small_key_bodies", 400);
    rep.require("noise_measurements", 9);
    rep.require("public_vms", 2);
}
