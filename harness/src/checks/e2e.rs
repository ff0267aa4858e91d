//! T04: the public encrypted VM computes what the plaintext VM and RISC-V compute.
use crate::{
    elf::{text, Image, Seg, R, W},
    progen::{generate_with, Case, Spec},
    report::Report,
    rng::Rng,
    rv::{encode, Inst, Op, RAM_BASE, RV32I},
};
use compiler::Phantom;
use poulpy_hal::api::ScratchOwnedBorrow;

const RAM_WORDS: usize = 1024;

/// A program that starts from nothing, fetches input and mostly stores.
fn program(r: &mut Rng, cycles: usize, rom_size: usize) -> Case {
    let lui = Inst { op: Op::Lui, rd: 2, rs1: 0, rs2: 0, imm: RAM_BASE };
    let lw = |rd: u32, r: &mut Rng| Inst { op: Op::Lw, rd, rs1: 2, rs2: 0, imm: 4 * r.below(511) };
    let prefix = [encode(&lui), encode(&lw(3, r)), encode(&lw(4, r))];
    let mut ops: Vec<Op> = RV32I.to_vec();
    for _ in 0..6 {
        ops.extend([Op::Sw, Op::Sh, Op::Sb]);
    }
    let mut best: Option<(usize, Case)> = None;
    for _ in 0..200 {
        let c = generate_with(
            &Spec { rom_size, ram_size: RAM_WORDS, base: RAM_BASE, cycles, ops: &ops, zero_regs: true },
            &prefix,
            r,
        );
        let mut m = c.machine();
        for _ in 0..c.cycles {
            m.step().unwrap();
        }
        let changed = m.ram_words().iter().zip(&c.ram).filter(|(a, b)| a != b).count();
        let distinct = c.trace.iter().collect::<std::collections::HashSet<_>>().len();
        let score = 1000 * (c.cycles == cycles) as usize + 3 * changed + distinct;
        if best.as_ref().map_or(true, |b| score > b.0) {
            best = Some((score, c));
        }
    }
    best.unwrap().1
}

pub fn t04(rep: &Report) {
    rep.rule("random programs are packed into executables and run through the public interface only (executable in, tape in, run, tape out) on the encrypted VM with production parameters and on the plaintext VM, under several thread, debug and timing settings, in one call or in several; both output tapes, and the decrypted final pc, registers and RAM, are compared with the reference. A case is one (program, settings, stopping point).");
    let th = rep.thorough();
    // (threads, debug, timings, cycles per call, calls)
    type Conf = (Option<&'static str>, Option<&'static str>, Option<&'static str>, usize, usize);
    let confs: &[Conf] = &[
        (Some("40"), None, None, 3, 2),
        (None, Some("true"), Some("1"), 2, 2),
        (Some("3"), Some("0"), Some("0"), 4, 1),
        (Some("many"), None, Some("TRUE"), 5, 1),
        (Some("16"), Some("1"), None, 3, 2),
        (Some("8"), None, None, 6, 1),
        (Some("100"), None, None, 1, 3),
    ];
    let runs = if th { 60 } else { 5 };
    let ph = rep.phase(100, 3300);
    for i in 0..runs {
        if rep.failed() || ph.over(i, 2) {
            break;
        }
        let mut r = Rng::new(rep.seed, &format!("t04/{i}"));
        let (threads, debug, timings, per, calls) = confs[(i + if i >= 2 { rep.seed as usize } else { 0 }) % confs.len()];
        for (k, v) in [("PHANTOM_THREADS", threads), ("PHANTOM_DEBUG", debug), ("PHANTOM_VERBOSE_TIMINGS", timings)] {
            match v {
                Some(v) => std::env::set_var(k, v),
                None => std::env::remove_var(k),
            }
        }
        let per = if th && per > 1 { per * 3 } else { per };
        let total = per * calls;
        let rom_size = r.pick(&[12usize, 30, 64, 1030]);
        let c = program(&mut r, total, rom_size);
        if c.cycles < total {
            rep.count("programs_not_generated", 1);
            continue;
        }
        // Input and output windows; input bytes outside the window come from the boot image.
        let bytes: Vec<u8> = c.ram.iter().flat_map(|w| w.to_le_bytes()).collect();
        let (is, il) = if i % 2 == 0 { (0usize, 4096usize) } else { (4 * r.below(200) as usize, 4 * r.below(700) as usize + r.below(4) as usize) };
        let (os, ol) = if i % 3 != 2 { (0usize, 4096usize) } else { (4 * r.below(500) as usize, 1 + r.below(2000) as usize) };
        let mut boot = bytes.clone();
        for b in &mut boot[is..is + il] {
            *b ^= 0x5A;
        }
        let image = Image {
            segs: vec![text(&c.rom), Seg::load(R | W, RAM_BASE, boot, 4096)],
            sections: vec![
                (".text".into(), 0, 4 * c.rom.len() as u32),
                (".inpdata".into(), RAM_BASE + is as u32, il as u32),
                (".outdata".into(), RAM_BASE + os as u32, ol as u32),
            ],
            padding: 0,
        }
        .build();
        let input = &bytes[is..is + il];
        let label = format!(
            "program {i} rom={} threads={threads:?} debug={debug:?} timings={timings:?} {calls} call(s) of {per} cycles, input {is}+{il}, output {os}+{ol}, {:?}",
            c.rom.len(),
            c.trace
        );
        // Stopping points of the reference.
        let mut m = c.machine();
        let mut stops = vec![];
        for _ in 0..calls {
            for _ in 0..per {
                m.step().unwrap();
            }
            stops.push(m.clone());
        }
        let p = match rep.guard("load", &label, || Phantom::from_elf(image)) {
            Some(p) => p,
            None => return,
        };
        let plain = rep.guard("plain", &label, || {
            let mut vm = p.test_vm(total);
            vm.read_input_tape(input);
            vm.execute();
            vm.output_tape()
        });
        let Some(plain) = plain else { return };
        if plain != m.ram[os..os + ol] {
            rep.violation("plain:output", format!("{label}: the plaintext VM's output tape differs from the reference"));
            return;
        }
        let Some(mut vm) = rep.guard("setup", &label, || p.encrypted_vm(input, per)) else { return };
        for (k, want) in stops.iter().enumerate() {
            if rep.guard("execute", &format!("{label}, call {k}"), || vm.execute()).is_none() {
                return;
            }
            let Some(out) = rep.guard("output", &label, || vm.output_tape()) else { return };
            let s = {
                let (params, sk, _, interp) = vm.verif_parts();
                let mut sc = crate::ctx::scratch(1);
                fhevm::verif_hooks::snapshot(interp, params.module(), sk, sc.borrow())
            };
            rep.eval(Some(&format!("{label}/{k}")));
            rep.count("stopping_points", 1);
            rep.count("encrypted_cycles", per as u64);
            let changed = want.ram_words().iter().zip(&c.ram).filter(|(a, b)| a != b).count();
            rep.count("ram_words_changed", changed as u64);
            if out != want.ram[os..os + ol] {
                let at = out.iter().zip(&want.ram[os..os + ol]).position(|(a, b)| a != b);
                rep.violation("enc:output", format!("{label}, after call {k}: the output tape differs at byte {at:?}"));
                return;
            }
            if let Some((comp, d)) = crate::encvm::diff(&s, want) {
                rep.violation(&format!("enc:{comp}"), format!("{label}, after call {k}: {d}"));
                return;
            }
            if vm.output_tape() != out {
                rep.violation("enc:reread", format!("{label}: reading the output tape twice gives different bytes"));
                return;
            }
        }
        rep.count(&format!("debug_{}", debug.is_some_and(|d| d == "1" || d == "true")), 1);
        rep.sample(label);
    }
    rep.require("stopping_points", 2);
    rep.require("ram_words_changed", 2);
}
