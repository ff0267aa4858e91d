//! E01: every encrypted cycle is one RV32I instruction.
use crate::{
    ctx::{Ctx, Src},
    encvm::run_case,
    progen::{default_base, generate_full, Spec},
    report::{parallel, Report},
    rng::Rng,
    rv::RV32I,
};

pub fn e01(rep: &Report) {
    rep.rule("programs are grown instruction by instruction along a fault-free RV32I reference run (random operands with boundary bias, random ROM/RAM sizes, initial registers and memory); after every encrypted cycle the decrypted pc, all 32 registers and all of RAM are compared with the reference. A case is one (instruction, operand values, pc, sizes) cycle.");
    rep.assume("bulk of the cycles uses a 14-coefficient LWE key (same code, cheaper bootstrapping); a shorter part uses the production parameters");
    let th = rep.thorough();
    let sizes: &[(usize, usize)] = &[
        (32, 32),
        (64, 1024),
        (17, 100),
        (5, 2),
        (1024, 64),
        (1100, 33),
        (100, 1500),
        (2, 1024),
        (48, 2048),
        (33, 3000),
        (1, 16),
        (40, 1),
        (4200, 16),
        (40, 9000),
    ];
    let (progs, cycles) = if th { (400, 24) } else { (24, 12) };
    let fast = Ctx::fast(rep.seed, 14);
    let ph = rep.phase(100, 3000);
    parallel(8, progs, |i| {
        if ph.over(i, 8) || rep.failed() {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e01/{i}"));
        let (rom, ram) = sizes[(i + rep.seed as usize) % sizes.len()];
        // Two long runs (started first) in small memories, the rest short ones everywhere.
        let (rom, ram, cycles) = if i < 2 { (100, ram.min(100), 3 * cycles) } else { (rom, ram, if rom == 1 { 2 } else { cycles }) };
        let case = generate_full(
            &Spec {
                rom_size: rom,
                ram_size: ram,
                base: default_base(),
                cycles,
                ops: RV32I,
                zero_regs: false,
            },
            &mut r,
        );
        let mut src = Src::new(rep.seed, i as u64);
        rep.gauge_max("longest_run", cycles as f64);
        run_case(rep, &fast, &case, [1, 1, 2, 1, 3, 1, 1, 5][i % 8], false, &mut src, &format!("prog{i}"));
    });
    drop(fast);
    if rep.failed() {
        return;
    }
    // Production parameters.
    let ctx = Ctx::new(rep.seed);
    let (progs, cycles) = if th { (24, 12) } else { (1, 5) };
    let ph = rep.phase(40, 1800);
    for i in 0..progs {
        if ph.over(i, 1) || rep.failed() {
            break;
        }
        let mut r = Rng::new(rep.seed, &format!("e01/prod/{i}"));
        let case = generate_full(
            &Spec {
                rom_size: 64,
                ram_size: 1024,
                base: default_base(),
                cycles,
                ops: RV32I,
                zero_regs: i % 2 == 1,
            },
            &mut r,
        );
        let mut src = Src::new(rep.seed, 7000 + i as u64);
        let n = run_case(rep, &ctx, &case, 8, false, &mut src, &format!("prod{i}"));
        rep.count("production_parameter_cycles", n as u64);
    }
    rep.require("cycles", 60);
    rep.require("production_parameter_cycles", 2);
}
