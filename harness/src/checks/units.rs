//! E02-E04: the encrypted execution units on their own.
use crate::{
    ctx::{dec, enc, enc_prep, reuse_scratch, Ctx, Src},
    encvm::EncVm,
    report::{parallel, Report},
    rng::Rng,
    rv::{self, encode, Inst, Machine, Op, RAM_BASE},
};
use fhevm::verif_hooks as h;
use poulpy_hal::api::ScratchOwnedBorrow;
use std::collections::HashMap;

const THREADS: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 20, 24, 31, 32, 33, 40, 64];

fn op_of(name: &str) -> Option<Op> {
    rv::RV32I.iter().copied().find(|o| o.name() == name)
}

/// Value the register-update unit must produce.
fn rd_ref(op: Op, imm: u32, rs1: u32, rs2: u32, pc: u32, ram: u32) -> u32 {
    match op {
        Op::Lui => imm << 12,
        Op::Auipc => pc.wrapping_add(imm << 12),
        Op::Jal | Op::Jalr => pc.wrapping_add(4),
        o if o.is_load() => rv::load_ext(o, ram),
        o if o.is_i_alu() => rv::alu(o, rs1, imm),
        o => rv::alu(o, rs1, rs2),
    }
}

fn imm_for(op: Op, r: &mut Rng) -> u32 {
    match op {
        Op::Lui | Op::Auipc => rv::any_imm(op, r) >> 12,
        _ => rv::any_imm(op, r),
    }
}

pub fn e02(rep: &Report) {
    rep.rule("every register-writing operation evaluated on encrypted operands (boundary-biased and related operand pairs, all shift amounts, several thread counts), decrypted and compared with the reference; the crate's own plaintext model is compared on many more operands. A case is one (operation, operands) evaluation.");
    let th = rep.thorough();
    let list: Vec<(u32, Op)> = h::rd_ops(false).into_iter().filter_map(|(i, n)| op_of(&n).map(|o| (i, o))).collect();
    // Plaintext model, including the M extension.
    let mlist: Vec<(u32, Op)> = h::rd_ops(true)
        .into_iter()
        .filter_map(|(i, n)| rv::RV32I.iter().chain(rv::RV32M).copied().find(|o| o.name() == n).map(|o| (i, o)))
        .collect();
    if mlist.len() != 36 || list.len() != 28 {
        rep.inconclusive(format!("{} register operations recognised by name (28 and 36 expected)", list.len()));
    }
    let mut r = Rng::new(rep.seed, "e02/plain");
    let mut evals = 0;
    let mut keys = vec![];
    'all: for k in 0..if th { 3_000_000 } else { 300_000 } {
        for (id, op) in &mlist {
            if k % 8 != 0 && !matches!(op, Op::Div | Op::Rem | Op::Divu | Op::Remu) && r.chance(3, 4) {
                continue;
            }
            let rs1 = r.word();
            let (rs2, pc, ram) = (r.related(rs1), r.word(), r.word());
            let imm = imm_for(*op, &mut r);
            let want = rd_ref(*op, imm, rs1, rs2, pc, ram);
            let what = || format!("plain {} rs1={rs1:#010x} rs2={rs2:#010x} imm={imm:#010x} pc={pc:#010x} ram={ram:#010x}", op.name());
            let have = match crate::report::catch(|| h::rd_eval_plain(*id, imm, rs1, rs2, pc, ram)) {
                Ok(v) => v,
                Err(e) => {
                    rep.violation(&format!("plain:{}:panic", op.name()), format!("{}: {e}", what()));
                    break 'all;
                }
            };
            evals += 1;
            if evals % 64 == 0 {
                keys.push((rs1 as u64) << 32 | rs2 as u64);
            }
            if have != want {
                rep.violation(&format!("plain:{}", op.name()), format!("{} = {have:#010x}, expected {want:#010x}", what()));
                break 'all;
            }
        }
    }
    rep.count("plain_evaluations", evals);
    rep.evals(evals, keys);
    if rep.failed() {
        return;
    }
    let ctx = Ctx::fast(rep.seed, 14);
    let n = if th { 4000 } else { 400 };
    let ph = rep.phase(60, 3000);
    parallel(8, n, |k| {
        if rep.failed() || ph.over(k, 24) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e02/{k}"));
        let mut src = Src::new(rep.seed, k as u64);
        let mut sc = reuse_scratch(64);
        let rs1 = r.word();
        // Shift amounts are walked systematically, with random bits above the five that count.
        let rs2 = if k % 3 == 0 { (k as u32 / 3) % 32 | (r.u32() & !31) } else { r.related(rs1) };
        let pc = if r.chance(1, 2) { r.u32() & 0x3FFFC } else { r.word() };
        let (ram, z) = (r.word(), r.word());
        let p1 = enc_prep(&ctx, rs1, &mut src, &mut sc);
        let p2 = enc_prep(&ctx, rs2, &mut src, &mut sc);
        let ppc = enc_prep(&ctx, pc, &mut src, &mut sc);
        let cram = enc(&ctx, ram, &mut src, &mut sc);
        let mut res = enc(&ctx, z, &mut src, &mut sc); // stale content must not matter
        let imms: Vec<u32> = vec![rv::any_imm(Op::Addi, &mut r), r.below(32), r.u32() & 0xFFFFF];
        let pimm: Vec<_> = imms.iter().map(|v| enc_prep(&ctx, *v, &mut src, &mut sc)).collect();
        for (j, (id, op)) in list.iter().enumerate() {
            // The loaded-word operations are cheap; the diagram operations are not.
            let q = match op {
                Op::Lui | Op::Auipc => 2,
                o if o.is_shift_imm() => 1,
                _ => 0,
            };
            let imm = imms[q];
            let threads = THREADS[(k + j) % THREADS.len()];
            let want = rd_ref(*op, imm, rs1, rs2, pc, ram);
            let what = format!("{} rs1={rs1:#010x} rs2={rs2:#010x} imm={imm:#010x} pc={pc:#010x} ram={ram:#010x} threads={threads}", op.name());
            if rep
                .guard(&op.name(), &what, || {
                    h::rd_eval_enc(*id, threads, ctx.module(), &mut res, &p1, &p2, &pimm[q], &ppc, &cram, &ctx.keys, sc.borrow())
                })
                .is_none()
            {
                return;
            }
            let have = dec(&ctx, &res, &mut sc);
            rep.eval(Some(&what));
            rep.count(&format!("op.{}", op.name()), 1);
            rep.count(&format!("threads.{threads}"), 1);
            if have != want {
                rep.violation(&op.name(), format!("{what}: {have:#010x}, expected {want:#010x}"));
                return;
            }
        }
        if k < 2 {
            rep.sample(format!("rs1={rs1:#010x} rs2={rs2:#010x} imm={:#x} pc={pc:#x} over {} operations", imms[0], list.len()));
        }
    });
    for (_, o) in &list {
        rep.require(&format!("op.{}", o.name()), 20);
    }
}

/// A machine that executes one memory instruction per cycle.
fn mem_case(r: &mut Rng, ram_words: usize, cycles: usize, first: usize) -> (Machine, Vec<(Op, u32)>) {
    let ops: Vec<(Op, u32)> = vec![
        (Op::Lb, 0), (Op::Lb, 1), (Op::Lb, 2), (Op::Lb, 3),
        (Op::Lbu, 0), (Op::Lbu, 1), (Op::Lbu, 2), (Op::Lbu, 3),
        (Op::Lh, 0), (Op::Lh, 2), (Op::Lhu, 0), (Op::Lhu, 2), (Op::Lw, 0),
        (Op::Sb, 0), (Op::Sb, 1), (Op::Sb, 2), (Op::Sb, 3),
        (Op::Sh, 0), (Op::Sh, 2), (Op::Sw, 0),
    ];
    let ram: Vec<u32> = (0..ram_words)
        .map(|_| match r.below(3) {
            0 => r.word(),
            // Distinguishable bytes with every sign pattern.
            1 => (0..4).fold(0, |a, i| a | (((r.below(2) << 7) | (0x10 * (i + 1)) | r.below(16)) << (8 * i))),
            _ => r.u32(),
        })
        .collect();
    let mut m = Machine::new(vec![], &ram, RAM_BASE);
    for k in 1..32 {
        m.x[k] = match k % 3 {
            0 => RAM_BASE + r.below(4 * ram_words as u32),
            1 => RAM_BASE.wrapping_add((r.range(-2000, 2000)) as u32),
            _ => r.word(),
        };
    }
    m.x[9] = RAM_BASE + 4 * (ram_words as u32 - 1);
    let start = m.clone();
    let mut trace = vec![];
    let mut c = 0;
    while trace.len() < cycles {
        let (op, off) = ops[(first + c) % ops.len()];
        c += 1;
        let mut done = false;
        for _ in 0..300 {
            let rs1 = 1 + r.below(31);
            let word = match r.below(4) {
                0 => 0,
                1 => ram_words as u32 - 1,
                _ => r.below(ram_words as u32),
            };
            let addr = RAM_BASE + 4 * word + off;
            let imm = addr.wrapping_sub(m.x[rs1 as usize]) as i32;
            if !(-2048..=2047).contains(&imm) {
                continue;
            }
            let rd = if op.is_load() { r.pick(&[0u32, 10, 11, 12, 13, 14, 15]) } else { 0 };
            let i = Inst { op, rd, rs1, rs2: if op.is_store() { r.below(32) } else { 0 }, imm: imm as u32 };
            m.rom.push(encode(&i));
            m.step().expect("reference execution is fault-free");
            trace.push((op, off));
            done = true;
            break;
        }
        if !done {
            // Could not reach an address from any register: reset one to the RAM base.
            continue;
        }
    }
    let mut s = start;
    s.rom = m.rom.clone();
    s.rom.push(0x13);
    (s, trace)
}

pub fn e03(rep: &Report) {
    rep.rule("programs made only of loads and stores, walking every (operation, byte offset) pair over the first, last and random words with sign-distinguishable data, run on the encrypted VM with full decrypted-state comparison after each cycle; the store unit is also evaluated alone on encrypted operands. A case is one memory access.");
    let th = rep.thorough();
    let ctx = Ctx::fast(rep.seed, 14);
    let rams = [32usize, 7, 1024, 200, 1030, 64, 2, 5000, 2048];
    let progs = if th { 300 } else { 16 };
    let ph = rep.phase(60, 3000);
    parallel(8, progs, |i| {
        if rep.failed() || ph.over(i, 8) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e03/{i}"));
        let words = rams[(i + rep.seed as usize) % rams.len()];
        let cycles = if th { 20 } else { 10 };
        let (mut m, trace) = mem_case(&mut r, words, cycles, 10 * i);
        let mut src = Src::new(rep.seed, i as u64);
        let threads = [1, 1, 2, 3][i % 4];
        let ram = m.ram_words();
        let Some(mut vm) = rep.guard("setup", "vm", || EncVm::new(&ctx, &m.rom, &ram, Some(&m.x), threads, false, &mut src)) else { return };
        for (c, (op, off)) in trace.iter().enumerate() {
            let inst = m.fetch().unwrap();
            let (a, b) = (m.x[inst.rs1 as usize], m.x[inst.rs2 as usize]);
            m.step().unwrap();
            let what = format!("prog {i} cycle {c} {inst:?} rs1={a:#010x} rs2={b:#010x} ram_words={words} threads={threads}");
            if rep.guard(&format!("{}@{off}", op.name()), &what, || vm.cycle()).is_none() {
                return;
            }
            let s = vm.snap();
            rep.eval(Some(&what));
            rep.count(&format!("access.{}@{off}", op.name()), 1);
            if let Some((comp, d)) = crate::encvm::diff(&s, &m) {
                rep.violation(&format!("{}@{off}:{comp}", op.name()), format!("{what}: {d}"));
                return;
            }
        }
        if i < 2 {
            rep.sample(format!("prog {i}: {trace:?}"));
        }
    });
    if rep.failed() {
        return;
    }
    // The store unit alone.
    let ops: HashMap<String, u32> = h::ram_ops().into_iter().map(|(i, n)| (n, i)).collect();
    let n = if th { 3000 } else { 160 };
    let ph = rep.phase(30, 900);
    parallel(8, n, |k| {
        if rep.failed() || ph.over(k, 54) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e03/unit/{k}"));
        let mut src = Src::new(rep.seed, 90_000 + k as u64);
        let mut sc = reuse_scratch(64);
        let (name, off) = [("NONE", 0), ("NONE", 3), ("SB", 0), ("SB", 1), ("SB", 2), ("SB", 3), ("SH", 0), ("SH", 2), ("SW", 0)][k % 9];
        let (v, old) = (r.word(), r.word());
        // Only the two low bits of the address select bytes.
        let addr = off | (r.u32() & !3);
        let cv = enc(&ctx, v, &mut src, &mut sc);
        let co = enc(&ctx, old, &mut src, &mut sc);
        let pa = enc_prep(&ctx, addr, &mut src, &mut sc);
        let mut res = enc(&ctx, r.word(), &mut src, &mut sc);
        let mut bytes = old.to_le_bytes();
        let w = match name {
            "SB" => 1,
            "SH" => 2,
            "SW" => 4,
            _ => 0,
        };
        for q in 0..w {
            bytes[off as usize + q] = v.to_le_bytes()[q];
        }
        let want = u32::from_le_bytes(bytes);
        let what = format!("{name} value={v:#010x} old={old:#010x} address={addr:#010x}");
        let id = ops[name];
        let plain = h::ram_eval_plain(id, v, old, off);
        if plain != want {
            rep.violation(&format!("store:{name}:plain"), format!("{what}: plaintext model {plain:#010x}, expected {want:#010x}"));
        }
        let threads = THREADS[k % THREADS.len()];
        if rep
            .guard(&format!("store:{name}"), &what, || {
                h::ram_eval_enc(id, threads, ctx.module(), &mut res, &cv, &co, &pa, &ctx.keys, sc.borrow())
            })
            .is_none()
        {
            return;
        }
        let have = dec(&ctx, &res, &mut sc);
        rep.eval(Some(&what));
        rep.count(&format!("store.{name}@{off}"), 1);
        if have != want {
            rep.violation(&format!("store:{name}"), format!("{what}: {have:#010x}, expected {want:#010x}"));
        }
    });
    for k in ["LB@0", "LB@1", "LB@2", "LB@3", "LBU@3", "LH@0", "LH@2", "LHU@2", "LW@0", "SB@0", "SB@1", "SB@2", "SB@3", "SH@0", "SH@2", "SW@0"] {
        rep.require(&format!("access.{k}"), 2);
    }
    rep.require("store.SB@3", 5);
}

pub fn e04(rep: &Report) {
    rep.rule("random histories of reads, read-then-write-back, writes and clears at encrypted addresses on encrypted memories of many sizes and thread counts; every read value and, after every operation, every decrypted word is compared with a plain array. A case is one operation.");
    let th = rep.thorough();
    let ctx = Ctx::fast(rep.seed, 14);
    // (words, operations)
    let sizes = [2usize, 1, 3, 31, 32, 33, 100, 1023, 1024, 1025, 1500, 2048, 2500, 4096, 5, 64, 3000, 5000, 8193, 20000];
    let runs = if th { 600 } else { 320 };
    let ph = rep.phase(60, 3000);
    parallel(8, runs, |i| {
        if rep.failed() || ph.over(i, 32) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e04/{i}"));
        let mut src = Src::new(rep.seed, i as u64);
        let words = sizes[i % sizes.len()];
        let threads = THREADS[(i / 2) % THREADS.len()];
        let mut sc = reuse_scratch(64);
        let mut mem = h::Mem::new(&ctx.params, 32, words);
        let mut model: Vec<u32> = (0..words).map(|_| r.word()).collect();
        let short = if r.chance(1, 3) { r.below(words as u32 + 1) as usize } else { words };
        for w in model[short..].iter_mut() {
            *w = 0;
        }
        let label = format!("run {i}: {words} words, {threads} threads");
        if rep
            .guard("encrypt", &label, || mem.encrypt(ctx.module(), &model[..short], &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow()))
            .is_none()
        {
            return;
        }
        let mut hist = vec![];
        for step in 0..if th { 14 } else { 7 } {
            let a = match r.below(6) {
                0 => 0,
                1 => words - 1,
                2 => (words - 1).min(1023),
                3 => (words - 1).min(1024),
                _ => r.below(words as u32) as usize,
            };
            // Random bits below the offset; those above the address width must be clear.
            let offset = r.pick(&[0usize, 2, 2, 5]);
            let addr = ((a as u32) << offset) | (r.u32() & ((1 << offset) - 1));
            let pa = enc_prep(&ctx, addr, &mut src, &mut sc);
            let v = r.word();
            let kind = ["read", "write", "readwrite", "zero", "readback", "write"][(step + i) % 6];
            let cv = enc(&ctx, v, &mut src, &mut sc);
            let mut res = ctx.ct();
            hist.push(format!("{kind}[{a}]"));
            let what = format!("{label} after {hist:?} (address offset {offset}, value {v:#010x})");
            let (m, keys) = (ctx.module(), &ctx.keys);
            let mut read = None;
            let ok = rep.guard(kind, &what, || match kind {
                "read" => {
                    mem.read_stateless(threads, m, &mut res, &pa, offset, keys, sc.borrow());
                    read = Some(model[a]);
                }
                "write" => {
                    mem.write(threads, m, &cv, &pa, offset, keys, sc.borrow());
                    model[a] = v;
                }
                "readwrite" => {
                    mem.read_statefull(threads, m, &mut res, &pa, offset, keys, sc.borrow());
                    mem.read_statefull_rev(threads, m, &cv, &pa, offset, keys, sc.borrow());
                    read = Some(model[a]);
                    model[a] = v;
                }
                "readback" => {
                    mem.read_statefull(threads, m, &mut res, &pa, offset, keys, sc.borrow());
                    mem.read_statefull_rev(threads, m, &res, &pa, offset, keys, sc.borrow());
                    read = Some(model[a]);
                }
                _ => {
                    mem.zero(threads, m, a, keys, sc.borrow());
                    model[a] = 0;
                }
            });
            if ok.is_none() {
                return;
            }
            rep.eval(Some(&what));
            rep.count(kind, 1);
            rep.count(&format!("threads.{threads}"), 1);
            if let Some(want) = read {
                let have = dec(&ctx, &res, &mut sc);
                if have != want {
                    rep.violation(&format!("{kind}:value"), format!("{what}: read {have:#010x}, expected {want:#010x}"));
                    return;
                }
            }
            let have = mem.decrypt(m, &ctx.sk, sc.borrow());
            rep.count("words_compared", words as u64);
            if let Some(k) = (0..words).find(|k| have[*k] != model[*k]) {
                rep.violation(&format!("{kind}:contents"), format!("{what}: word {k} = {:#010x}, expected {:#010x}", have[k], model[k]));
                return;
            }
        }
        rep.count(if words > 2048 { "runs.large" } else if words > 1024 { "runs.multi_poly" } else { "runs.single_poly" }, 1);
        if i < 3 {
            rep.sample(format!("{label}: {hist:?}"));
        }
    });
    for k in ["read", "write", "readwrite", "readback", "zero"] {
        rep.require(k, 8);
    }
    rep.require("runs.multi_poly", 1);
    rep.require("runs.single_poly", 3);
}
