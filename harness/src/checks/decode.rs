//! D01: the instruction decoder, over every word of the supported opcodes.
//! D02: the encrypted instruction memory holds exactly the decoded program.
use crate::{
    ctx::{scratch, Ctx, Src},
    encvm::{parser, EncVm},
    report::{catch, parallel, Report},
    rng::Rng,
    rv::{self, decode, encode, Inst, Op},
};
use fhevm::{
    instructions::{Instruction, InstructionsParser},
    verif_hooks::{self as h, Decoded},
};
use std::collections::HashMap;

/// What a decoded word means, read off the tables of operation names.
pub struct Names {
    pub rd: Vec<String>,
    pub mu: Vec<String>,
    pub pc: Vec<String>,
}
impl Names {
    pub fn new() -> Names {
        let v = |l: Vec<(u32, String)>| {
            let m: HashMap<u32, String> = l.into_iter().collect();
            (0..64).map(|i| m.get(&i).cloned().unwrap_or(format!("?{i}"))).collect()
        };
        Names {
            rd: v(h::rd_ops(true)),
            mu: v(h::ram_ops()),
            pc: v(h::pc_ops()),
        }
    }
}

/// Expected operation ids, by name, for every op.
pub struct Want {
    pub rdu: u32,
    pub mu: u32,
    pub pcu: u32,
}
pub fn want_ids(n: &Names, op: Op) -> Want {
    let id = |t: &Vec<String>, s: &str| t.iter().position(|x| x == s).map(|x| x as u32).unwrap_or(u32::MAX);
    let name = op.name();
    Want {
        rdu: id(&n.rd, if op.writes_rd() { &name } else { "NONE" }),
        mu: id(&n.mu, if op.is_store() { &name } else { "NONE" }),
        pcu: id(&n.pc, if op.is_branch() || op.is_jump() { &name } else { "NONE" }),
    }
}

/// Immediate as the evaluation units consume it.
pub fn want_imm(i: &Inst) -> u32 {
    match i.op {
        Op::Lui | Op::Auipc => i.imm >> 12,
        _ => i.imm,
    }
}

/// First field on which a decoding disagrees with the reference instruction.
pub fn mismatch(i: &Inst, d: &Decoded, w: &Want) -> Option<&'static str> {
    if d.rdu != w.rdu {
        return Some("register-operation");
    }
    if d.mu != w.mu {
        return Some("memory-operation");
    }
    if d.pcu != w.pcu {
        return Some("pc-operation");
    }
    // A word that writes no register must not name one.
    if d.rd != i.rd {
        return Some("rd");
    }
    if i.op.reads_rs1() && d.rs1 != i.rs1 {
        return Some("rs1");
    }
    if i.op.reads_rs2() && d.rs2 != i.rs2 {
        return Some("rs2");
    }
    if !i.op.is_r() && d.imm != want_imm(i) {
        return Some("immediate");
    }
    None
}

pub fn d01(rep: &Report) {
    rep.rule("every 32-bit word of the ten supported major opcodes (2^25 words each) is decoded by the system and by an independent RV32IM decoder and all architecturally relevant fields are compared; words of every other opcode and reserved function codes must be refused. A case is one word.");
    let names = Names::new();
    let want: HashMap<Op, Want> = rv::RV32I.iter().chain(rv::RV32M).map(|o| (*o, want_ids(&names, *o))).collect();
    let wants: Vec<&Want> = {
        // indexed by discriminant for speed
        let mut v: Vec<(usize, &Want)> = want.iter().map(|(o, w)| (*o as usize, w)).collect();
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|x| x.1).collect()
    };
    const OPC: [u32; 10] = [0x37, 0x17, 0x6F, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x73];
    let per = 1u32 << 25;
    let chunks = 64;
    parallel(8, OPC.len() * chunks, |job| {
        let opc = OPC[job / chunks];
        let lo = (job % chunks) as u32 * (per / chunks as u32);
        let mut valid = 0u64;
        let mut reported = 0;
        let r = catch(|| {
            let mut cur = 0u32;
            for hi in lo..lo + per / chunks as u32 {
                let w = (hi << 7) | opc;
                if opc == 0x73 {
                    // environment call / breakpoint / CSR words do nothing but advance
                    let d = h::decode(w);
                    let none = &names;
                    if none.rd[d.rdu as usize & 63] != "NONE"
                        || none.mu[d.mu as usize & 63] != "NONE"
                        || none.pc[d.pcu as usize & 63] != "NONE"
                        || d.rd != 0
                    {
                        rep.violation("system", format!("word {w:#010x} decoded as {d:?}"));
                        return cur;
                    }
                    valid += 1;
                    continue;
                }
                if let Some(i) = decode(w) {
                    cur = w;
                    LAST.with(|l| l.set(w));
                    let d = h::decode(w);
                    valid += 1;
                    if let Some(f) = mismatch(&i, &d, wants[i.op as usize]) {
                        rep.violation(
                            &format!("{}:{f}", i.op.name()),
                            format!("word {w:#010x} = {i:?}: field {f}, decoded {d:?}"),
                        );
                        reported += 1;
                        if reported > 3 {
                            return cur;
                        }
                    }
                }
            }
            cur
        });
        if let Err(e) = r {
            let w = LAST.with(|l| l.get());
            rep.violation("decode:panic", format!("word {w:#010x} {:?}: {e}", decode(w)));
        }
        rep.evals(valid, (0..valid).map(|k| ((job as u64) << 40) | k).step_by(1024));
        rep.count("valid_words", valid);
    });
    // Refusals.
    let mut r = Rng::new(rep.seed, "d01/refuse");
    let n = if rep.thorough() { 20_000 } else { 1_500 };
    for opc in 0..128u32 {
        if OPC.contains(&opc) {
            continue;
        }
        for k in 0..n / 32 {
            let w = (if k == 0 { 0 } else { r.u32() & !0x7F }) | opc;
            rep.count("foreign_opcodes", 1);
            if let Ok(d) = catch(|| h::decode(w)) {
                rep.violation("refuse:opcode", format!("word {w:#010x} is no RV32IM instruction but decoded as {d:?}"));
                break;
            }
        }
    }
    // Every function code of the supported opcodes that defines nothing.
    'codes: for opc in &OPC[..9] {
        for code in 0..1024u32 {
            for _ in 0..if rep.thorough() { 40 } else { 3 } {
                let w = (r.u32() & !0xFE00_707F) | (code >> 3) << 25 | (code & 7) << 12 | opc;
                if decode(w).is_some() {
                    continue;
                }
                rep.count("undefined_function_codes", 1);
                if let Ok(d) = catch(|| h::decode(w)) {
                    rep.violation(&format!("refuse:{opc:#x}:{}", code & 7), format!("word {w:#010x} (undefined) decoded as {d:?}"));
                    break 'codes;
                }
            }
        }
    }
    // The parser keeps instructions in order and unpacks the fields it packed.
    let words: Vec<u32> = (0..4096)
        .map(|_| loop {
            let w = (r.u32() & !0x7F) | r.pick(&OPC[..9]);
            if decode(w).is_some() {
                break w;
            }
        })
        .collect();
    let p = parser(&words);
    for (k, w) in words.iter().enumerate() {
        let i = decode(*w).unwrap();
        let g = h::parser_get(&p, k);
        let d = Decoded {
            imm: g.0 as u32,
            rs2: g.1 as u32,
            rs1: g.2 as u32,
            rd: g.3 as u32,
            rdu: g.4 as u32,
            mu: g.5 as u32,
            pcu: g.6 as u32,
        };
        rep.count("parser_entries", 1);
        if let Some(f) = mismatch(&i, &d, &want[&i.op]) {
            rep.violation(&format!("parser:{f}"), format!("entry {k} {w:#010x} {i:?} stored as {d:?}"));
            break;
        }
    }
    rep.sample(format!("{:#010x} -> {:?}", 0x00208463u32, h::decode(0x00208463)));
    rep.require("valid_words", 100_000_000);
    rep.require("parser_entries", 4096);
}

thread_local! { static LAST: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

fn random_inst(r: &mut Rng) -> Inst {
    let op = r.pick(rv::RV32I);
    Inst {
        op,
        rd: if op.writes_rd() { r.below(32) } else { 0 },
        rs1: if op.reads_rs1() { r.below(32) } else { 0 },
        rs2: if op.reads_rs2() { r.below(32) } else { 0 },
        imm: rv::any_imm(op, r),
    }
}

pub fn d02(rep: &Report) {
    rep.rule("random and edge-biased programs of many sizes are encrypted; (a) every ROM slot is decrypted field by field and compared with the reference decoding, (b) the encrypted machine is placed on slots (including first, last and polynomial boundaries) and the fetched fields are decrypted and compared. A case is one (program, slot).");
    let names = Names::new();
    let want: HashMap<Op, Want> = rv::RV32I.iter().map(|o| (*o, want_ids(&names, *o))).collect();
    let th = rep.thorough();
    let sizes: Vec<usize> = if th {
        vec![1, 2, 3, 5, 16, 17, 31, 33, 64, 100, 511, 512, 513, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4096, 5000, 8192, 20000, 65536]
    } else {
        vec![1, 2, 3, 17, 64, 100, 1023, 1024, 1025, 1500, 2049, 3000, 4096, 5000]
    };
    let ctx = Ctx::fast(rep.seed, 70);
    let ph = rep.phase(60, 2400);
    parallel(8, sizes.len(), |job| {
        let n = sizes[job];
        let mut r = Rng::new(rep.seed, &format!("d02/{n}"));
        let insts: Vec<Inst> = (0..n).map(|_| random_inst(&mut r)).collect();
        let words: Vec<u32> = insts.iter().map(encode).collect();
        let mut src = Src::new(rep.seed, 500 + job as u64);
        let ram = [0u32; 2];
        let mut regs = [0u32; 32];
        regs[1..].iter_mut().for_each(|x| *x = r.u32());
        let Some(mut evm) = rep.guard("setup", &format!("rom of {n} instructions"), || {
            EncVm::new(&ctx, &words, &ram, Some(&regs), 1, false, &mut src)
        }) else {
            return;
        };
        let rom = h::rom(&evm.vm, ctx.module(), &ctx.sk, {
            use poulpy_hal::api::ScratchOwnedBorrow;
            evm.sc.borrow()
        });
        for (k, i) in insts.iter().enumerate() {
            let d = &rom[k];
            rep.count("slots_decrypted", 1);
            rep.eval(Some(&format!("rom/{n}/{k}")));
            if let Some(f) = mismatch(i, d, &want[&i.op]) {
                rep.violation(&format!("rom:{f}"), format!("rom size {n}, slot {k}, {i:?}: encrypted as {d:?}"));
                return;
            }
        }
        if job == 0 {
            rep.sample(format!("rom size {n} slot 0 {:?} -> {:?}", insts[0], rom[0]));
        }
        // Fetch at chosen slots.
        let mut slots: Vec<usize> = vec![n - 1, n / 2, 0, 1.min(n - 1)];
        for b in [1023usize, 1024, 1025, 2047, 2048, 3071, 4095] {
            if b < n {
                slots.push(b);
            }
        }
        for _ in 0..if th { 12 } else { 2 } {
            slots.push(r.below(n as u32) as usize);
        }
        slots.dedup();
        for (q, s) in slots.into_iter().enumerate() {
            if ph.over(q, 4) || rep.failed() {
                break;
            }
            {
                use poulpy_hal::api::ScratchOwnedBorrow;
                h::set_pc(&mut evm.vm, 4 * s as u32, ctx.module(), &ctx.sk, &mut src.xa, &mut src.xe, evm.sc.borrow());
            }
            if rep.guard("fetch", &format!("rom size {n}, slot {s}"), || evm.cycle()).is_none() {
                return;
            }
            let snap = evm.snap();
            let got = snap.decoded;
            rep.count("slots_fetched", 1);
            // The registers named by the slot are the ones that were used.
            let i = &insts[s];
            let before = regs;
            regs.copy_from_slice(&snap.registers);
            let used = [(i.op.reads_rs1(), "rs1", i.rs1, snap.rs1_val), (i.op.reads_rs2(), "rs2", i.rs2, snap.rs2_val)];
            if let Some(u) = used.iter().find(|u| u.0 && before[u.2 as usize] != u.3) {
                rep.violation(&format!("use:{}", u.1), format!("rom size {n}, pc {:#x}, {i:?}: {} is {:#x}, register {} holds {:#x}", 4 * s, u.1, u.3, u.2, before[u.2 as usize]));
                return;
            }
            let rd = if i.op.writes_rd() { i.rd as usize } else { 0 };
            if let Some(k) = (0..32).find(|k| *k != rd && before[*k] != regs[*k]) {
                rep.violation("use:rd", format!("rom size {n}, pc {:#x}, {i:?}: register {k} changed", 4 * s));
                return;
            }
            rep.eval(Some(&format!("fetch/{n}/{s}")));
            if let Some(f) = mismatch(&insts[s], &got, &want[&insts[s].op]) {
                rep.violation(&format!("fetch:{f}"), format!("rom size {n}, pc {:#x}, {:?}: fetched {got:?}", 4 * s, insts[s]));
                return;
            }
        }
    });
    // A program shorter than the ROM leaves the remaining slots inert.
    let mut r = Rng::new(rep.seed, "d02/short");
    let mut p = InstructionsParser::new();
    let insts: Vec<Inst> = (0..20).map(|_| random_inst(&mut r)).collect();
    for i in &insts {
        p.add(Instruction::new(encode(i)));
    }
    let mut vm = fhevm::Interpreter::new(&ctx.params, 64, 2);
    let mut sc = scratch(1);
    let mut src = Src::new(rep.seed, 900);
    use poulpy_hal::api::ScratchOwnedBorrow;
    if rep
        .guard("setup", "program shorter than the ROM", || {
            vm.instructions_encrypt_sk(ctx.module(), &p, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow())
        })
        .is_some()
    {
        let rom = h::rom(&vm, ctx.module(), &ctx.sk, sc.borrow());
        for k in 0..64 {
            rep.count("slots_decrypted", 1);
            if k < 20 {
                if let Some(f) = mismatch(&insts[k], &rom[k], &want[&insts[k].op]) {
                    rep.violation(&format!("rom:{f}"), format!("short program slot {k}: {:?}", rom[k]));
                }
            } else if rom[k].rd != 0 || names.rd[rom[k].rdu as usize & 63] != "NONE" || names.mu[rom[k].mu as usize & 63] != "NONE" {
                rep.violation("rom:padding", format!("slot {k} past the program decrypts to {:?}", rom[k]));
            }
        }
    }
    rep.require("slots_decrypted", 3000);
    rep.require("slots_fetched", 20);
}
