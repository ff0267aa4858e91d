//! What the encrypted VM cannot hold or execute is refused, and everything else is accepted.
use crate::{
    ctx::{scratch, Ctx, Src},
    elf::{self, text, Image, Seg, R, W, X},
    encvm::parser,
    report::{catch, parallel, Report},
    rng::Rng,
    rv::{self, decode, encode, Inst},
};
use compiler::Phantom;
use fhevm::{verif_hooks as h, Interpreter};
use poulpy_hal::api::ScratchOwnedBorrow;

const BASE: u32 = 0x40000;
const RAM: usize = 4096;

fn inst(ops: &[rv::Op], r: &mut Rng) -> u32 {
    let op = r.pick(ops);
    encode(&Inst {
        op,
        rd: if op.writes_rd() { r.below(32) } else { 0 },
        rs1: if op.reads_rs1() { r.below(32) } else { 0 },
        rs2: if op.reads_rs2() { r.below(32) } else { 0 },
        imm: rv::any_imm(op, r),
    })
}

/// Lengths around a capacity, as (length, fits).
fn lengths(cap: usize, r: &mut Rng) -> Vec<(usize, bool)> {
    let mut v = vec![(cap, true), (cap + 1, false), (cap + 1 + r.below(40) as usize, false), (1 + r.below(cap as u32) as usize, true)];
    v.push((cap * (2 + r.below(30) as usize), false));
    v.push((cap * 32 + 31, false));
    v.push((cap - 1, true));
    v
}

fn words(n: usize, r: &mut Rng) -> Vec<u32> {
    (0..n).map(|_| r.u32()).collect()
}

fn padded(v: &[u32], n: usize) -> Vec<u32> {
    let mut v = v.to_vec();
    v.resize(n, 0);
    v
}

/// An executable in parts that can be spoiled.
fn image(rom: &[u32], r: &mut Rng) -> Image {
    let data: Vec<u8> = (0..1 + r.below(RAM as u32)).map(|_| r.u32() as u8).collect();
    let n = data.len() as u32;
    let inp = 1 + r.below(n.min(64));
    Image {
        segs: vec![text(rom), Seg::load(R | W, BASE, data, n)],
        sections: vec![
            (".text".into(), 0, rom.len() as u32 * 4),
            (".inpdata".into(), BASE, inp),
            (".outdata".into(), BASE + r.below(n), 1),
        ],
        padding: r.below(20) as usize,
    }
}

fn interpreter(rep: &Report, th: bool) {
    let ctx = Ctx::fast(rep.seed, 14);
    let n = if th { 400 } else { 40 };
    let ph = rep.phase(60, 1200);
    let m_ops: Vec<rv::Op> = rv::RV32M.to_vec();
    parallel(8, n, |i| {
        if rep.failed() || ph.over(i, 16) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("d03/{i}"));
        let (rom, ram) = (1 + r.below([8, 40, 1100][i % 3]) as usize, 1 + r.below([8, 40, 1100][i / 3 % 3]) as usize);
        let debug = i % 2 == 1;
        let mut src = Src::new(rep.seed, 5000 + i as u64);
        let mut sc = scratch(1);
        let new = || if debug { Interpreter::<h::BE>::new_with_debug(&ctx.params, rom, ram) } else { Interpreter::<h::BE>::new(&ctx.params, rom, ram) };
        let verdict = |what: &str, fits: bool, len: usize, got: &Result<(), String>| -> bool {
            rep.eval(Some(&format!("{what}/{len}/{rom}/{ram}/{debug}")));
            rep.count(if fits { "accepted" } else { "refused" }, 1);
            rep.count(&format!("{}.{what}", if fits { "fits" } else { "excess" }), 1);
            match (fits, got) {
                (true, Err(e)) => {
                    rep.violation(&format!("{what}:rejected"), format!("{what} of length {len} fits (rom {rom}, ram {ram}, debug {debug}) but was refused: {e}"));
                    false
                }
                (false, Ok(())) => {
                    rep.violation(&format!("{what}:accepted"), format!("{what} of length {len} does not fit (rom {rom}, ram {ram}, debug {debug}) but was accepted"));
                    false
                }
                _ => true,
            }
        };
        // Programs by length.
        for (len, fits) in lengths(rom, &mut r).into_iter().filter(|l| l.0 > 0) {
            let w: Vec<u32> = (0..len).map(|_| inst(rv::RV32I, &mut r)).collect();
            let p = parser(&w);
            let mut vm = new();
            let got = catch(|| vm.instructions_encrypt_sk(ctx.module(), &p, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow()));
            if !verdict("program", fits, len, &got) {
                return;
            }
        }
        // Programs with one instruction the encrypted VM has no circuit for, in every position kind.
        for k in 0..8 {
            let len = 1 + r.below(rom as u32) as usize;
            let mut w: Vec<u32> = (0..len).map(|_| inst(rv::RV32I, &mut r)).collect();
            let at = [0, len - 1, r.below(len as u32) as usize][k % 3];
            w[at] = inst(&m_ops[(i + k) % m_ops.len()..][..1], &mut r);
            let p = parser(&w);
            let mut vm = new();
            let got = catch(|| vm.instructions_encrypt_sk(ctx.module(), &p, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow()));
            rep.count(&format!("multiply_divide.{:?}", decode(w[at]).unwrap().op), 1);
            if got.is_ok() {
                rep.violation("program:rv32m", format!("a program of {len} instructions with {:?} at {at} was accepted (rom {rom}, debug {debug})", decode(w[at]).unwrap()));
                return;
            }
            rep.eval(Some(&format!("rv32m/{}/{at}/{len}/{rom}", w[at])));
            rep.count("refused", 1);
        }
        // RAM and registers by length.
        for (what, cap) in [("ram", ram), ("registers", 32)] {
            for (len, fits) in lengths(cap, &mut r) {
                let d = words(len, &mut r);
                let mut vm = new();
                let got = catch(|| {
                    if what == "ram" {
                        vm.ram_encrypt_sk(ctx.module(), &d, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow())
                    } else {
                        vm.init_registers(ctx.module(), &d, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow())
                    }
                });
                if !verdict(what, fits, len, &got) {
                    return;
                }
                if fits {
                    let have = if what == "ram" {
                        let mut v = vec![0xDEAD_BEEF; ram];
                        match catch(|| vm.ram_decrypt(ctx.module(), &mut v, &ctx.sk, sc.borrow())) {
                            Ok(()) => v,
                            Err(e) => {
                                rep.violation("ram:panic", format!("decrypting RAM of {ram} words: {e}"));
                                return;
                            }
                        }
                    } else {
                        h::snapshot(&vm, ctx.module(), &ctx.sk, sc.borrow()).registers.to_vec()
                    };
                    rep.count("read_back", 1);
                    if have != padded(&d, cap) {
                        rep.violation(&format!("{what}:content"), format!("{what}: {len} values for {cap} places do not come back followed by zeros"));
                        return;
                    }
                }
            }
        }
        // Buffers for decryption.
        let mut vm = new();
        let d = words(ram, &mut r);
        if let Err(e) = catch(|| vm.ram_encrypt_sk(ctx.module(), &d, &ctx.sk, &mut src.xa, &mut src.xe, sc.borrow())) {
            rep.violation("ram:rejected", e);
            return;
        }
        for len in [ram + 1, 32 * ram] {
            let mut v = vec![0u32; len];
            let got = catch(|| vm.ram_decrypt(ctx.module(), &mut v, &ctx.sk, sc.borrow()));
            if !verdict("decrypt_buffer", false, len, &got) {
                return;
            }
        }
    });
}

fn loader(rep: &Report, th: bool) {
    let n = if th { 40_000 } else { 4_000 };
    let ph = rep.phase(30, 600);
    parallel(8, n, |i| {
        if rep.failed() || ph.over(i, 400) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("d03/elf/{i}"));
        let rom: Vec<u32> = (0..1 + r.below(30)).map(|_| inst(rv::RV32I, &mut r)).collect();
        let good = image(&rom, &mut r);
        let mut bad = good.clone();
        let what = match i % 8 {
            0 => {
                bad.segs.remove(0);
                "no text segment"
            }
            1 => {
                bad.segs[0].vaddr = 4 * (1 + r.below(1000));
                "text not at address 0"
            }
            2 => {
                bad.segs[0].memsz += 4 * (1 + r.below(10));
                "text larger in memory than in the file"
            }
            3 => {
                bad.sections.retain(|s| s.0 != ".inpdata");
                "no .inpdata section"
            }
            4 => {
                bad.sections.retain(|s| s.0 != ".outdata");
                "no .outdata section"
            }
            5 => {
                let s = &mut bad.segs[1];
                s.data.resize(RAM + 1 + r.below(300) as usize, 7);
                s.memsz = s.data.len() as u32;
                "data larger than RAM"
            }
            6 => {
                let at = BASE + RAM as u32 - r.below(20);
                let k = 20 + r.below(100) as usize;
                bad.segs.push(Seg::load(R, at, vec![9; k], k as u32));
                "data segment reaching past the end of RAM"
            }
            _ => {
                bad.segs[0].flags = r.pick(&[R, X, R | W | X, W | X]);
                "text segment not readable and executable only"
            }
        };
        let g = good.build();
        if let Err(e) = catch(|| {
            let _ = Phantom::from_elf(g);
        }) {
            rep.violation("load:rejected", format!("executable {i} is well formed but was refused: {e}"));
            return;
        }
        rep.count("accepted", 1);
        let b = bad.build();
        rep.eval(Some(&format!("elf/{i}")));
        rep.count("refused", 1);
        rep.count(&format!("elf: {what}"), 1);
        if catch(|| {
            let _ = Phantom::from_elf(b);
        })
        .is_ok()
        {
            rep.violation(&format!("load:{}", what.replace(' ', "_")), format!("executable {i} ({what}) was accepted"));
        }
        // Files cut short.
        if i % 16 == 0 {
            let g = good.build();
            let cut = [0, 10, 51, 52 + r.below(60) as usize, g.len() / 2, g.len() - 1 - r.below(30) as usize][i / 16 % 6];
            rep.count("refused", 1);
            rep.count("elf: cut short", 1);
            if catch(|| {
                let _ = Phantom::from_elf(g[..cut].to_vec());
            })
            .is_ok()
            {
                rep.violation("load:cut", format!("executable {i}: the first {cut} bytes were accepted as an executable"));
            }
        }
    });
    // Through the public interface the encrypted VM refuses what it has no circuit for; the plain VM runs it.
    let m_ops: Vec<rv::Op> = rv::RV32M.to_vec();
    for k in 0..m_ops.len() {
        if rep.failed() {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("d03/api/{k}"));
        let mut rom: Vec<u32> = (0..1 + r.below(20)).map(|_| 0x0010_0093).collect();
        rom.push(inst(&m_ops[k..][..1], &mut r));
        let bytes = elf::whole_ram(&rom, &vec![3u8; RAM], BASE);
        let p = Phantom::from_elf(bytes);
        rep.eval(Some(&format!("api/{:?}", m_ops[k])));
        rep.count("refused", 1);
        rep.count("public_refusals", 1);
        if catch(|| {
            let _ = p.encrypted_vm(&vec![0; RAM], 0);
        })
        .is_ok()
        {
            rep.violation("api:rv32m", format!("an encrypted VM was made for a program with {:?}", m_ops[k]));
        }
        if let Err(e) = catch(|| {
            let mut vm = p.test_vm(rom.len());
            vm.read_input_tape(&vec![0; RAM]);
            vm.execute();
        }) {
            rep.violation("api:plain", format!("the plain VM refused a program with {:?}: {e}", m_ops[k]));
        }
    }
}

pub fn d03(rep: &Report) {
    rep.rule("programs, RAM images and register files of lengths below, at and above the capacity, programs with one RV32M instruction, decryption buffers that are too long, and executables spoiled in one respect are offered; the oracle knows which of them fit. What fits must be accepted and read back (followed by zeros), everything else must be refused. A case is one offer.");
    let th = rep.thorough();
    interpreter(rep, th);
    loader(rep, th);
    rep.sample("program of rom+1 instructions: refused; rom instructions: accepted".into());
    rep.require("accepted", 200);
    rep.require("refused", 300);
    rep.require("read_back", 60);
    rep.require("public_refusals", 8);
}
