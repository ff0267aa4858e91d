//! T01-T03: the plaintext VM, the program loader and the input/output tapes.
use crate::{
    elf::{self, text, Image, Seg, R, W, X},
    progen::{choose, generate_full, initial_regs, Spec},
    report::{catch, parallel, Report},
    rng::Rng,
    rv::{encode, Machine, Op, RAM_BASE, RV32I, RV32M},
};
use compiler::Phantom;

const RAM_WORDS: usize = 1024;
const RAM_BYTES: usize = 4 * RAM_WORDS;

fn all_ops() -> Vec<Op> {
    RV32I.iter().chain(RV32M).copied().collect()
}

fn regs(rom: usize, r: &mut Rng) -> [u32; 32] {
    let mut x = initial_regs(rom, RAM_WORDS, RAM_BASE, r);
    // Operands where division is special.
    if r.chance(1, 2) {
        x[5] = 0;
        x[6] = 0x8000_0000;
        x[7] = u32::MAX;
    }
    x
}

pub fn t01(rep: &Report) {
    rep.rule("single steps of the plaintext VM from arbitrary pc, register and memory contents, every RV32IM operation, each followed by a comparison of pc, 32 registers and all of RAM with an independent reference; then whole random programs through the public run interface with random cycle limits. A case is one (instruction, operand values) step or one program.");
    let th = rep.thorough();
    let ops = all_ops();
    let images = if th { 120_000 } else { 16_000 };
    let ph = rep.phase(50, 1500);
    parallel(8, images, |i| {
        if rep.failed() || ph.over(i, 1500) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("t01/{i}"));
        let slots = [8usize, 64, 300, 1024, 5000][i % 5];
        let ram: Vec<u32> = (0..RAM_WORDS).map(|_| r.word()).collect();
        let mut m = Machine::new(vec![0x13; slots], &ram, RAM_BASE);
        m.x = regs(slots, &mut r);
        // One instruction per slot, each defined when executed from the same state.
        let n = slots.min(256);
        let mut at = vec![];
        for k in 0..n {
            let op = ops[(k + i) % ops.len()];
            let slot = if k == 0 { slots - 1 } else { r.below(slots as u32) as usize };
            m.pc = 4 * slot as u32;
            if let Some(inst) = choose(op, &m, &mut r) {
                m.rom[slot] = encode(&inst);
                at.push(slot);
            }
        }
        at.sort();
        at.dedup();
        let base_ram = m.ram.clone();
        let x0 = m.x;
        let image = elf::whole_ram(&m.rom, &base_ram, RAM_BASE);
        let Some(mut vm) = rep.guard("setup", "test_vm", || Phantom::from_elf(image.clone()).test_vm(1)) else { return };
        let mut keys = vec![];
        let mut per_op = vec![0u64; ops.len()];
        for slot in at {
            m.pc = 4 * slot as u32;
            m.x = x0;
            m.ram.copy_from_slice(&base_ram);
            let before = m.pc;
            let Ok(inst) = m.fetch() else { continue };
            let (a, b) = (m.x[inst.rs1 as usize], m.x[inst.rs2 as usize]);
            if m.step().is_err() {
                continue;
            }
            let what = || format!("pc={before:#x} {inst:?} rs1={a:#010x} rs2={b:#010x}");
            let r = catch(|| {
                vm.verif_set(before, &x0);
                vm.read_input_tape(&base_ram);
                vm.execute();
            });
            if let Err(e) = r {
                rep.violation(&format!("{}:panic", inst.op.name()), format!("{}: panicked: {e}", what()));
                return;
            }
            keys.push(crate::report::hash(&format!("{inst:?}/{a:x}/{b:x}")));
            per_op[ops.iter().position(|o| *o == inst.op).unwrap()] += 1;
            let bad = if vm.verif_pc() != m.pc {
                Some(format!("pc {:#x}, expected {:#x}", vm.verif_pc(), m.pc))
            } else if let Some(k) = (0..32).find(|k| vm.verif_registers()[*k] != m.x[*k]) {
                Some(format!("x{k} = {:#010x}, expected {:#010x}", vm.verif_registers()[k], m.x[k]))
            } else {
                vm.verif_ram()
                    .iter()
                    .zip(&m.ram)
                    .position(|(p, q)| p != q)
                    .map(|k| format!("RAM byte {k} = {:#04x}, expected {:#04x}", vm.verif_ram()[k], m.ram[k]))
            };
            if let Some(d) = bad {
                rep.violation(&format!("{}:value", inst.op.name()), format!("{}: {d}", what()));
                return;
            }
        }
        rep.evals(keys.len() as u64, keys.iter().copied());
        rep.count("steps", keys.len() as u64);
        for (o, n) in ops.iter().zip(per_op) {
            if n > 0 {
                rep.count(&format!("op.{}", o.name()), n);
            }
        }
    });
    // Whole programs, public interface only: tape in, run, tape out.
    let progs = if th { 60_000 } else { 6_000 };
    let ph = rep.phase(30, 900);
    parallel(8, progs, |i| {
        if rep.failed() || ph.over(i, 600) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("t01/prog/{i}"));
        let want = 1 + r.below(200) as usize;
        let case = generate_full(
            &Spec {
                rom_size: [16, 100, 777][i % 3],
                ram_size: RAM_WORDS,
                base: RAM_BASE,
                cycles: want,
                ops: &ops,
                zero_regs: true,
            },
            &mut r,
        );
        if case.cycles == 0 {
            return;
        }
        let mut m = case.machine();
        for _ in 0..case.cycles {
            m.step().expect("reference execution is fault-free");
        }
        let image = elf::whole_ram(&case.rom, &vec![0; RAM_BYTES], RAM_BASE);
        let input: Vec<u8> = case.ram.iter().flat_map(|w| w.to_le_bytes()).collect();
        let label = format!("program {i} of {} cycles", case.cycles);
        let Some((out, pc, x)) = rep.guard("program", &label, || {
            let mut vm = Phantom::from_elf(image).test_vm(case.cycles);
            vm.read_input_tape(&input);
            vm.execute();
            (vm.output_tape(), vm.verif_pc(), *vm.verif_registers())
        }) else {
            return;
        };
        rep.eval(Some(&format!("prog/{i}/{}", rep.seed)));
        rep.count("programs", 1);
        rep.count("program_cycles", case.cycles as u64);
        if out != m.ram || pc != m.pc || x != m.x {
            rep.violation(
                "program:state",
                format!("{label}: final pc {pc:#x} expected {:#x}; registers equal: {}; RAM equal: {}", m.pc, x == m.x, out == m.ram),
            );
        }
    });
    rep.sample(format!("{images} images of up to 256 steps, {progs} programs"));
    rep.require("steps", 100_000);
    rep.require("programs", 500);
    for o in &ops {
        rep.require(&format!("op.{}", o.name()), 500);
    }
}

pub struct Layout {
    pub image: Image,
    pub rom: Vec<u8>,
    pub ram: Vec<u8>,
    pub input: (usize, usize),
    pub output: (usize, usize),
}

/// A random executable as the linker script produces them: text at 0, data
/// segments in ascending order from the start of RAM, possibly ending in zero-initialised space.
pub fn layout(r: &mut Rng) -> Layout {
    let words = 1 + r.below(400);
    let rom: Vec<u32> = (0..words).map(|_| r.u32()).collect();
    let mut segs = vec![text(&rom)];
    let mut ram = vec![0u8; RAM_BYTES];
    let mut at = 0usize;
    let n = 1 + r.below(5);
    for k in 0..n {
        let room = RAM_BYTES - at;
        let mem = match r.below(6) {
            0 if k > 0 => 0,
            1 if k + 1 == n => room,
            _ => 1 + r.below((room as u32 / 2).max(1)) as usize,
        };
        let mem = mem.min(room);
        let file = match r.below(3) {
            0 => r.below(mem as u32 + 1) as usize,
            _ => mem,
        };
        let data: Vec<u8> = (0..file).map(|_| r.u32() as u8).collect();
        ram[at..at + file].copy_from_slice(&data);
        segs.push(Seg::load(if r.chance(1, 2) { R } else { R | W }, RAM_BASE + at as u32, data, mem as u32));
        at += mem;
        if r.chance(1, 2) {
            at = (at + 3) / 4 * 4;
        }
        if r.chance(1, 4) {
            at += 4 * r.below(16) as usize;
        }
        if at >= RAM_BYTES {
            break;
        }
    }
    // Headers the loader has to ignore.
    if r.chance(1, 2) {
        let k = r.below(segs.len() as u32 + 1) as usize;
        segs.insert(k, Seg { kind: 0x6474_e551, flags: r.pick(&[R, R | W, R | X]), vaddr: 0, data: vec![], memsz: 0 });
    }
    if r.chance(1, 3) {
        let k = r.below(segs.len() as u32 + 1) as usize;
        let d: Vec<u8> = (0..8).map(|_| 0xEE).collect();
        segs.insert(k, Seg { kind: 4, flags: r.pick(&[R, R | W, R | X]), vaddr: RAM_BASE + 8, data: d, memsz: 8 });
    }
    let tape = |r: &mut Rng| -> (usize, usize) {
        let s = 4 * r.below(RAM_WORDS as u32) as usize + if r.chance(1, 3) { r.below(4) as usize } else { 0 };
        let len = match r.below(5) {
            0 => 0,
            1 => RAM_BYTES - s,
            2 => 1 + r.below(9) as usize,
            _ => r.below(300) as usize,
        };
        (RAM_BASE as usize + s, len.min(RAM_BYTES - s))
    };
    let (input, output) = (tape(r), tape(r));
    let mut sections = vec![
        (".inpdata".to_string(), input.0 as u32, input.1 as u32),
        (".outdata".to_string(), output.0 as u32, output.1 as u32),
        (".text".to_string(), 0, 4 * words),
        (".rodata".to_string(), RAM_BASE + 12, 4),
        (".outdata2".to_string(), 0, 4),
    ];
    let k = sections.len();
    for j in (1..k).rev() {
        sections.swap(j, r.below(j as u32 + 1) as usize);
    }
    Layout {
        image: Image { segs, sections, padding: r.below(64) as usize },
        rom: rom.iter().flat_map(|w| w.to_le_bytes()).collect(),
        ram,
        input,
        output,
    }
}

pub fn t02(rep: &Report) {
    rep.rule("random executables (text at 0, one to five data segments from the start of RAM with gaps, zero-initialised tails, empty segments, foreign headers, any section order and file padding) are loaded; boot ROM, boot RAM byte for byte and the two tape windows are compared with the layout they were built from. A case is one executable.");
    let n = if rep.thorough() { 400_000 } else { 20_000 };
    let ph = rep.phase(60, 1500);
    parallel(8, n, |i| {
        if rep.failed() || ph.over(i, 6000) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("t02/{i}"));
        let l = layout(&mut r);
        let what = format!(
            "executable {i}: {} data segments {:?}, input {:#x}+{}, output {:#x}+{}",
            l.image.segs.len() - 1,
            l.image.segs.iter().skip(1).map(|s| (s.kind, s.flags, s.vaddr, s.data.len(), s.memsz)).collect::<Vec<_>>(),
            l.input.0,
            l.input.1,
            l.output.0,
            l.output.1
        );
        let bytes = l.image.build();
        let Some(p) = rep.guard("load", &what, || Phantom::from_elf(bytes)) else { return };
        rep.eval(Some(&what));
        rep.count("executables", 1);
        if l.image.segs.iter().any(|s| s.kind == 1 && !s.data.is_empty() && (s.memsz as usize) > s.data.len()) {
            rep.count("with_zero_tail_after_data", 1);
        }
        if l.image.segs.iter().any(|s| s.kind != 1) {
            rep.count("with_foreign_header", 1);
        }
        let fail = |sig: &str, d: String| rep.violation(sig, format!("{what}: {d}"));
        if *p.boot_rom().data() != l.rom || *p.boot_rom().size() != l.rom.len() || *p.boot_rom().offset() != 0 {
            fail("rom", "boot ROM differs from the text segment".into());
        }
        if *p.boot_ram().offset() != RAM_BASE as usize || *p.boot_ram().size() != RAM_BYTES {
            fail("ram:window", format!("RAM window {:#x}+{}", p.boot_ram().offset(), p.boot_ram().size()));
        }
        if *p.boot_ram().data() != l.ram {
            let k = p.boot_ram().data().iter().zip(&l.ram).position(|(a, b)| a != b);
            fail("ram:bytes", format!("boot RAM differs at byte {k:?}"));
        }
        if (*p.input_info().start_addr(), *p.input_info().size()) != l.input {
            fail("input", "input window differs".into());
        }
        if (*p.output_info().start_addr(), *p.output_info().size()) != l.output {
            fail("output", "output window differs".into());
        }
        if i < 3 {
            rep.sample(what.clone());
        }
    });
    rep.require("executables", 5_000);
    rep.require("with_zero_tail_after_data", 500);
}

/// An executable whose program is an endless loop, for tape checks.
fn idle(l: &mut Layout) {
    let rom = vec![0x0000_006Fu32; 2]; // jal x0, 0
    for s in l.image.segs.iter_mut() {
        if s.kind == 1 && s.flags == R | X {
            *s = text(&rom);
        }
    }
    l.rom = rom.iter().flat_map(|w| w.to_le_bytes()).collect();
}

fn overlay(l: &Layout, input: &[u8]) -> Vec<u8> {
    let mut ram = l.ram.clone();
    let s = l.input.0 - RAM_BASE as usize;
    ram[s..s + input.len()].copy_from_slice(input);
    ram
}

pub fn t03(rep: &Report) {
    rep.rule("for random executables and tapes the bytes given as input are found at the input window, nothing else of RAM changes, and the output tape is exactly the output window; wrong-length tapes are refused; the same executables are given to the encrypted VM (its RAM decrypted as a whole, and its output tape read). A case is one executable with one tape.");
    let th = rep.thorough();
    let n = if th { 200_000 } else { 15_000 };
    let ph = rep.phase(40, 900);
    parallel(8, n, |i| {
        if rep.failed() || ph.over(i, 2500) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("t03/{i}"));
        let mut l = layout(&mut r);
        idle(&mut l);
        let input: Vec<u8> = (0..l.input.1).map(|_| r.u32() as u8).collect();
        let cycles = r.below(3) as usize;
        let what = format!("executable {i}, {} input bytes, {cycles} cycles", input.len());
        let bytes = l.image.build();
        let Some(p) = rep.guard("load", &what, || Phantom::from_elf(bytes)) else { return };
        let Some((out, ram)) = rep.guard("plain", &what, || {
            let mut vm = p.test_vm(cycles);
            vm.read_input_tape(&input);
            vm.execute();
            (vm.output_tape(), vm.verif_ram().to_vec())
        }) else {
            return;
        };
        rep.eval(Some(&format!("{i}/{what}")));
        rep.count("plain_tapes", 1);
        let want = overlay(&l, &input);
        if ram != want {
            rep.violation("plain:ram", format!("{what}: RAM after reading the tape differs"));
        }
        let o = l.output.0 - RAM_BASE as usize;
        if out != want[o..o + l.output.1] {
            rep.violation("plain:output", format!("{what}: output tape differs from the output window"));
        }
        // A second VM from the same program starts fresh.
        if i % 4 == 0 {
            let input2: Vec<u8> = input.iter().map(|b| !b).collect();
            let again = catch(|| {
                let mut a = p.test_vm(cycles);
                let mut b = p.test_vm(cycles);
                a.read_input_tape(&input2);
                b.read_input_tape(&input);
                a.execute();
                b.execute();
                (a.verif_ram().to_vec(), b.verif_ram().to_vec())
            });
            rep.count("independent_vms", 1);
            match again {
                Ok((a, b)) if a == overlay(&l, &input2) && b == want => {}
                Ok(_) => rep.violation("plain:shared", format!("{what}: VMs of one program are not independent")),
                Err(e) => rep.violation("plain:panic", format!("{what}: {e}")),
            }
        }
        // Wrong lengths.
        let mut wrong = input.clone();
        if i % 2 == 0 || wrong.is_empty() {
            wrong.push(1);
        } else {
            wrong.pop();
        }
        rep.count("wrong_length_tapes", 1);
        if catch(|| p.test_vm(1).read_input_tape(&wrong)).is_ok() {
            rep.violation("plain:length", format!("{what}: a tape of {} bytes was accepted for a window of {}", wrong.len(), input.len()));
        }
    });
    // Encrypted VM.
    let ph = rep.phase(50, 1500);
    std::env::set_var("PHANTOM_THREADS", "8");
    for i in 0..if th { 60 } else { 12 } {
        if rep.failed() || ph.over(i, 1) {
            break;
        }
        let mut r = Rng::new(rep.seed, &format!("t03/enc/{i}"));
        let mut l = layout(&mut r);
        idle(&mut l);
        // First the whole of RAM comes back on the tape, then windows start and end anywhere.
        let any = |r: &mut Rng| {
            let s = 4 * r.below(900) as usize + 1 + r.below(3) as usize;
            (RAM_BASE as usize + s, 1 + r.below((RAM_BYTES - s) as u32) as usize)
        };
        match i % 4 {
            0 => l.output = (RAM_BASE as usize, RAM_BYTES),
            1 => l.output = any(&mut r),
            2 => l.input = any(&mut r),
            _ => {}
        }
        for s in l.image.sections.iter_mut() {
            match s.0.as_str() {
                ".outdata" => (s.1, s.2) = (l.output.0 as u32, l.output.1 as u32),
                ".inpdata" => (s.1, s.2) = (l.input.0 as u32, l.input.1 as u32),
                _ => {}
            }
        }
        let input: Vec<u8> = (0..l.input.1).map(|_| r.u32() as u8).collect();
        let what = format!("encrypted executable {i}, input {:#x}+{}, output {:#x}+{}", l.input.0, l.input.1, l.output.0, l.output.1);
        let bytes = l.image.build();
        let cycles = 0;
        let Some((out, rom_ok, ram)) = rep.guard("enc", &what, || {
            let p = Phantom::from_elf(bytes);
            let mut vm = p.encrypted_vm(&input, cycles);
            vm.execute();
            let out = vm.output_tape();
            let (params, sk, _, interp) = vm.verif_parts();
            let mut sc = crate::ctx::scratch(1);
            use poulpy_hal::api::ScratchOwnedBorrow;
            let s = fhevm::verif_hooks::snapshot(interp, params.module(), sk, sc.borrow());
            (out, s.pc == 0 && s.registers == [0u32; 32], s.ram)
        }) else {
            continue;
        };
        rep.eval(Some(&what));
        rep.count("encrypted_tapes", 1);
        rep.count("encrypted_ram_words", ram.len() as u64);
        let want = overlay(&l, &input);
        let have: Vec<u8> = ram.iter().flat_map(|w| w.to_le_bytes()).collect();
        if have != want {
            rep.violation("enc:ram", format!("{what}: decrypted RAM differs from the boot image with the tape"));
        }
        let o = l.output.0 - RAM_BASE as usize;
        if out != want[o..o + l.output.1] {
            rep.violation("enc:output", format!("{what}: output tape differs from the output window"));
        }
        if !rom_ok {
            rep.violation("enc:boot", format!("{what}: pc or registers not zero at boot"));
        }
        let mut wrong = input.clone();
        wrong.push(0);
        rep.count("wrong_length_tapes", 1);
        let bytes = l.image.build();
        if catch(|| {
            let _ = Phantom::from_elf(bytes).encrypted_vm(&wrong, 0);
        })
        .is_ok()
        {
            rep.violation("enc:length", format!("{what}: a tape one byte too long was accepted"));
        }
        rep.sample(what);
    }
    rep.require("plain_tapes", 2_000);
    rep.require("encrypted_tapes", 1);
}
