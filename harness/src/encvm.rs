//! Drives the real encrypted interpreter and compares its decrypted state with
//! the reference machine after every cycle.
use crate::{
    ctx::{scratch, Ctx, Src},
    progen::Case,
    report::{catch, Report},
    rv::{decode, Machine},
};
use fhevm::{
    instructions::{Instruction, InstructionsParser},
    verif_hooks::{self, Snapshot, BE},
    Interpreter,
};
use poulpy_hal::{api::ScratchOwnedBorrow, layouts::ScratchOwned};

pub fn parser(rom: &[u32]) -> InstructionsParser {
    let mut p = InstructionsParser::new();
    for w in rom {
        p.add(Instruction::new(*w));
    }
    p
}

pub struct EncVm<'a> {
    pub ctx: &'a Ctx,
    pub vm: Interpreter<BE>,
    pub sc: ScratchOwned<BE>,
}

impl<'a> EncVm<'a> {
    pub fn new(
        ctx: &'a Ctx,
        rom: &[u32],
        ram: &[u32],
        regs: Option<&[u32; 32]>,
        threads: usize,
        debug: bool,
        src: &mut Src,
    ) -> EncVm<'a> {
        let mut sc = scratch(threads);
        let mut vm = if debug {
            Interpreter::new_with_debug(&ctx.params, rom.len(), ram.len())
        } else {
            Interpreter::new(&ctx.params, rom.len(), ram.len())
        };
        vm.set_threads(threads);
        vm.instructions_encrypt_sk(
            ctx.module(),
            &parser(rom),
            &ctx.sk,
            &mut src.xa,
            &mut src.xe,
            sc.borrow(),
        );
        vm.ram_encrypt_sk(
            ctx.module(),
            ram,
            &ctx.sk,
            &mut src.xa,
            &mut src.xe,
            sc.borrow(),
        );
        if let Some(x) = regs {
            vm.init_registers(
                ctx.module(),
                x,
                &ctx.sk,
                &mut src.xa,
                &mut src.xe,
                sc.borrow(),
            );
        }
        EncVm { ctx, vm, sc }
    }
    pub fn cycle(&mut self) {
        self.vm
            .cycle(self.ctx.module(), &self.ctx.keys, self.sc.borrow());
    }
    pub fn cycle_debug(&mut self) {
        self.vm.cycle_debug(
            self.ctx.module(),
            &self.ctx.keys,
            &self.ctx.sk,
            self.sc.borrow(),
        );
    }
    pub fn snap(&mut self) -> Snapshot {
        verif_hooks::snapshot(&self.vm, self.ctx.module(), &self.ctx.sk, self.sc.borrow())
    }
}

/// First difference between decrypted state and reference, as (component, text).
pub fn diff(s: &Snapshot, m: &Machine) -> Option<(String, String)> {
    if s.pc != m.pc {
        return Some(("pc".into(), format!("pc {:#x}, expected {:#x}", s.pc, m.pc)));
    }
    for k in 0..32 {
        if s.registers[k] != m.x[k] {
            return Some((
                format!("{}", if k == 0 { "x0" } else { "reg" }),
                format!("x{k} = {:#010x}, expected {:#010x}", s.registers[k], m.x[k]),
            ));
        }
    }
    let want = m.ram_words();
    for k in 0..want.len() {
        if s.ram[k] != want[k] {
            return Some((
                "ram".into(),
                format!("ram word {k} = {:#010x}, expected {:#010x}", s.ram[k], want[k]),
            ));
        }
    }
    None
}

/// Runs a whole case; returns the number of cycles that agreed.
pub fn run_case(
    rep: &Report,
    ctx: &Ctx,
    case: &Case,
    threads: usize,
    debug: bool,
    src: &mut Src,
    label: &str,
) -> usize {
    let mut m = case.machine();
    let mut evm = match catch(|| {
        EncVm::new(ctx, &case.rom, &case.ram, Some(&case.regs), threads, debug, src)
    }) {
        Ok(v) => v,
        Err(e) => {
            rep.violation("setup:panic", format!("{label}: {e}"));
            return 0;
        }
    };
    for c in 0..case.cycles {
        let inst = m.fetch().expect("reference execution is fault-free");
        let at = m.pc;
        let (a, b) = (m.x[inst.rs1 as usize], m.x[inst.rs2 as usize]);
        m.step().expect("reference execution is fault-free");
        let what = format!(
            "{label} cycle {c} pc={at:#x} {:?} rs1={a:#010x} rs2={b:#010x} rom={} ram={} threads={threads}",
            inst,
            case.rom.len(),
            case.ram.len()
        );
        let r = catch(|| {
            if debug {
                evm.cycle_debug()
            } else {
                evm.cycle()
            }
        });
        if let Err(e) = r {
            rep.violation(&format!("{}:panic", inst.op.name()), format!("{what}: panicked: {e}"));
            return c;
        }
        let s = evm.snap();
        rep.count("cycles", 1);
        rep.count(&format!("op.{}", inst.op.name()), 1);
        rep.eval(Some(&format!(
            "{:?}/{a:x}/{b:x}/{at:x}/{}/{}",
            inst,
            case.rom.len(),
            case.ram.len()
        )));
        if inst.op.is_branch() {
            rep.count(if m.pc == at.wrapping_add(4) { "branch.fallthrough" } else { "branch.taken" }, 1);
        }
        if let Some((comp, d)) = diff(&s, &m) {
            rep.violation(&format!("{}:{comp}", inst.op.name()), format!("{what}: {d}"));
            return c;
        }
        if c == 0 {
            rep.sample(what);
        }
    }
    case.cycles
}

pub fn describe(rom: &[u32]) -> String {
    rom.iter()
        .map(|w| format!("{w:08x}={:?}", decode(*w).map(|i| i.op)))
        .collect::<Vec<_>>()
        .join(" ")
}
