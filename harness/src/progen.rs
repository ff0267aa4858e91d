//! Generates programs together with the fault-free reference execution they
//! must follow: instructions are chosen while the reference machine runs, so
//! every executed one has a defined outcome.
use crate::{
    rng::Rng,
    rv::{self, decode, encode, Inst, Machine, Op, RAM_BASE},
};

#[derive(Clone, Debug)]
pub struct Case {
    pub rom: Vec<u32>,
    pub ram: Vec<u32>,
    pub regs: [u32; 32],
    pub base: u32,
    pub cycles: usize,
    /// Operation executed in each cycle.
    pub trace: Vec<Op>,
}

impl Case {
    pub fn machine(&self) -> Machine {
        let mut m = Machine::new(self.rom.clone(), &self.ram, self.base);
        m.x = self.regs;
        m
    }
}

pub struct Spec<'a> {
    pub rom_size: usize,
    pub ram_size: usize,
    pub base: u32,
    pub cycles: usize,
    pub ops: &'a [Op],
    /// Start from zeroed registers and build values with code.
    pub zero_regs: bool,
}

fn imm12(v: i64) -> Option<u32> {
    (-2048..=2047).contains(&v).then_some(v as i32 as u32)
}

/// An instruction `op` whose execution in state `m` is defined and stays inside ROM and RAM.
pub fn choose(op: Op, m: &Machine, r: &mut Rng) -> Option<Inst> {
    let rom = m.rom.len() as u32;
    let rd = if r.chance(1, 12) { 0 } else { 1 + r.below(31) };
    let mut rs1 = r.below(32);
    let mut rs2 = if r.chance(1, 6) { rs1 } else { r.below(32) };
    let pc = m.pc;
    // A control transfer to a chosen slot (often the next one or a nearby one).
    let target = |r: &mut Rng| -> u32 {
        match r.below(3) {
            0 => (pc / 4 + 1 + r.below(4)).min(rom - 1) * 4,
            _ => r.below(rom) * 4,
        }
    };
    let mut imm = rv::any_imm(op, r);
    if op.is_branch() {
        let mut ok = false;
        for _ in 0..20 {
            let t = target(r) as i64 - pc as i64;
            if (-4096..=4094).contains(&t) {
                imm = t as i32 as u32;
                ok = true;
                break;
            }
        }
        // Half of the time look for operands that make the branch taken.
        if r.chance(1, 2) {
            for _ in 0..32 {
                if rv::taken(op, m.x[rs1 as usize], m.x[rs2 as usize]) {
                    break;
                }
                rs1 = r.below(32);
                rs2 = if r.chance(1, 3) { rs1 } else { r.below(32) };
            }
        }
        if !ok {
            return None;
        }
    } else if op == Op::Jal {
        imm = (target(r) as i64 - pc as i64) as i32 as u32;
        if !(-(1i64 << 20)..(1i64 << 20)).contains(&(imm as i32 as i64)) {
            return None;
        }
    } else if op == Op::Jalr {
        let cands: Vec<u32> = (0..32)
            .filter(|k| {
                let v = m.x[*k as usize] as i64;
                v < 4 * rom as i64 + 2048 || v > u32::MAX as i64 - 2048
            })
            .collect();
        let mut found = false;
        for _ in 0..40 {
            rs1 = r.pick(&cands);
            let t = target(r) | r.below(2); // the low bit is discarded
            if let Some(i) = imm12(t.wrapping_sub(m.x[rs1 as usize]) as i32 as i64) {
                imm = i;
                found = true;
                break;
            }
        }
        if !found {
            return None;
        }
    } else if op.is_load() || op.is_store() {
        let len = m.ram.len() as u32;
        let w = op.width();
        let mut found = false;
        for _ in 0..200 {
            rs1 = r.below(32);
            let v = m.x[rs1 as usize];
            let a = match r.below(4) {
                0 => m.base + r.below(len.min(16)),
                1 => m.base + len - 1 - r.below(len.min(16)),
                2 => v.wrapping_add(r.range(-2048, 2047) as u32),
                _ => m.base + r.below(len),
            };
            let a = a / w * w;
            if a < m.base || a - m.base + w > len {
                continue;
            }
            if let Some(i) = imm12(a.wrapping_sub(v) as i32 as i64) {
                imm = i;
                found = true;
                break;
            }
        }
        if !found {
            return None;
        }
    }
    let i = Inst {
        op,
        rd: if op.writes_rd() { rd } else { 0 },
        rs1: if op.reads_rs1() { rs1 } else { 0 },
        rs2: if op.reads_rs2() { rs2 } else { 0 },
        imm,
    };
    debug_assert_eq!(decode(encode(&i)), Some(i));
    Some(i)
}

pub fn initial_regs(rom: usize, ram: usize, base: u32, r: &mut Rng) -> [u32; 32] {
    let mut x = [0u32; 32];
    for k in 1..32 {
        x[k] = match r.below(10) {
            0..=2 => base.wrapping_add(r.below(4 * ram as u32)),
            3 => base.wrapping_sub(r.below(1024)),
            4 => r.below(4 * rom as u32) & !3,
            5 if k > 1 => {
                let p = x[k - 1];
                r.related(p)
            }
            _ => r.word(),
        };
    }
    // At least one pointer and one code address.
    x[2] = base + 4 * (ram as u32 / 2);
    x[1] = r.below(rom as u32) * 4;
    x
}

pub fn generate(s: &Spec, r: &mut Rng) -> Case {
    generate_with(s, &[], r)
}

/// As `generate`, with the first instructions given.
pub fn generate_with(s: &Spec, prefix: &[u32], r: &mut Rng) -> Case {
    let mut slots: Vec<Option<u32>> = vec![None; s.rom_size];
    let ram: Vec<u32> = (0..s.ram_size).map(|_| r.word()).collect();
    let regs = if s.zero_regs {
        [0; 32]
    } else {
        initial_regs(s.rom_size, s.ram_size, s.base, r)
    };
    let mut m = Machine::new(vec![0x13; s.rom_size], &ram, s.base);
    m.x = regs;
    for (k, w) in prefix.iter().enumerate() {
        slots[k] = Some(*w);
        m.rom[k] = *w;
    }
    let mut queue: Vec<Op> = vec![];
    let mut trace = vec![];
    while trace.len() < s.cycles {
        let k = (m.pc / 4) as usize;
        if k >= s.rom_size {
            break;
        }
        if slots[k].is_none() {
            let mut chosen = None;
            for attempt in 0..64 {
                if queue.is_empty() {
                    queue = s.ops.to_vec();
                    for j in (1..queue.len()).rev() {
                        queue.swap(j, r.below(j as u32 + 1) as usize);
                    }
                }
                // The last slot cannot fall through.
                let op = if k + 1 == s.rom_size { Op::Jal } else { queue.pop().unwrap() };
                if let Some(i) = choose(op, &m, r) {
                    let mut t = m.clone();
                    t.rom[k] = encode(&i);
                    if t.step().is_ok() && (t.pc / 4) < s.rom_size as u32 {
                        // Mostly go on to slots that are still free: a closed loop repeats itself.
                        if slots[t.pc as usize / 4].is_some() && attempt < 40 && !r.chance(1, 8) {
                            continue;
                        }
                        chosen = Some(encode(&i));
                        break;
                    }
                }
            }
            match chosen {
                Some(w) => {
                    slots[k] = Some(w);
                    m.rom[k] = w;
                }
                None => break,
            }
        }
        let before = m.clone();
        match m.step() {
            Ok(i) if (m.pc / 4) < s.rom_size as u32 => trace.push(i.op),
            _ => {
                m = before;
                break;
            }
        }
    }
    for (k, slot) in slots.iter().enumerate() {
        m.rom[k] = slot.unwrap_or_else(|| {
            let op = r.pick(s.ops);
            encode(&Inst {
                op,
                rd: if op.writes_rd() { r.below(32) } else { 0 },
                rs1: if op.reads_rs1() { r.below(32) } else { 0 },
                rs2: if op.reads_rs2() { r.below(32) } else { 0 },
                imm: rv::any_imm(op, r),
            })
        });
    }
    Case {
        rom: m.rom.clone(),
        ram,
        regs,
        base: s.base,
        cycles: trace.len(),
        trace,
    }
}

/// Like `generate`, retried until the reference runs the requested number of cycles.
pub fn generate_full(s: &Spec, r: &mut Rng) -> Case {
    let mut best = generate(s, r);
    for _ in 0..50 {
        if best.cycles >= s.cycles {
            break;
        }
        let c = generate(s, r);
        if c.cycles > best.cycles {
            best = c;
        }
    }
    best
}

pub fn default_base() -> u32 {
    RAM_BASE
}
