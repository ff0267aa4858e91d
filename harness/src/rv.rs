//! Independent reference: RV32IM as written in the RISC-V unprivileged
//! specification. Shares no code with the system under test.
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[rustfmt::skip]
pub enum Op {
    Lui, Auipc, Jal, Jalr,
    Beq, Bne, Blt, Bge, Bltu, Bgeu,
    Lb, Lh, Lw, Lbu, Lhu, Sb, Sh, Sw,
    Addi, Slti, Sltiu, Xori, Ori, Andi, Slli, Srli, Srai,
    Add, Sub, Sll, Slt, Sltu, Xor, Srl, Sra, Or, And,
    Mul, Mulh, Mulhsu, Mulhu, Div, Divu, Rem, Remu,
}
use Op::*;

pub const RV32I: &[Op] = &[
    Lui, Auipc, Jal, Jalr, Beq, Bne, Blt, Bge, Bltu, Bgeu, Lb, Lh, Lw, Lbu, Lhu, Sb, Sh, Sw, Addi,
    Slti, Sltiu, Xori, Ori, Andi, Slli, Srli, Srai, Add, Sub, Sll, Slt, Sltu, Xor, Srl, Sra, Or,
    And,
];
pub const RV32M: &[Op] = &[Mul, Mulh, Mulhsu, Mulhu, Div, Divu, Rem, Remu];

impl Op {
    pub fn name(self) -> String {
        format!("{self:?}").to_uppercase()
    }
    pub fn is_branch(self) -> bool {
        matches!(self, Beq | Bne | Blt | Bge | Bltu | Bgeu)
    }
    pub fn is_load(self) -> bool {
        matches!(self, Lb | Lh | Lw | Lbu | Lhu)
    }
    pub fn is_store(self) -> bool {
        matches!(self, Sb | Sh | Sw)
    }
    pub fn is_jump(self) -> bool {
        matches!(self, Jal | Jalr)
    }
    pub fn is_shift_imm(self) -> bool {
        matches!(self, Slli | Srli | Srai)
    }
    pub fn is_r(self) -> bool {
        matches!(self, Add | Sub | Sll | Slt | Sltu | Xor | Srl | Sra | Or | And)
            || RV32M.contains(&self)
    }
    pub fn is_i_alu(self) -> bool {
        matches!(self, Addi | Slti | Sltiu | Xori | Ori | Andi) || self.is_shift_imm()
    }
    pub fn writes_rd(self) -> bool {
        !self.is_branch() && !self.is_store()
    }
    pub fn reads_rs1(self) -> bool {
        !matches!(self, Lui | Auipc | Jal)
    }
    pub fn reads_rs2(self) -> bool {
        self.is_r() || self.is_branch() || self.is_store()
    }
    pub fn width(self) -> u32 {
        match self {
            Lb | Lbu | Sb => 1,
            Lh | Lhu | Sh => 2,
            _ => 4,
        }
    }
}

/// A decoded instruction. `imm` is the architectural immediate (for LUI and
/// AUIPC already shifted left by 12; for shifts the shift amount).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Inst {
    pub op: Op,
    pub rd: u32,
    pub rs1: u32,
    pub rs2: u32,
    pub imm: u32,
}

fn sx(v: u32, bits: u32) -> u32 {
    (((v << (32 - bits)) as i32) >> (32 - bits)) as u32
}

pub fn decode(w: u32) -> Option<Inst> {
    let (rd, f3, rs1, rs2, f7) = (
        (w >> 7) & 31,
        (w >> 12) & 7,
        (w >> 15) & 31,
        (w >> 20) & 31,
        w >> 25,
    );
    let i_imm = sx(w >> 20, 12);
    let s_imm = sx((f7 << 5) | rd, 12);
    let b_imm = sx(
        ((w >> 31) << 12) | (((w >> 7) & 1) << 11) | (((w >> 25) & 0x3F) << 5) | (((w >> 8) & 0xF) << 1),
        13,
    );
    let j_imm = sx(
        ((w >> 31) << 20) | (((w >> 12) & 0xFF) << 12) | (((w >> 20) & 1) << 11) | (((w >> 21) & 0x3FF) << 1),
        21,
    );
    let u_imm = w & 0xFFFF_F000;
    let mk = |op, rd, rs1, rs2, imm| Some(Inst { op, rd, rs1, rs2, imm });
    match w & 0x7F {
        0x37 => mk(Lui, rd, 0, 0, u_imm),
        0x17 => mk(Auipc, rd, 0, 0, u_imm),
        0x6F => mk(Jal, rd, 0, 0, j_imm),
        0x67 if f3 == 0 => mk(Jalr, rd, rs1, 0, i_imm),
        0x63 => mk([Beq, Bne, Beq, Beq, Blt, Bge, Bltu, Bgeu][f3 as usize], 0, rs1, rs2, b_imm)
            .filter(|_| f3 != 2 && f3 != 3),
        0x03 => mk([Lb, Lh, Lw, Lb, Lbu, Lhu, Lb, Lb][f3 as usize], rd, rs1, 0, i_imm)
            .filter(|_| matches!(f3, 0 | 1 | 2 | 4 | 5)),
        0x23 => mk([Sb, Sh, Sw, Sb, Sb, Sb, Sb, Sb][f3 as usize], 0, rs1, rs2, s_imm)
            .filter(|_| f3 <= 2),
        0x13 => match (f3, f7) {
            (1, 0) => mk(Slli, rd, rs1, 0, rs2),
            (5, 0) => mk(Srli, rd, rs1, 0, rs2),
            (5, 0x20) => mk(Srai, rd, rs1, 0, rs2),
            (1, _) | (5, _) => None,
            _ => mk(
                [Addi, Addi, Slti, Sltiu, Xori, Addi, Ori, Andi][f3 as usize],
                rd,
                rs1,
                0,
                i_imm,
            ),
        },
        0x33 => {
            let op = match (f7, f3) {
                (0, 0) => Add,
                (0x20, 0) => Sub,
                (0, 1) => Sll,
                (0, 2) => Slt,
                (0, 3) => Sltu,
                (0, 4) => Xor,
                (0, 5) => Srl,
                (0x20, 5) => Sra,
                (0, 6) => Or,
                (0, 7) => And,
                (1, k) => RV32M[k as usize],
                _ => return None,
            };
            mk(op, rd, rs1, rs2, 0)
        }
        _ => None,
    }
}

pub fn encode(i: &Inst) -> u32 {
    let Inst { op, rd, rs1, rs2, imm } = *i;
    let r = |f7: u32, f3: u32, opc: u32| {
        (f7 << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | opc
    };
    let it = |f3: u32, opc: u32| ((imm & 0xFFF) << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | opc;
    let sh = |f7: u32, f3: u32| {
        (f7 << 25) | ((imm & 31) << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | 0x13
    };
    let st = |f3: u32| {
        (((imm >> 5) & 0x7F) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | ((imm & 31) << 7) | 0x23
    };
    let br = |f3: u32| {
        (((imm >> 12) & 1) << 31)
            | (((imm >> 5) & 0x3F) << 25)
            | (rs2 << 20)
            | (rs1 << 15)
            | (f3 << 12)
            | (((imm >> 1) & 0xF) << 8)
            | (((imm >> 11) & 1) << 7)
            | 0x63
    };
    match op {
        Lui => (imm & 0xFFFF_F000) | (rd << 7) | 0x37,
        Auipc => (imm & 0xFFFF_F000) | (rd << 7) | 0x17,
        Jal => {
            (((imm >> 20) & 1) << 31)
                | (((imm >> 1) & 0x3FF) << 21)
                | (((imm >> 11) & 1) << 20)
                | (((imm >> 12) & 0xFF) << 12)
                | (rd << 7)
                | 0x6F
        }
        Jalr => it(0, 0x67),
        Beq => br(0),
        Bne => br(1),
        Blt => br(4),
        Bge => br(5),
        Bltu => br(6),
        Bgeu => br(7),
        Lb => it(0, 3),
        Lh => it(1, 3),
        Lw => it(2, 3),
        Lbu => it(4, 3),
        Lhu => it(5, 3),
        Sb => st(0),
        Sh => st(1),
        Sw => st(2),
        Addi => it(0, 0x13),
        Slti => it(2, 0x13),
        Sltiu => it(3, 0x13),
        Xori => it(4, 0x13),
        Ori => it(6, 0x13),
        Andi => it(7, 0x13),
        Slli => sh(0, 1),
        Srli => sh(0, 5),
        Srai => sh(0x20, 5),
        Add => r(0, 0, 0x33),
        Sub => r(0x20, 0, 0x33),
        Sll => r(0, 1, 0x33),
        Slt => r(0, 2, 0x33),
        Sltu => r(0, 3, 0x33),
        Xor => r(0, 4, 0x33),
        Srl => r(0, 5, 0x33),
        Sra => r(0x20, 5, 0x33),
        Or => r(0, 6, 0x33),
        And => r(0, 7, 0x33),
        m => r(1, RV32M.iter().position(|x| *x == m).unwrap() as u32, 0x33),
    }
}

/// Result of a register-register or register-immediate operation (`b` = rs2 or immediate).
pub fn alu(op: Op, a: u32, b: u32) -> u32 {
    match op {
        Add | Addi => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Sll | Slli => ((a as u64) << (b & 31)) as u32,
        Slt | Slti => ((a as i32) < (b as i32)) as u32,
        Sltu | Sltiu => (a < b) as u32,
        Xor | Xori => a ^ b,
        Srl | Srli => ((a as u64) >> (b & 31)) as u32,
        Sra | Srai => ((a as i32 as i64) >> (b & 31)) as u32,
        Or | Ori => a | b,
        And | Andi => a & b,
        Mul => (a as u64).wrapping_mul(b as u64) as u32,
        Mulh => ((a as i32 as i128 * b as i32 as i128) >> 32) as u32,
        Mulhsu => ((a as i32 as i128 * b as i128) >> 32) as u32,
        Mulhu => ((a as u128 * b as u128) >> 32) as u32,
        Div if b == 0 => u32::MAX,
        Div => (a as i32 as i64 / b as i32 as i64) as u32,
        Divu if b == 0 => u32::MAX,
        Divu => a / b,
        Rem if b == 0 => a,
        Rem => (a as i32 as i64 % b as i32 as i64) as u32,
        Remu if b == 0 => a,
        Remu => a % b,
        _ => panic!("not an ALU operation"),
    }
}

pub fn taken(op: Op, a: u32, b: u32) -> bool {
    match op {
        Beq => a == b,
        Bne => a != b,
        Blt => (a as i32) < (b as i32),
        Bge => (a as i32) >= (b as i32),
        Bltu => a < b,
        Bgeu => a >= b,
        _ => panic!("not a branch"),
    }
}

/// Sign/zero extension of a loaded value whose low bits are `raw`.
pub fn load_ext(op: Op, raw: u32) -> u32 {
    match op {
        Lb => raw as u8 as i8 as i32 as u32,
        Lbu => raw as u8 as u32,
        Lh => raw as u16 as i16 as i32 as u32,
        Lhu => raw as u16 as u32,
        Lw => raw,
        _ => panic!("not a load"),
    }
}

pub const RAM_BASE: u32 = 1 << 18;

/// Reference machine: byte-addressed RAM starting at `base`.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Machine {
    pub pc: u32,
    pub x: [u32; 32],
    pub ram: Vec<u8>,
    pub base: u32,
    pub rom: Vec<u32>,
}

#[derive(Debug, PartialEq, Eq)]
pub enum Fault {
    Fetch,
    Decode,
    Misaligned,
    OutOfRange,
}

impl Machine {
    pub fn new(rom: Vec<u32>, ram_words: &[u32], base: u32) -> Machine {
        Machine {
            pc: 0,
            x: [0; 32],
            ram: ram_words.iter().flat_map(|w| w.to_le_bytes()).collect(),
            base,
            rom,
        }
    }
    pub fn ram_words(&self) -> Vec<u32> {
        self.ram
            .chunks_exact(4)
            .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
            .collect()
    }
    pub fn fetch(&self) -> Result<Inst, Fault> {
        if self.pc % 4 != 0 {
            return Err(Fault::Misaligned);
        }
        let w = *self.rom.get((self.pc / 4) as usize).ok_or(Fault::Fetch)?;
        decode(w).ok_or(Fault::Decode)
    }
    fn at(&self, addr: u32, width: u32) -> Result<usize, Fault> {
        if addr % width != 0 {
            return Err(Fault::Misaligned);
        }
        let off = addr.wrapping_sub(self.base) as usize;
        if off + width as usize > self.ram.len() {
            return Err(Fault::OutOfRange);
        }
        Ok(off)
    }
    /// One instruction; the machine is untouched when a fault is returned.
    pub fn step(&mut self) -> Result<Inst, Fault> {
        let i = self.fetch()?;
        let (a, b) = (self.x[i.rs1 as usize], self.x[i.rs2 as usize]);
        let mut next = self.pc.wrapping_add(4);
        let mut rd = None;
        match i.op {
            Lui => rd = Some(i.imm),
            Auipc => rd = Some(self.pc.wrapping_add(i.imm)),
            Jal => {
                rd = Some(next);
                next = self.pc.wrapping_add(i.imm);
            }
            Jalr => {
                rd = Some(next);
                next = a.wrapping_add(i.imm) & !1;
            }
            o if o.is_branch() => {
                if taken(o, a, b) {
                    next = self.pc.wrapping_add(i.imm);
                }
            }
            o if o.is_load() => {
                let off = self.at(a.wrapping_add(i.imm), o.width())?;
                let mut raw = 0;
                for k in 0..o.width() as usize {
                    raw |= (self.ram[off + k] as u32) << (8 * k);
                }
                rd = Some(load_ext(o, raw));
            }
            o if o.is_store() => {
                let off = self.at(a.wrapping_add(i.imm), o.width())?;
                for k in 0..o.width() as usize {
                    self.ram[off + k] = (b >> (8 * k)) as u8;
                }
            }
            o if o.is_i_alu() => rd = Some(alu(o, a, i.imm)),
            o => rd = Some(alu(o, a, b)),
        }
        if next % 4 != 0 {
            return Err(Fault::Misaligned);
        }
        if let Some(v) = rd {
            if i.rd != 0 {
                self.x[i.rd as usize] = v;
            }
        }
        self.pc = next;
        Ok(i)
    }
}

/// Random immediate that `op` can encode (alignment of control transfers excepted).
pub fn any_imm(op: Op, r: &mut Rng) -> u32 {
    let edge = r.chance(1, 3);
    match op {
        Lui | Auipc => {
            if edge {
                r.pick(&[0u32, 1, 0xFFFFF, 0x80000, 0x7FFFF]) << 12
            } else {
                r.u32() & 0xFFFF_F000
            }
        }
        Jal => {
            if edge {
                r.pick(&[0u32, 4, 0xFFFF_FFFC, 0xFFF0_0000, 0x000F_FFFC, 0x800, 0xFFFF_F800])
            } else {
                sx(r.u32() & 0x1F_FFFC, 21)
            }
        }
        o if o.is_branch() => {
            if edge {
                r.pick(&[0u32, 4, 0xFFFF_FFFC, 0xFFFF_F000, 0xFFC, 0x800, 0xFFFF_F800])
            } else {
                sx(r.u32() & 0x1FFC, 13)
            }
        }
        o if o.is_shift_imm() => r.below(32),
        o if o.is_r() => 0,
        _ => {
            if edge {
                r.pick(&[0u32, 1, 0xFFFF_FFFF, 0x7FF, 0xFFFF_F800, 4, 0x400])
            } else {
                sx(r.u32() & 0xFFF, 12)
            }
        }
    }
}
