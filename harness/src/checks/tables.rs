//! E05/E06: the generated decision diagrams and their homomorphic evaluation.
use crate::{
    ctx::{dec, enc_prep, scratch, Ctx, Src},
    report::{parallel, Report},
    rng::Rng,
    rv::{self, Op},
};
use fhevm::verif_hooks as h;
use poulpy_hal::api::ScratchOwnedBorrow;
use poulpy_schemes::bin_fhe::bdd_arithmetic::{GetBitCircuitInfo, Node};
use std::collections::HashMap;

type Bits = [u64; 3]; // up to 192 input bits

fn bit(b: &Bits, i: usize) -> bool {
    (b[i / 64] >> (i % 64)) & 1 == 1
}
fn set(b: &mut Bits, i: usize, v: bool) {
    if v {
        b[i / 64] |= 1 << (i % 64)
    } else {
        b[i / 64] &= !(1 << (i % 64))
    }
}
fn put(b: &mut Bits, at: usize, len: usize, v: u32) {
    for k in 0..len {
        set(b, at + k, (v >> k) & 1 == 1);
    }
}
fn get(b: &Bits, at: usize, len: usize) -> u32 {
    (0..len).fold(0, |a, k| a | (bit(b, at + k) as u32) << k)
}

/// One output bit of a table: the same evaluation order as the homomorphic
/// evaluator (two alternating level buffers), followed from the output down.
struct Bdd<'a> {
    nodes: &'a [Node],
    w: usize,
}
impl<'a> Bdd<'a> {
    fn levels(&self) -> usize {
        if self.w == 0 {
            0
        } else {
            self.nodes.len() / self.w
        }
    }
    /// Value of the slot `j` after level `l` (0 = initial), `None` when ill-formed.
    fn eval(&self, b: &Bits, mut seen: impl FnMut(usize, bool)) -> Result<bool, String> {
        if self.w == 0 {
            return Ok(false);
        }
        let n = self.levels() as isize;
        let mut l = n;
        let mut j = 0usize;
        loop {
            if l == 0 {
                return Ok(j == 1);
            }
            if l < 0 {
                return Ok(false);
            }
            let k = (l as usize - 1) * self.w + j;
            match &self.nodes[k] {
                Node::Cmux(i, hi, lo) => {
                    let s = bit(b, *i);
                    seen(k, s);
                    j = if s { *hi } else { *lo };
                    if j >= self.w {
                        // the evaluator would index outside the level
                        return Err(format!("node {k} refers to slot {j} of {}", self.w));
                    }
                    l -= 1;
                }
                Node::Copy => l -= 1,
                Node::None => {
                    if l == n {
                        return Err("output slot undefined".into());
                    }
                    l -= 2;
                }
            }
        }
    }
    /// Predecessors (level+slot, value the selector must take) that reach each node.
    fn parents(&self) -> Vec<Vec<(usize, Option<(usize, bool)>)>> {
        let mut p = vec![vec![]; self.nodes.len()];
        if self.w == 0 {
            return p;
        }
        let n = self.levels();
        let mut reach = vec![false; self.nodes.len()];
        reach[(n - 1) * self.w] = true;
        for l in (1..=n).rev() {
            for j in 0..self.w {
                let k = (l - 1) * self.w + j;
                if !reach[k] {
                    continue;
                }
                let mut add = |lv: isize, s: usize, c: Option<(usize, bool)>| {
                    if lv >= 1 && s < self.w {
                        let t = (lv as usize - 1) * self.w + s;
                        reach[t] = true;
                        p[t].push((k, c));
                    }
                };
                match &self.nodes[k] {
                    Node::Cmux(i, hi, lo) => {
                        add(l as isize - 1, *hi, Some((*i, true)));
                        add(l as isize - 1, *lo, Some((*i, false)));
                    }
                    Node::Copy => add(l as isize - 1, j, None),
                    Node::None => add(l as isize - 2, j, None),
                }
            }
        }
        p
    }
}

/// A table under test: input layout, reference, and which inputs are meaningful.
struct Table<'a> {
    name: &'static str,
    circ: &'a dyn GetBitCircuitInfo,
    /// Turns raw input bits into a meaningful input or rejects them.
    reference: Box<dyn Fn(&Bits) -> Option<u32> + Sync + 'a>,
    random: Box<dyn Fn(&mut Rng) -> Bits + Sync + 'a>,
    show: Box<dyn Fn(&Bits) -> String + Sync + 'a>,
    /// Both input words are the same value.
    mirror: bool,
}

fn run_table(rep: &Report, t: &Table, per_edge: usize, bulk: usize) {
    let bits = t.circ.output_size();
    if bits > 32 {
        rep.violation(&format!("{}:shape", t.name), format!("{bits} output bits"));
        return;
    }
    // Pointwise comparison on all output bits.
    let jobs = 32usize;
    parallel(8, jobs, |job| {
        let mut r = Rng::new(rep.seed, &format!("{}/bulk/{job}", t.name));
        let bdds: Vec<Bdd> = (0..bits).map(|k| { let (nodes, w) = t.circ.get_circuit(k); Bdd { nodes, w } }).collect();
        let mut n = 0u64;
        let mut keys = vec![];
        for q in 0..bulk / jobs {
            let b = (t.random)(&mut r);
            let Some(want) = (t.reference)(&b) else { continue };
            let mut have = 0u32;
            for (k, d) in bdds.iter().enumerate() {
                match d.eval(&b, |_, _| {}) {
                    Ok(v) => have |= (v as u32) << k,
                    Err(e) => {
                        rep.violation(&format!("{}:shape", t.name), format!("output bit {k}: {e}"));
                        return;
                    }
                }
            }
            n += 1;
            if q % 64 == 0 {
                keys.push(r.next());
            }
            if have != want {
                rep.violation(
                    &format!("{}:value", t.name),
                    format!("{} = {have:#010x}, expected {want:#010x}", (t.show)(&b)),
                );
                return;
            }
        }
        rep.evals(n, keys);
        rep.count(&format!("{}.inputs", t.name), n);
    });
    if rep.failed() {
        return;
    }
    // Inputs steered through every decision edge of every output bit.
    let hits_wanted = if rep.thorough() { 2000 } else { 120 };
    let prep: Vec<_> = (0..bits)
        .map(|ob| {
            let (nodes, w) = t.circ.get_circuit(ob);
            let d = Bdd { nodes, w };
            let p = d.parents();
            (d, p)
        })
        .collect();
    let mut work: Vec<(usize, usize)> = vec![];
    for (ob, (d, parents)) in prep.iter().enumerate() {
        if d.w == 0 {
            continue;
        }
        let out = (d.levels() - 1) * d.w;
        for k in 0..d.nodes.len() {
            // (others are not reachable from the output)
            if matches!(d.nodes[k], Node::Cmux(..)) && (k == out || !parents[k].is_empty()) {
                work.push((ob, k));
            }
        }
    }
    let chunk = 64;
    parallel(8, work.len().div_ceil(chunk), |job| {
        let mut r = Rng::new(rep.seed, &format!("{}/edge/{job}", t.name));
        let (mut covered, mut total, mut evals) = (0u64, 0u64, 0u64);
        for (ob, k) in work.iter().skip(job * chunk).take(chunk).copied() {
            let (d, parents) = &prep[ob];
            let out = (d.levels() - 1) * d.w;
            let Node::Cmux(i, _, _) = &d.nodes[k] else { continue };
            for side in [false, true] {
                total += 1;
                let mut hit = 0;
                for att in 0..per_edge {
                    if hit >= hits_wanted {
                        break;
                    }
                    // Random path from this node up to the output.
                    let (mut mask, mut val): (Bits, Bits) = ([0; 3], [0; 3]);
                    set(&mut mask, *i, true);
                    set(&mut val, *i, side);
                    let mut cur = k;
                    let mut ok = true;
                    while cur != out {
                        let (p, c) = parents[cur][r.below(parents[cur].len() as u32) as usize];
                        if let Some((ix, v)) = c {
                            if bit(&mask, ix) && bit(&val, ix) != v {
                                ok = false;
                                break;
                            }
                            set(&mut mask, ix, true);
                            set(&mut val, ix, v);
                        }
                        cur = p;
                    }
                    if !ok {
                        continue;
                    }
                    let mut b = if att % 2 == 0 { (t.random)(&mut r) } else { [r.next(), r.next(), r.next()] };
                    if t.mirror {
                        let v = get(&b, 0, 32);
                        put(&mut b, 32, 32, v);
                        mask[0] |= mask[0].rotate_left(32);
                        val[0] |= val[0].rotate_left(32);
                    }
                    for q in 0..3 {
                        b[q] = (b[q] & !mask[q]) | (val[q] & mask[q]);
                    }
                    let Some(want) = (t.reference)(&b) else { continue };
                    let want = (want >> ob) & 1 == 1;
                    let mut visited = false;
                    match d.eval(&b, |n, s| visited |= n == k && s == side) {
                        Ok(v) => {
                            evals += 1;
                            hit += visited as u32;
                            if v != want {
                                rep.violation(
                                    &format!("{}:value", t.name),
                                    format!("{}: output bit {ob} = {}, expected {} (through node {k})", (t.show)(&b), v as u8, want as u8),
                                );
                                return;
                            }
                        }
                        Err(e) => {
                            rep.violation(&format!("{}:shape", t.name), format!("output bit {ob}: {e}"));
                            return;
                        }
                    }
                }
                covered += (hit > 0) as u64;
            }
        }
        rep.evals(evals, (0..covered).map(|c| ((job as u64) << 32 | c) ^ t.name.len() as u64 * 0x9E37_79B9_7F4A_7C15));
        rep.count(&format!("{}.edges", t.name), total);
        rep.count(&format!("{}.edges_driven", t.name), covered);
    });
}

fn two_word<'a>(name: &'static str, circ: &'a dyn GetBitCircuitInfo, f: impl Fn(u32, u32) -> u32 + Sync + 'a, imm_second: bool) -> Table<'a> {
    Table {
        name,
        circ,
        reference: Box::new(move |b| Some(f(get(b, 0, 32), get(b, 32, 32)))),
        random: Box::new(move |r| {
            let mut b = [0; 3];
            let a = r.word();
            put(&mut b, 0, 32, a);
            let c = if imm_second && r.chance(1, 2) { (r.range(-2048, 2047)) as u32 } else { r.related(a) };
            put(&mut b, 32, 32, c);
            b
        }),
        show: Box::new(move |b| format!("{name}({:#010x}, {:#010x})", get(b, 0, 32), get(b, 32, 32))),
        mirror: false,
    }
}

fn op_of(name: &str) -> Option<Op> {
    rv::RV32I.iter().copied().find(|o| o.name() == name)
}

pub fn next_pc(op: Option<Op>, rs1: u32, rs2: u32, pc: u32, imm: u32) -> u32 {
    match op {
        None => pc.wrapping_add(4),
        Some(Op::Jal) => pc.wrapping_add(imm),
        Some(Op::Jalr) => rs1.wrapping_add(imm) & !1,
        Some(o) => {
            if rv::taken(o, rs1, rs2) {
                pc.wrapping_add(imm)
            } else {
                pc.wrapping_add(4)
            }
        }
    }
}

fn sx20(v: u32) -> u32 {
    ((v << 12) as i32 >> 12) as u32
}

pub fn e05(rep: &Report) {
    rep.rule("the next-pc decision diagrams are executed in the clear exactly as the homomorphic evaluator walks them: structured random operands on all 32 output bits, then inputs steered through every decision edge of every diagram; a sample is evaluated homomorphically (several thread counts) and decrypted. A case is one input (or one driven edge).");
    let th = rep.thorough();
    let ops: HashMap<u32, Option<Op>> = h::pc_ops().into_iter().map(|(id, n)| (id, op_of(&n))).collect();
    let ids: Vec<u32> = {
        let mut v: Vec<u32> = ops.keys().copied().collect();
        v.sort();
        v
    };
    let circuits: HashMap<_, _> = h::circuits().into_iter().collect();
    let t = Table {
        name: "pc_update",
        circ: circuits["pc_update"],
        reference: Box::new(|b| {
            let op = ops.get(&get(b, 0, 4))?;
            Some(next_pc(*op, get(b, 4, 32), get(b, 36, 32), get(b, 68, 32), sx20(get(b, 100, 20))))
        }),
        random: Box::new(|r| {
            let mut b = [0; 3];
            put(&mut b, 0, 4, r.pick(&ids));
            let a = r.word();
            put(&mut b, 4, 32, a);
            let c = r.related(a);
            put(&mut b, 36, 32, c);
            let pc = if r.chance(1, 2) { r.u32() & 0x3FFFC } else { r.word() };
            put(&mut b, 68, 32, pc);
            let imm = match r.below(4) {
                0 => r.u32(),
                1 => r.range(-4096, 4094) as u32,
                2 => r.word(),
                _ => r.range(-524288, 524287) as u32,
            };
            put(&mut b, 100, 20, imm);
            b
        }),
        show: Box::new(|b| {
            format!(
                "op {:?} rs1={:#010x} rs2={:#010x} pc={:#010x} imm={:#010x}",
                ops.get(&get(b, 0, 4)),
                get(b, 4, 32),
                get(b, 36, 32),
                get(b, 68, 32),
                sx20(get(b, 100, 20))
            )
        }),
        mirror: false,
    };
    // The clear-text model of the same step.
    let mut r = Rng::new(rep.seed, "e05/plain");
    for _ in 0..if th { 2_000_000 } else { 200_000 } {
        let b = (t.random)(&mut r);
        let want = (t.reference)(&b).unwrap();
        let have = h::pc_eval_plain(get(&b, 0, 4), sx20(get(&b, 100, 20)), get(&b, 4, 32), get(&b, 36, 32), get(&b, 68, 32));
        rep.count("plain.inputs", 1);
        if have != want {
            rep.violation("plain:value", format!("{} = {have:#010x}, expected {want:#010x}", (t.show)(&b)));
            break;
        }
    }
    run_table(rep, &t, if th { 20000 } else { 3000 }, if th { 40_000_000 } else { 4_000_000 });
    rep.sample((t.show)(&(t.random)(&mut r)));
    if rep.failed() {
        return;
    }
    // Homomorphic evaluation.
    let ctx = Ctx::fast(rep.seed, 14);
    let n = if th { 900 } else { 120 };
    let ph = rep.phase(60, 2400);
    parallel(8, n, |k| {
        if ph.over(k, 18) || rep.failed() {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e05/enc/{k}"));
        let mut src = Src::new(rep.seed, k as u64);
        let threads = [1usize, 1, 2, 3, 5, 8, 1, 32, 7, 1, 6, 11, 33][k % 13];
        let mut sc = scratch(threads.max(2));
        let mut b = (t.random)(&mut r);
        put(&mut b, 0, 4, ids[k % ids.len()]);
        let want = (t.reference)(&b).unwrap();
        // The operation register may carry set bits above the four that are read.
        let op = enc_prep(&ctx, get(&b, 0, 4), &mut src, &mut sc);
        let rs1 = enc_prep(&ctx, get(&b, 4, 32), &mut src, &mut sc);
        let rs2 = enc_prep(&ctx, get(&b, 36, 32), &mut src, &mut sc);
        let pc = enc_prep(&ctx, get(&b, 68, 32), &mut src, &mut sc);
        let imm = enc_prep(&ctx, sx20(get(&b, 100, 20)), &mut src, &mut sc);
        let mut res = ctx.ct();
        if rep
            .guard("enc", &(t.show)(&b), || {
                h::pc_update_enc(threads, ctx.module(), &mut res, &rs1, &rs2, &pc, &imm, &op, &ctx.keys, sc.borrow())
            })
            .is_none()
        {
            return;
        }
        let have = dec(&ctx, &res, &mut sc);
        rep.count("enc.inputs", 1);
        rep.count(&format!("enc.threads.{threads}"), 1);
        rep.eval(Some(&(t.show)(&b)));
        if have != want {
            rep.violation("enc:value", format!("{} threads={threads}: {have:#010x}, expected {want:#010x}", (t.show)(&b)));
        }
    });
    // A jump beyond half a mebibyte: JAL has 21-bit offsets.
    if let Some((&id, _)) = ops.iter().find(|(_, o)| **o == Some(Op::Jal)) {
        let mut src = Src::new(rep.seed, 990_000);
        let mut sc = scratch(2);
        let mut go = |pc: u32, imm: u32| {
            let e: Vec<_> = [0, 0, pc, imm, id].iter().map(|v| enc_prep(&ctx, *v, &mut src, &mut sc)).collect();
            let mut res = ctx.ct();
            h::pc_update_enc(2, ctx.module(), &mut res, &e[0], &e[1], &e[2], &e[3], &e[4], &ctx.keys, sc.borrow());
            rep.eval(Some(&format!("JAL pc={pc:#x} imm={imm:#x}")));
            rep.count("far_jumps", 1);
            dec(&ctx, &res, &mut sc)
        };
        // (the last two are within reach)
        for (pc, imm) in [(0u32, 0x8_0000u32), (0, 0x7_FFFC), (0xC_0000, 0xFFF8_0000)] {
            let (have, want) = (go(pc, imm), pc.wrapping_add(imm));
            if have != want {
                let sig = if (imm as i32) >= 0x8_0000 { "jal:imm21" } else { "enc:value" };
                rep.violation(sig, format!("JAL pc={pc:#x} imm={imm:#x}: {have:#010x}, expected {want:#010x}"));
            }
        }
    }
    rep.require("pc_update.inputs", 1_000_000);
    rep.require("pc_update.edges_driven", 1000);
    rep.require("enc.inputs", 12);
}

pub fn e06(rep: &Report) {
    rep.rule("the effective-address, upper-immediate, pc-relative and link-address diagrams are executed in the clear over structured random operands and inputs steered through every decision edge, and a sample is evaluated homomorphically and decrypted. A case is one input (or one driven edge).");
    let th = rep.thorough();
    let c: HashMap<_, _> = h::circuits().into_iter().collect();
    let tables = [
        two_word("ram_offset", c["ram_offset"], |a, b| a.wrapping_add(b).wrapping_sub(1 << 18), true),
        two_word("auipc", c["auipc"], |pc, imm| pc.wrapping_add(imm << 12), false),
        two_word("jalr", c["jalr"], |pc, _| pc.wrapping_add(4), false),
        two_word("lui", c["lui"], |_, imm| imm << 12, false),
    ];
    for t in &tables {
        // The unit feeds LUI its immediate twice.
        if t.name == "lui" {
            let dup = Table {
                name: "lui",
                circ: t.circ,
                reference: Box::new(|b| (get(b, 0, 32) == get(b, 32, 32)).then(|| get(b, 0, 32) << 12)),
                random: Box::new(|r| {
                    let mut b = [0; 3];
                    let v = if r.chance(1, 2) { r.u32() & 0xFFFFF } else { r.word() };
                    put(&mut b, 0, 32, v);
                    put(&mut b, 32, 32, v);
                    b
                }),
                show: Box::new(|b| format!("lui({:#010x})", get(b, 0, 32))),
                mirror: true,
            };
            run_table(rep, &dup, 400, 400_000);
            continue;
        }
        if t.name == "jalr" {
            let dup = Table {
                name: "link",
                circ: t.circ,
                reference: Box::new(|b| {
                    let mut c = *b;
                    let pc = get(b, 0, 32);
                    put(&mut c, 32, 32, pc);
                    (c == *b || get(b, 32, 32) == pc).then(|| pc.wrapping_add(4))
                }),
                random: Box::new(|r| {
                    let mut b = [0; 3];
                    let v = match r.below(3) {
                        0 => (1u32 << r.below(32)).wrapping_sub(4),
                        _ => r.word(),
                    };
                    put(&mut b, 0, 32, v);
                    put(&mut b, 32, 32, v);
                    b
                }),
                show: Box::new(|b| format!("link({:#010x})", get(b, 0, 32))),
                mirror: true,
            };
            run_table(rep, &dup, 400, 1_000_000);
            continue;
        }
        run_table(rep, t, if th { 8000 } else { 1500 }, if th { 20_000_000 } else { 4_000_000 });
        let mut r = Rng::new(rep.seed, t.name);
        rep.sample((t.show)(&(t.random)(&mut r)));
    }
    if rep.failed() {
        return;
    }
    let ctx = Ctx::fast(rep.seed, 14);
    let rd: HashMap<String, u32> = h::rd_ops(false).into_iter().map(|(i, n)| (n, i)).collect();
    let n = if th { 1200 } else { 240 };
    let ph = rep.phase(50, 2400);
    parallel(8, n, |k| {
        if ph.over(k, 20) || rep.failed() {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("e06/enc/{k}"));
        let mut src = Src::new(rep.seed, k as u64);
        let threads = [1usize, 2, 1, 3, 5, 8, 1, 32, 7, 1, 6, 11, 33][k % 13];
        let mut sc = scratch(threads.max(2));
        let a = r.word();
        let b = if r.chance(1, 2) { r.range(-2048, 2047) as u32 } else { r.related(a) };
        let imm20 = r.u32() & 0xFFFFF;
        let pa = enc_prep(&ctx, a, &mut src, &mut sc);
        let mut res = ctx.ct();
        let (what, want) = match k % 5 {
            0 | 1 => {
                let pb = enc_prep(&ctx, b, &mut src, &mut sc);
                let w = format!("address of rs1={a:#010x} imm={b:#010x}");
                if rep
                    .guard("enc", &w, || h::ram_offset_enc(threads, ctx.module(), &mut res, &pa, &pb, &ctx.keys, sc.borrow()))
                    .is_none()
                {
                    return;
                }
                (w, a.wrapping_add(b).wrapping_sub(1 << 18))
            }
            q => {
                let name = ["AUIPC", "LUI", if k % 2 == 0 { "JAL" } else { "JALR" }][q - 2];
                let pi = enc_prep(&ctx, imm20, &mut src, &mut sc);
                let z = enc_prep(&ctx, r.word(), &mut src, &mut sc);
                let z2 = enc_prep(&ctx, r.word(), &mut src, &mut sc);
                let ram = ctx.ct();
                let w = format!("{name} pc={a:#010x} imm={imm20:#07x}");
                if rep
                    .guard("enc", &w, || {
                        h::rd_eval_enc(rd[name], threads, ctx.module(), &mut res, &z, &z2, &pi, &pa, &ram, &ctx.keys, sc.borrow())
                    })
                    .is_none()
                {
                    return;
                }
                (
                    w,
                    match name {
                        "AUIPC" => a.wrapping_add(imm20 << 12),
                        "LUI" => imm20 << 12,
                        _ => a.wrapping_add(4),
                    },
                )
            }
        };
        let have = dec(&ctx, &res, &mut sc);
        rep.count("enc.inputs", 1);
        rep.eval(Some(&what));
        if have != want {
            rep.violation("enc:value", format!("{what} threads={threads}: {have:#010x}, expected {want:#010x}"));
        }
    });
    rep.require("ram_offset.inputs", 500_000);
    rep.require("ram_offset.edges_driven", 500);
    rep.require("auipc.edges_driven", 200);
    rep.require("link.edges_driven", 200);
    rep.require("enc.inputs", 15);
}
