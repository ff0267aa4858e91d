//! G01, G02, B01: the guest runtime, the guest toolchain and the build step.
use crate::{
    ctx::{Ctx, Src},
    elf::Loaded,
    encvm::{diff, EncVm},
    report::{catch, parallel, Report},
    rng::Rng,
    rv::{decode, Machine, RAM_BASE, RV32M},
};
use compiler::{CompileOpts, Phantom};
use poulpy_hal::api::ScratchOwnedBorrow;
use std::{collections::BTreeMap, fs, os::unix::fs::PermissionsExt, path::PathBuf};

#[allow(dead_code)]
#[path = "../../../guests/logic.rs"]
mod logic;

const RAM_WORDS: usize = 1024;
const MAX_STEPS: usize = 400_000;

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()))
}

/// Destination directories this process asked `CompileOpts::build` for; removed when dropped.
struct Dest(String);
impl Dest {
    fn new(tag: &str) -> Dest {
        Dest(format!("verif-{tag}-{}", std::process::id()))
    }
    fn path(&self) -> PathBuf {
        PathBuf::from("/tmp/vm-experiments").join(&self.0)
    }
}
impl Drop for Dest {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(self.path());
    }
}

/// Builds guests with the real build step and an offline stand-in for cargo.
fn build(rep: &Report, names: &[&str]) -> Option<BTreeMap<String, Vec<u8>>> {
    let dest = Dest::new("guests");
    let dir = verif_dir().join("guests");
    std::env::set_current_dir(&dir).unwrap();
    std::env::set_var("CARGO", dir.join("cargo.sh"));
    let mut out = BTreeMap::new();
    for n in names {
        let elf = rep.guard("build", &format!("guest {n}"), || CompileOpts::new(n).build(&dest.0))?;
        rep.count("guests_built", 1);
        out.insert(n.to_string(), elf);
    }
    std::env::set_current_dir(verif_dir()).unwrap();
    Some(out)
}

/// The executable as the RISC-V and ELF specifications read it.
fn boot(elf: &[u8], input: &[u8]) -> Result<(Machine, Loaded), String> {
    let l = Loaded::parse(elf)?;
    let rom: Vec<u32> = l.text.chunks(4).map(|c| c.iter().rev().fold(0u32, |a, b| a << 8 | *b as u32)).collect();
    let mut m = Machine::new(rom, &vec![0; RAM_WORDS], RAM_BASE);
    for (at, bytes) in &l.data {
        let o = at.checked_sub(RAM_BASE).ok_or("data below RAM")? as usize;
        m.ram.get_mut(o..o + bytes.len()).ok_or("data beyond RAM")?.copy_from_slice(bytes);
    }
    let (s, n) = l.section(".inpdata")?;
    if n as usize != input.len() {
        return Err(format!("input section has {n} bytes, the guest declares {}", input.len()));
    }
    let o = s.checked_sub(RAM_BASE).ok_or("input below RAM")? as usize;
    m.ram.get_mut(o..o + input.len()).ok_or("input beyond RAM")?.copy_from_slice(input);
    Ok((m, l))
}

/// Runs until the guest spins in place; returns the number of steps.
fn run(m: &mut Machine) -> Result<usize, String> {
    for n in 0..MAX_STEPS {
        let at = m.pc;
        m.step().map_err(|f| format!("{f:?} at pc {at:#x} after {n} steps"))?;
        if m.pc == at {
            return Ok(n);
        }
    }
    Err(format!("not finished after {MAX_STEPS} steps"))
}

fn output<'a>(m: &'a Machine, l: &Loaded) -> Result<&'a [u8], String> {
    let (s, n) = l.section(".outdata")?;
    let o = s.checked_sub(RAM_BASE).ok_or("output below RAM")? as usize;
    m.ram.get(o..o + n as usize).ok_or("output beyond RAM".into())
}

// --- G02 ---------------------------------------------------------------------------------------

fn small_float(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => 0.0,
        1 => r.below(20) as f32,
        2 => r.below(1_000_000) as f32 / 7.0,
        3 => -(r.below(1000) as f32) / 3.0,
        4 => f32::from_bits(0x3000_0000 + r.below(0x2000_0000)),
        _ => r.below(2000) as f32 / 100.0,
    }
}

/// Input and the output a run must leave.
fn case(name: &str, r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let le = |ws: &[u32]| ws.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<u8>>();
    match name {
        "template" => {
            let x = r.word();
            let (mut e, mut p) = (0u32, 1u32);
            for c in [123u32, 456, 789, 12, 3456, 7, 89] {
                e = e.wrapping_add(c.wrapping_mul(p));
                p = p.wrapping_mul(x);
            }
            (le(&[x]), le(&[e]))
        }
        "string-match" => {
            let mut s = [0u8; 20];
            s[..11].copy_from_slice(b"mississippi");
            match r.below(4) {
                0 => {}
                1 => s.iter_mut().for_each(|b| *b = r.u32() as u8),
                _ => s[r.below(20) as usize] ^= 1 << r.below(8),
            }
            let mut w = [0u8; 20];
            w[..11].copy_from_slice(b"mississippi");
            (s.to_vec(), vec![(s == w) as u8])
        }
        "uniswap" => {
            let w = |r: &mut Rng| if r.chance(1, 2) { r.word() } else { r.below(100_000) };
            let (t0, t1, amount, b0, b1) = (w(r), w(r), w(r), w(r), w(r));
            let dir = r.below(2);
            let input = le(&[t0, t1, amount, dir | (r.u32() & 0xFFFF_FF00), b0, b1]);
            let k = t0.wrapping_mul(t1);
            let swap = |sell: u32, buy: u32, have: u32, get: u32| -> Option<(u32, u32, u32, u32)> {
                if have < amount {
                    return None;
                }
                let out = buy.wrapping_sub(k.checked_div(sell.wrapping_add(amount))?);
                Some((sell.wrapping_add(amount), buy.wrapping_sub(out), have.wrapping_sub(amount), get.wrapping_add(out)))
            };
            let o = if dir == 1 {
                swap(t0, t1, b0, b1).map(|(p0, p1, a0, a1)| [p0, p1, a0, a1])
            } else {
                swap(t1, t0, b1, b0).map(|(p1, p0, a1, a0)| [p0, p1, a0, a1])
            };
            (input, le(&o.unwrap_or([0; 4])))
        }
        "otc" => {
            let (mid, win, vol, amount) = (small_float(r), small_float(r), small_float(r), small_float(r));
            let kind = r.below(3);
            let input = le(&[mid.to_bits(), win.to_bits(), vol.to_bits(), kind, amount.to_bits()]);
            let base: f32 = [100.0, 25.0, 10.0][kind as usize];
            let share = amount / win;
            let size: f32 = if share <= 0.01 {
                1.0
            } else if share <= 0.05 {
                1.5
            } else {
                2.5
            };
            let disc: f32 = if kind == 0 {
                1.0
            } else if amount > 10.0 {
                0.7
            } else if amount > 5.0 {
                0.9
            } else {
                1.0
            };
            let half = base * size * disc * vol / 10000.0 * mid / 2.0;
            (input, le(&[(mid + half).to_bits(), (mid - half).to_bits()]))
        }
        "tiny" => {
            let (a, b) = (r.word(), r.word());
            let s = 0x0102_0304u32;
            let o = if (a as i32) < (b as i32) { a.wrapping_add(s) } else { b ^ s };
            (le(&[a, b]), le(&[o, (a & 0xFF) << 16]))
        }
        _ => {
            let mut i = [0u8; logic::N];
            if r.chance(1, 2) {
                i.iter_mut().for_each(|b| *b = r.u32() as u8);
            } else {
                for c in i.chunks_exact_mut(4) {
                    c.copy_from_slice(&r.word().to_le_bytes());
                }
            }
            i[63] = r.u32() as u8;
            let (mut s, mut z) = (logic::State::initial(), [0u32; 21]);
            let o = match name {
                "compute-numbers" => logic::run_numbers(&i, &mut s, &mut z),
                "compute-heap" => logic::run_heap(&i, &mut s, &mut z),
                _ => logic::run_structs(&i, &mut s, &mut z),
            };
            (i.to_vec(), o.to_vec())
        }
    }
}

/// Floating-point outputs: any NaN equals any NaN.
fn same(name: &str, a: &[u8], b: &[u8]) -> bool {
    if name != "otc" {
        return a == b;
    }
    a.len() == b.len()
        && a.chunks(4).zip(b.chunks(4)).all(|(x, y)| {
            let f = |c: &[u8]| f32::from_bits(u32::from_le_bytes(c.try_into().unwrap()));
            x == y || (f(x).is_nan() && f(y).is_nan())
        })
}

const GUESTS: [&str; 8] =
    ["template", "string-match", "uniswap", "otc", "compute-numbers", "compute-heap", "compute-structs", "tiny"];

pub fn g02(rep: &Report) {
    rep.rule("guest programs (the repository's examples and ones using integer and soft-float arithmetic, memory moves, jump tables, statics of all kinds, heap collections and dynamic dispatch) are compiled with the real build step, linker script and runtime, loaded, and run on random inputs on the plaintext VM and on the reference machine; the outputs are compared with the same computation done natively. One short guest runs to its end on the public encrypted VM, and single encrypted cycles start from states sampled inside guest executions. A case is one (guest, input).");
    let th = rep.thorough();
    let Some(elfs) = build(rep, &GUESTS) else { return };
    let per = if th { 20_000 } else { 1200 };
    let ph = rep.phase(70, 2400);
    for name in GUESTS {
        let elf = &elfs[name];
        let Some(p) = rep.guard("load", name, || Phantom::from_elf(elf.clone())) else { return };
        parallel(8, per, |i| {
            if rep.failed() || ph.over(i, 60) {
                return;
            }
            let mut r = Rng::new(rep.seed, &format!("g02/{name}/{i}"));
            let (input, want) = case(name, &mut r);
            let what = format!("guest {name} input {input:02x?}");
            let fail = |sig: &str, d: String| rep.violation(&format!("{name}:{sig}"), format!("{what}: {d}"));
            let steps = match boot(elf, &input).and_then(|(mut m, l)| {
                // What only the plaintext VM can execute is of no use under encryption.
                if let Some(i) = m.rom.iter().filter_map(|w| decode(*w)).find(|i| RV32M.contains(&i.op)) {
                    return Err(format!("the guest was compiled to {i:?}, which the encrypted VM does not have"));
                }
                let n = run(&mut m)?;
                if !same(name, output(&m, &l)?, &want) {
                    return Err(format!("output {:02x?}, native {want:02x?}", output(&m, &l)?));
                }
                Ok(n)
            }) {
                Ok(n) => n,
                Err(e) => return fail("executable", e),
            };
            rep.eval(Some(&what));
            rep.count(&format!("runs.{name}"), 1);
            rep.gauge_max(&format!("steps.{name}"), steps as f64);
            let got = catch(|| {
                let mut vm = p.test_vm(steps + 1 + r.below(3) as usize);
                vm.read_input_tape(&input);
                vm.execute();
                vm.output_tape()
            });
            match got {
                Ok(o) if same(name, &o, &want) => {}
                Ok(o) => fail("plain", format!("the plaintext VM gives {o:02x?}, native {want:02x?}")),
                Err(e) => fail("plain:panic", e),
            }
            if i == 0 {
                rep.sample(format!("{what}: {steps} steps"));
            }
        });
        if rep.failed() {
            return;
        }
    }
    // To the end under encryption, public interface.
    for i in 0..if th { 6 } else { 1 } {
        let mut r = Rng::new(rep.seed, &format!("g02/enc/{i}"));
        let (input, want) = case("tiny", &mut r);
        let what = format!("guest tiny, encrypted, input {input:02x?}");
        let steps = boot(&elfs["tiny"], &input).and_then(|(mut m, _)| run(&mut m)).unwrap_or(30);
        std::env::set_var("PHANTOM_THREADS", "8");
        std::env::remove_var("PHANTOM_DEBUG");
        let got = rep.guard("enc", &what, || {
            let mut vm = Phantom::from_elf(elfs["tiny"].clone()).encrypted_vm(&input, steps);
            vm.execute();
            vm.output_tape()
        });
        let Some(got) = got else { return };
        rep.eval(Some(&what));
        rep.count("encrypted_runs", 1);
        rep.count("encrypted_run_cycles", steps as u64);
        if got != want {
            rep.violation("tiny:enc", format!("{what}: {got:02x?}, native {want:02x?}"));
            return;
        }
    }
    // Single cycles from inside guest executions.
    let ctx = Ctx::fast(rep.seed, 70);
    let n = if th { 400 } else { 24 };
    let ph = rep.phase(40, 1200);
    parallel(8, n, |i| {
        if rep.failed() || ph.over(i, 16) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("g02/cycle/{i}"));
        let name = GUESTS[i % GUESTS.len()];
        let (input, _) = case(name, &mut r);
        let Ok((mut m, _)) = boot(&elfs[name], &input) else { return };
        let total = run(&mut m.clone()).unwrap_or(1);
        for _ in 0..r.below(total as u32) {
            m.step().unwrap();
        }
        let mut src = Src::new(rep.seed, 0x6020 + i as u64);
        let what = format!("guest {name} pc={:#x} {:?}", m.pc, m.fetch());
        let got = catch(|| {
            let mut vm = EncVm::new(&ctx, &m.rom, &m.ram_words(), Some(&m.x), 1, false, &mut src);
            fhevm::verif_hooks::set_pc(&mut vm.vm, m.pc, ctx.module(), &ctx.sk, &mut src.xa, &mut src.xe, vm.sc.borrow());
            vm.cycle();
            vm.snap()
        });
        m.step().unwrap();
        rep.eval(Some(&format!("{what}{input:?}")));
        rep.count("encrypted_cycles", 1);
        match got {
            Err(e) => rep.violation("cycle:panic", format!("{what}: {e}")),
            Ok(s) => {
                if let Some((c, d)) = diff(&s, &m) {
                    rep.violation(&format!("cycle:{c}"), format!("{what}: {d}"));
                }
            }
        }
    });
    for g in GUESTS {
        rep.require(&format!("runs.{g}"), 50);
    }
    rep.require("encrypted_runs", 1);
    rep.require("encrypted_cycles", 8);
}

// --- G01 ---------------------------------------------------------------------------------------

const REQ: usize = 16;
const GAP: u32 = 0x100;

#[derive(Clone, Copy, Debug, Default)]
struct Req {
    size: u16,
    log_align: u8,
    kind: u8,
}
impl Req {
    fn bytes(&self) -> u64 {
        (self.size as u64) << (self.kind >> 2)
    }
    /// Position after the request when nothing is ever reused.
    fn after(&self, pos: u64) -> u64 {
        let a = 1u64 << self.log_align;
        let up = |p: u64| (p + a - 1) / a * a;
        let n = self.bytes();
        match self.kind & 3 {
            _ if n == 0 => pos,
            2 if n > 1 => up(up(pos) + n / 2) + n,
            3 => up(up(pos) + n) + n,
            _ => up(pos) + n,
        }
    }
}

fn requests(r: &mut Rng, start: u32, sp: u32) -> [Req; REQ] {
    let mut q = [Req::default(); REQ];
    let n = 1 + r.below(REQ as u32) as usize;
    let mut pos = start as u64;
    for k in 0..n {
        let room = (sp as u64).saturating_sub(pos + GAP as u64) as u32;
        let log_align = r.pick(&[0u8, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7]);
        let kind = r.pick(&[0u8, 0, 0, 1, 2, 3]);
        let mut x = Req { size: 1 + r.below(40) as u16, log_align, kind };
        if k + 1 == n || r.chance(1, 30) {
            match r.below(8) {
                // Around the end of what fits.
                0..=4 => {
                    x.kind = r.below(2) as u8;
                    let s = room as i64 + r.range(-140, 40);
                    x.size = s.clamp(1, 60_000) as u16;
                }
                // Far too large.
                5 => {
                    x.size = 0x7FFF;
                    x.kind = r.pick(&[15u8, 16, 14, 4]) << 2 | r.below(2) as u8;
                    if (x.size as u64) << (x.kind >> 2) > 0x7FFF_0000 {
                        x.size = 0x7FF0;
                    }
                    x.log_align = r.pick(&[0u8, 2, 4]);
                }
                // Aligned beyond the end of RAM.
                6 => {
                    x.size = 4;
                    x.kind = 0;
                    x.log_align = r.pick(&[12u8, 16, 20, 28, 30]);
                }
                _ => x.size = 100 + r.below(400) as u16,
            }
        }
        pos = x.after(pos);
        q[k] = x;
        if r.chance(1, 20) {
            q[k].size = 0;
        }
    }
    q
}

pub fn g01(rep: &Report) {
    rep.rule("a guest allocates, resizes and frees blocks as its input says (any order, sizes and alignments, many runs ending around the last byte that fits, or far beyond it), fills every block and re-reads all of them at the end; an observer of the final RAM checks alignment, disjointness, that blocks lie above all statics and at least the gap below the stack pointer, contents, zeroing, and that requests which cannot fit stop the guest while those that comfortably fit do not. A case is one request sequence.");
    let Some(elfs) = build(rep, &["heap"]) else { return };
    let elf = &elfs["heap"];
    // Where statics end, and main's stack pointer.
    let (end, sp) = match boot(elf, &[0; 4 * REQ]).and_then(|(mut m, l)| {
        run(&mut m)?;
        let o = output(&m, &l)?;
        Ok((l.alloc_end(RAM_BASE), u32::from_le_bytes(o[16..20].try_into().unwrap())))
    }) {
        Ok(v) => v,
        Err(e) => return rep.violation("start", format!("no requests: {e}")),
    };
    rep.sample(format!("statics end at {end:#x}, stack pointer {sp:#x}"));
    if sp <= end + 1024 || sp > RAM_BASE + 4 * RAM_WORDS as u32 {
        return rep.violation("stack", format!("stack pointer {sp:#x} with statics up to {end:#x}"));
    }
    let p = Phantom::from_elf(elf.clone());
    let n = if rep.thorough() { 300_000 } else { 15_000 };
    let ph = rep.phase(60, 2400);
    parallel(8, n, |i| {
        if rep.failed() || ph.over(i, 3000) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("g01/{i}"));
        let q = requests(&mut r, end, sp);
        let mut input: Vec<u8> = q.iter().flat_map(|x| [x.size as u8, (x.size >> 8) as u8, x.log_align, x.kind]).collect();
        // The guest first leaves something in the memory that its heap will come from.
        let used = r.chance(1, 2);
        if used {
            input[2] |= 0x80;
            rep.count("over_used_stack", 1);
        }
        let what = format!("{}requests {:?}", if used { "after a deep call, " } else { "" }, q.iter().filter(|x| x.size > 0).map(|x| (x.bytes(), 1u64 << x.log_align, x.kind & 3)).collect::<Vec<_>>());
        let fail = |sig: &str, d: String| rep.violation(sig, format!("{what}: {d}"));
        let (m, l, steps) = match boot(elf, &input).and_then(|(mut m, l)| {
            let n = run(&mut m)?;
            Ok((m, l, n))
        }) {
            Ok(v) => v,
            Err(e) => return fail("run", e),
        };
        let o = match output(&m, &l) {
            Ok(o) => o.to_vec(),
            Err(e) => return fail("output", e),
        };
        let w = |k: usize| u32::from_le_bytes(o[4 * k..4 * k + 4].try_into().unwrap());
        rep.eval(Some(&what));
        let (status, granted, intact, zeroed) = (w(0), w(1), w(2), w(3));
        let live: Vec<(usize, &Req)> = q.iter().enumerate().filter(|(_, x)| x.size > 0).collect();
        if !(status == 2 || status == 0xDEAD) {
            return fail("status", format!("the guest ended with status {status:#x}"));
        }
        rep.count(if status == 2 { "completed" } else { "stopped" }, 1);
        rep.count("blocks", granted as u64);
        // Blocks granted so far.
        let mut blocks: Vec<(u32, u32)> = vec![];
        for (k, x) in live.iter().take(granted as usize) {
            let (a, n) = (w(5 + k), x.bytes() as u32);
            if a as u64 % (1u64 << x.log_align) != 0 {
                return fail("align", format!("block {k} at {a:#x}"));
            }
            if a < end {
                return fail("statics", format!("block {k} at {a:#x}, statics end at {end:#x}"));
            }
            if a as u64 + n as u64 + GAP as u64 > sp as u64 {
                return fail("stack", format!("block {k} {a:#x}+{n} is less than {GAP} bytes below the stack pointer {sp:#x}"));
            }
            if let Some(b) = blocks.iter().find(|b| a < b.0 + b.1 && b.0 < a + n) {
                return fail("overlap", format!("block {k} {a:#x}+{n} overlaps {:#x}+{}", b.0, b.1));
            }
            blocks.push((a, n));
            let s = (a - RAM_BASE) as usize;
            if (0..n as usize).any(|j| m.ram[s + j] != (j as u8).wrapping_mul(5) ^ (*k as u8).wrapping_mul(17).wrapping_add(1)) {
                return fail("contents", format!("block {k} {a:#x}+{n} does not hold what was put there"));
            }
        }
        let mut pos = end as u64;
        let fits = |pos: u64| pos + GAP as u64 + 256 <= sp as u64;
        for (j, (k, x)) in live.iter().enumerate() {
            pos = x.after(pos);
            if status == 0xDEAD && j == granted as usize && fits(pos) {
                return fail("refused", format!("request {k} was refused although everything so far ends at {pos:#x}, stack pointer {sp:#x}"));
            }
            if status == 2 && (intact >> k & 1 == 0 || (x.kind & 3 == 1 && zeroed >> k & 1 == 0)) {
                return fail("contents", format!("block {k}: the guest saw changed or non-zero contents"));
            }
        }
        if status == 2 && granted as usize != live.len() {
            return fail("count", format!("{granted} of {} blocks", live.len()));
        }
        if status == 2 && blocks.last().is_some_and(|b| b.0 + b.1 + GAP + 64 > sp) {
            rep.count("ending_at_the_gap", 1);
        }
        if i % 16 == 0 {
            let got = catch(|| {
                let mut vm = p.test_vm(steps + 1);
                vm.read_input_tape(&input);
                vm.execute();
                vm.output_tape()
            });
            rep.count("plain_vm_runs", 1);
            match got {
                Ok(x) if x == o => {}
                Ok(_) => fail("plain", "the plaintext VM's output differs from the reference machine's".into()),
                Err(e) => fail("plain:panic", e),
            }
        }
        if i < 3 {
            rep.sample(format!("{what}: {status:#x}, {granted} blocks, {steps} steps"));
        }
    });
    rep.require("completed", 1000);
    rep.require("stopped", 500);
    rep.require("ending_at_the_gap", 30);
    rep.require("over_used_stack", 500);
}

// --- B01 ---------------------------------------------------------------------------------------

/// Stand-in for cargo: puts a prepared file where cargo would put the executable.
const STANDIN: &str = r#"#!/bin/bash
dir=${CARGO_TARGET_DIR:-target} target=${CARGO_BUILD_TARGET:-} profile=dev bin= pkg=
all=("$@")
while [ $# -gt 0 ]; do
  case $1 in
    --target-dir) dir=$2; shift ;; --target-dir=*) dir=${1#*=} ;;
    --target) target=$2; shift ;; --target=*) target=${1#*=} ;;
    --profile) profile=$2; shift ;; --profile=*) profile=${1#*=} ;;
    --release|-r) profile=release ;;
    --bin) bin=$2; shift ;; --bin=*) bin=${1#*=} ;;
    --package|-p) pkg=$2; shift ;; --package=*) pkg=${1#*=} ;;
  esac
  shift
done
[ "$profile" = dev ] && profile=debug
key=$(basename "$dir")
box=$STANDIN_BOX/$key
printf '%s\n' "${all[@]}" > "$box.args"
mode=$(cat "$box.mode")
out=$dir${target:+/$target}/$profile
mkdir -p "$out"
[ -n "$bin" ] || bin=$pkg
case $mode in
  ok) cp "$box.elf" "$out/$bin" ;;
  slow) head -c 70 "$box.elf" > "$out/$bin"; sleep 0.15; cp "$box.elf" "$out/$bin" ;;
  chatty) head -c 3000000 /dev/zero | tr '\0' e >&2; head -c 3000000 /dev/zero; cp "$box.elf" "$out/$bin" ;;
  fresh) ;;
  fail) cp "$box.elf" "$out/$bin"; echo "error: no" >&2; exit 101 ;;
  exit1) exit 1 ;;
  killed) cp "$box.elf" "$out/$bin"; kill -9 $$ ;;
  missing) rm -f "$out/$bin" ;;
esac
exit 0
"#;

pub fn b01(rep: &Report) {
    rep.rule("the real build step is driven with a recording stand-in for cargo that succeeds, fails after writing the output file, dies, writes nothing, writes slowly, or floods its pipes, over several destinations at once; the bytes returned must be exactly what the successful build left for the requested program, and every failed build must stop the caller. A case is one build.");
    let scratch = std::env::temp_dir().join(format!("verif-b01-{}", std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let cargo = scratch.join("cargo");
    fs::write(&cargo, STANDIN).unwrap();
    fs::set_permissions(&cargo, fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("CARGO", &cargo);
    std::env::set_var("STANDIN_BOX", &scratch);
    std::env::set_current_dir(&scratch).unwrap();
    // The build step may print the failed build's messages; keep them out of the report.
    let n = if rep.thorough() { 400 } else { 48 };
    let ph = rep.phase(60, 1200);
    parallel(6, n, |i| {
        if rep.failed() || ph.over(i, 48) {
            return;
        }
        let mut r = Rng::new(rep.seed, &format!("b01/{i}"));
        let dest = Dest::new(&format!("b01-{i}"));
        let name = r.pick(&["guest", "a", "guest-test1", "my_prog"]);
        let mut last: Option<Vec<u8>> = None;
        for step in 0..4 {
            let mode = r.pick(&["ok", "ok", "slow", "chatty", "fresh", "fail", "exit1", "killed", "missing"]);
            if mode == "fresh" && last.is_none() {
                continue;
            }
            let elf: Vec<u8> = (0..64 + r.below(5000)).map(|_| r.u32() as u8).collect();
            let bx = |ext: &str| scratch.join(format!("{}.{ext}", dest.0));
            fs::write(bx("elf"), &elf).unwrap();
            fs::write(bx("mode"), mode).unwrap();
            let what = format!("build {i}.{step} of {name}, stand-in mode {mode}");
            let got = catch(|| CompileOpts::new(name).build(&dest.0));
            rep.eval(Some(&what));
            rep.count(&format!("mode.{mode}"), 1);
            if !bx("args").exists() {
                rep.inconclusive(format!("{what}: the stand-in did not run"));
                return;
            }
            let want = match mode {
                "ok" | "slow" | "chatty" => Some(elf.clone()),
                "fresh" => last.clone(),
                _ => None,
            };
            match (got, &want) {
                (Ok(g), Some(w)) if g == *w => {}
                (Ok(g), Some(w)) => {
                    return rep.violation("bytes", format!("{what}: {} bytes returned, the build left {} different ones", g.len(), w.len()))
                }
                (Ok(g), None) => return rep.violation("failure", format!("{what}: the build failed but {} bytes were returned", g.len())),
                (Err(e), Some(_)) => return rep.violation("panic", format!("{what}: the build succeeded but: {e}")),
                (Err(_), None) => rep.count("failures_reported", 1),
            }
            if mode == "ok" && step == 0 {
                rep.sample(format!("{what}: {}", fs::read_to_string(bx("args")).unwrap_or_default().replace('\n', " ")));
            }
            // What a fresh build would find.
            last = match mode {
                "ok" | "slow" | "chatty" | "fail" | "killed" => Some(elf),
                "missing" => None,
                _ => last,
            };
        }
    });
    let _ = std::env::set_current_dir("/");
    let _ = fs::remove_dir_all(&scratch);
    rep.require("failures_reported", 10);
    rep.require("mode.ok", 10);
}
