//! Pure computations, compiled into the guest and into the harness.
//! 64 bytes in, 64 bytes out; no memory other than the stack, statics and the heap.
use alloc::{boxed::Box, collections::BTreeMap, string::String, vec, vec::Vec};

pub const N: usize = 64;

/// Read-only table (.rodata).
static TABLE: [u16; 64] = {
    let mut t = [0u16; 64];
    let mut i = 0;
    while i < 64 {
        t[i] = (i as u16).wrapping_mul(0x9E37) ^ 0x5A5A;
        i += 1;
    }
    t
};

/// Statics a run changes (.data and .bss).
pub struct State {
    pub counter: u32,
    pub ring: [u8; 37],
}

impl State {
    pub const fn initial() -> State {
        let mut ring = [0u8; 37];
        let mut i = 0;
        while i < 37 {
            ring[i] = (i * 7 + 3) as u8;
            i += 1;
        }
        State { counter: 0xC0FF_EE01, ring }
    }
}

fn u(b: &[u8], k: usize) -> u32 {
    u32::from_le_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]])
}

trait Step {
    fn step(&self, x: u32) -> u32;
}
struct Add(u32);
struct Rot(u32);
struct Xor(u32);
impl Step for Add {
    fn step(&self, x: u32) -> u32 {
        x.wrapping_add(self.0)
    }
}
impl Step for Rot {
    fn step(&self, x: u32) -> u32 {
        x.rotate_left(self.0 & 31)
    }
}
impl Step for Xor {
    fn step(&self, x: u32) -> u32 {
        x ^ self.0
    }
}

#[inline(never)]
fn ack(m: u32, n: u32) -> u32 {
    if m == 0 {
        n + 1
    } else if n == 0 {
        ack(m - 1, 1)
    } else {
        ack(m - 1, ack(m, n - 1))
    }
}

#[inline(never)]
fn arith(i: &[u8], o: &mut [u8]) {
    let (a, b) = (u(i, 0), u(i, 4));
    let (sa, sb) = (a as i32, b as i32);
    let mut h = 0x811C_9DC5u32;
    let mut mix = |x: u32| h = (h ^ x).wrapping_mul(0x0100_0193).rotate_left(5);
    mix(a.wrapping_mul(b));
    mix(a.checked_div(b).unwrap_or(7));
    mix(a.checked_rem(b).unwrap_or(9));
    mix(sa.checked_div(sb).unwrap_or(-3) as u32);
    mix(sa.checked_rem(sb).unwrap_or(-5) as u32);
    mix(a.wrapping_shl(b));
    mix(a.wrapping_shr(b));
    mix(sa.wrapping_shr(b) as u32);
    mix((sa < sb) as u32 | ((a < b) as u32) << 1 | ((a == b) as u32) << 2 | ((sa >= sb) as u32) << 3);
    mix((a as i8 as i32) as u32);
    mix((b as i16 as i32) as u32);
    mix(a.leading_zeros() << 8 | b.trailing_zeros() << 4 | a.count_ones());
    mix(a.saturating_sub(b));
    mix(sa.saturating_add(sb) as u32);
    mix(a.swap_bytes() ^ b.reverse_bits());
    let (la, lb) = ((a as u64) << 32 | b as u64, (u(i, 8) as u64) << 17 | u(i, 12) as u64);
    let l = la.wrapping_mul(lb) ^ la.checked_div(lb).unwrap_or(1) ^ la.checked_rem(lb | 1).unwrap_or(2);
    mix(l as u32);
    mix((l >> 32) as u32);
    let s = (la as i64).wrapping_shr(b & 63).wrapping_sub(lb as i64);
    mix(s as u32);
    mix((s >> 32) as u32);
    o[..4].copy_from_slice(&h.to_le_bytes());
}

#[inline(never)]
fn float(i: &[u8], o: &mut [u8]) {
    let a = u(i, 0) as i32 as f32 / 1024.0;
    let b = f32::from_bits(0x3F80_0000 | (u(i, 4) >> 9));
    let c = (a * b + 3.5) / (b - 0.25);
    let d = (a as f64) * 1.0000001 - (c as f64);
    o[..4].copy_from_slice(&c.to_bits().to_le_bytes());
    o[4..12].copy_from_slice(&d.to_bits().to_le_bytes());
    o[12..16].copy_from_slice(&(c as i32).to_le_bytes());
    o[16] = (a < b) as u8 | ((c > a) as u8) << 1;
}

#[inline(never)]
fn sort(i: &[u8], o: &mut [u8]) {
    let mut v: Vec<u8> = i[..24].to_vec();
    v.sort_unstable();
    let mut w: Vec<i16> = i[24..48].chunks_exact(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect();
    // Insertion sort.
    for k in 1..w.len() {
        let mut j = k;
        while j > 0 && w[j - 1] > w[j] {
            w.swap(j - 1, j);
            j -= 1;
        }
    }
    o[..24].copy_from_slice(&v);
    for (k, x) in w.iter().enumerate() {
        o[24 + 2 * k..26 + 2 * k].copy_from_slice(&x.to_le_bytes());
    }
}

#[inline(never)]
fn text(i: &[u8], o: &mut [u8]) {
    let mut s = String::new();
    for b in &i[..16] {
        s.push((b'a' + b % 26) as char);
        if b % 7 == 0 {
            s.push_str("-x");
        }
    }
    let n = s.len();
    let up = s.to_ascii_uppercase();
    let dashes = up.bytes().filter(|b| *b == b'-').count();
    o[0] = n as u8;
    o[1] = dashes as u8;
    o[2] = up.bytes().position(|b| b == b'X').unwrap_or(255) as u8;
    for (k, b) in up.bytes().take(32).enumerate() {
        o[3 + k] = b;
    }
}

#[inline(never)]
fn structs(i: &[u8], o: &mut [u8]) {
    let mut steps: Vec<Box<dyn Step>> = vec![];
    for c in i[..16].chunks_exact(2) {
        let k = c[1] as u32 * 0x0101_0101;
        steps.push(match c[0] % 3 {
            0 => Box::new(Add(k)),
            1 => Box::new(Rot(k)),
            _ => Box::new(Xor(k)),
        });
    }
    let mut x = u(i, 16);
    for s in steps.iter().rev() {
        x = s.step(x);
    }
    let mut map = BTreeMap::new();
    for c in i[20..40].iter() {
        *map.entry(c % 11).or_insert(0u32) += *c as u32;
    }
    o[..4].copy_from_slice(&x.to_le_bytes());
    for (k, (a, b)) in map.iter().enumerate() {
        o[4 + 4 * k] = *a;
        o[5 + 4 * k..7 + 4 * k].copy_from_slice(&(*b as u16).to_le_bytes());
    }
}

#[inline(never)]
fn jump(sel: u8, x: u32) -> u32 {
    match sel & 15 {
        0 => x + 1,
        1 => x.wrapping_mul(3),
        2 => x ^ 0xFFFF,
        3 => x << 3,
        4 => x >> 2,
        5 => !x,
        6 => x.wrapping_sub(77),
        7 => x | 0x1000,
        8 => x & 0xFFF0,
        9 => x.rotate_right(9),
        10 => x.swap_bytes(),
        11 => TABLE[(x & 63) as usize] as u32,
        12 => ack(2, x & 3),
        13 => x % 1000,
        14 => x / 7,
        _ => x.wrapping_add(0x8000_0000),
    }
}

#[inline(never)]
fn moves(i: &[u8], o: &mut [u8], s: &mut State, z: &mut [u32; 21]) {
    let mut buf = [0u8; 96];
    buf[3..67].copy_from_slice(i);
    let (d, l) = ((i[0] % 30) as usize, (i[1] % 40) as usize);
    buf.copy_within(5..5 + l, d);
    buf.copy_within(d..d + l, 11);
    s.counter = s.counter.wrapping_add(u(&buf, 1));
    for k in 0..37 {
        s.ring[(k * 5) % 37] ^= buf[k * 2];
    }
    for k in 0..21 {
        z[k] = z[k].wrapping_add(u(&buf, k * 3)) ^ s.counter;
    }
    let mut x = s.counter;
    for k in 0..12 {
        x = jump(i[k].wrapping_add(s.ring[k]), x & 0x7FFF_FFFF);
    }
    o[..4].copy_from_slice(&x.to_le_bytes());
    o[4..24].copy_from_slice(&buf[10..30]);
    o[24..44].copy_from_slice(&s.ring[..20]);
    o[44..48].copy_from_slice(&z[i[2] as usize % 21].to_le_bytes());
    o[48..52].copy_from_slice(&s.counter.to_le_bytes());
}

fn start() -> [u8; N] {
    [0u8; N]
}

/// Numbers, floating point, memory moves, jump tables and statics.
pub fn run_numbers(i: &[u8; N], s: &mut State, z: &mut [u32; 21]) -> [u8; N] {
    let mut o = start();
    match i[63] % 3 {
        0 => arith(i, &mut o),
        1 => float(i, &mut o),
        _ => moves(i, &mut o, s, z),
    }
    o[63] = 0x80 | i[63] % 3;
    o
}

/// Heap-allocated vectors and strings.
pub fn run_heap(i: &[u8; N], s: &mut State, z: &mut [u32; 21]) -> [u8; N] {
    let mut o = start();
    s.counter = s.counter.wrapping_add(1);
    z[3] += 1;
    match i[63] % 2 {
        0 => sort(i, &mut o),
        _ => text(i, &mut o),
    }
    o[63] = 0x90 | i[63] % 2;
    o
}

/// Dynamic dispatch and an ordered map.
pub fn run_structs(i: &[u8; N], s: &mut State, z: &mut [u32; 21]) -> [u8; N] {
    let mut o = start();
    s.counter = s.counter.wrapping_add(1);
    z[3] += 1;
    structs(i, &mut o);
    o[63] = 0xA0;
    o
}
